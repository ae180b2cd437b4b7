package locations

import (
	"bytes"
	"os"
	"testing"
)

// C13/C14: what a directory given by a relative path lists or returns as a URI can be read back.
func TestRelativeLocation(t *testing.T) {
	if err := os.Chdir(t.TempDir()); err != nil {
		t.Fatal(err)
	}
	d := NewLocalDirectory("store")
	uri, err := d.Write("checkpoints/job-1.snapshot", bytes.NewBufferString("x"))
	if err != nil {
		t.Fatal(err)
	}
	if _, err := d.Read(uri); err != nil {
		t.Errorf("written %s: %v", uri, err)
	}
	for p, err := range d.List() {
		if err != nil {
			t.Fatal(err)
		}
		if _, err := d.Read(p); err != nil {
			t.Errorf("listed %s: %v", p, err)
		}
	}
	if err := d.Copy(uri, "savepoints/1/job.savepoint"); err != nil {
		t.Errorf("copy: %v", err)
	}
	sp, _ := d.URI("savepoints/1/job.savepoint")
	if _, err := d.Read(sp); err != nil {
		t.Errorf("savepoint %s: %v", sp, err)
	}
}
