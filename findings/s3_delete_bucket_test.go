package storage

import (
	"testing"

	"reduction.dev/reduction/storage/objstore"
)

// C09: deleting a table restored from another bucket doesn't delete a file of this one.
func TestDeleteOtherBucket(t *testing.T) {
	svc := objstore.NewMemoryS3Service()
	a, b := NewS3FileSystem(svc, "a", "db"), NewS3FileSystem(svc, "b", "db")
	for _, fs := range []*S3FileSystem{a, b} {
		f := fs.New("000000.sst")
		f.Write([]byte("x"))
		if err := f.Save(); err != nil {
			t.Fatal(err)
		}
	}
	if err := a.Open("s3://b/db/000000.sst").CreateDeleteFunc()(); err != nil {
		t.Fatal(err)
	}
	if _, err := ReadAll(a.Open("000000.sst")); err != nil {
		t.Errorf("a file of this bucket: %v", err)
	}
	if _, err := ReadAll(b.Open("000000.sst")); err == nil {
		t.Error("the table's file wasn't deleted")
	}
}
