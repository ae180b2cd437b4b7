package dkv

import (
	"bytes"
	"fmt"
	"log/slog"
	"math/rand"
	"slices"
	"testing"

	"reduction.dev/reduction/dkv/kv"
	"reduction.dev/reduction/dkv/recovery"
	"reduction.dev/reduction/dkv/storage"
)

type neverDelete struct{ kv.AllDataOwnership }

func (neverDelete) ExclusivelyOwnsTable(uri string, startKey, endKey []byte) (bool, error) { return false, nil }

type model map[string]string

func (m model) scan(p string) []string {
	var out []string
	for k, v := range m {
		if bytes.HasPrefix([]byte(k), []byte(p)) {
			out = append(out, k+"="+v)
		}
	}
	slices.Sort(out)
	return out
}

func check(t *testing.T, db *DB, m model, what string) {
	t.Helper()
	for i := 0; i < 60; i++ {
		k := fmt.Sprintf("k%02d", i)
		e, err := db.Get([]byte(k))
		want, ok := m[k]
		if err != nil && err != kv.ErrNotFound {
			t.Fatalf("%s: get %s: %v", what, k, err)
		}
		got, gok := "", false
		if err == nil && !e.IsDelete() {
			got, gok = string(e.Value()), true
		}
		if got != want || ok != gok {
			t.Fatalf("%s: get %s = %q,%v want %q,%v", what, k, got, gok, want, ok)
		}
	}
	for _, p := range []string{"", "k", "k1", "k25", "z"} {
		var err error
		var got []string
		for e := range db.ScanPrefix([]byte(p), &err) {
			got = append(got, string(e.Key())+"="+string(e.Value()))
		}
		if err != nil {
			t.Fatal(err)
		}
		if !slices.Equal(got, m.scan(p)) {
			t.Fatalf("%s: scan %q\n got %v\nwant %v", what, p, got, m.scan(p))
		}
	}
}

func TestReads(t *testing.T) {
	for seed := int64(0); seed < 60; seed++ {
		r := rand.New(rand.NewSource(seed))
		fs := storage.NewMemoryFilesystem()
		opts := DBOptions{FileSystem: fs, MemTableSize: 150 + uint64(r.Intn(300)), TargetFileSize: 100 + uint64(r.Intn(800)), MaxWALSize: 1 << 20,
			L0TableNumCompactionTrigger: 1 + r.Intn(4), Logger: slog.New(slog.DiscardHandler)}
		db := Open(opts, nil)
		m := model{}
		type ck struct {
			h recovery.CheckpointHandle
			m model
		}
		var cks []ck
		id := uint64(0)
		for i := 0; i < 600; i++ {
			k := fmt.Sprintf("k%02d", r.Intn(60))
			if r.Intn(3) == 0 {
				db.Delete([]byte(k))
				delete(m, k)
			} else {
				v := fmt.Sprintf("v%d", i)
				db.Put([]byte(k), []byte(v))
				m[k] = v
			}
			if r.Intn(20) == 0 {
				if r.Intn(2) == 0 {
					db.WaitOnTasks()
				}
				check(t, db, m, fmt.Sprintf("seed %d step %d", seed, i))
			}
			if r.Intn(60) == 0 {
				id++
				c := model{}
				for k, v := range m {
					c[k] = v
				}
				h, err := db.Checkpoint(id)()
				if err != nil {
					t.Fatal(err)
				}
				cks = append(cks, ck{h, c})
			}
		}
		for i, c := range cks {
			o2 := opts
			o2.MemTableSize, o2.DataOwnership = 1<<30, &neverDelete{}
			db2 := Open(o2, []recovery.CheckpointHandle{c.h})
			check(t, db2, c.m, fmt.Sprintf("seed %d ckpt %d", seed, i))
		}
		if err := db.WaitOnTasks(); err != nil {
			t.Fatal(err)
		}
	}
}
