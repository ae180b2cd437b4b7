package main

// Iterator protocol: an iterator that is told to stop yields nothing more.

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// isIterFunc: the function has the shape of an iter.Seq or iter.Seq2.
func isIterFunc(f *ssa.Function) bool {
	s := f.Signature
	if f.Synthetic != "" || s.Params().Len() != 1 || s.Results().Len() != 0 || len(f.Blocks) == 0 || bodyOfRange(f) {
		return false
	}
	y, ok := s.Params().At(0).Type().Underlying().(*types.Signature)
	return ok && y.Results().Len() == 1 && types.Identical(y.Results().At(0).Type(), types.Typ[types.Bool]) && y.Params().Len() <= 2
}

func (c *Check) itersStop(pkgs ...string) {
	var fs []*ssa.Function
	for _, f := range c.P.Funcs {
		if in(pkgOf(f), pkgs) && isIterFunc(f) {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fname(fs[i]) < fname(fs[j]) })
	for _, f := range fs {
		name := fname(f)
		c.Funcs[name] = true
		g := NewGraph(c.P, f, nil)
		g.TrackAll = true
		q := c.q(name, g).when(func(t *Term) (int64, bool) {
			if v, ok := yieldOK(t); ok {
				return 1 - v, true
			}
			return 0, false
		})
		q.neverAfter(isYield, isYield, "an iterator that is told to stop yields on: the loop over it panics")
	}
}

func init() {
	rule("iter.stop", "C03 C07 C17 C18 C19",
		"an iterator whose consumer stops yields nothing more",
		func(c *Check) {
			c.itersStop("dkv", "dkv/kv", "dkv/memtable", "dkv/mergesort", "dkv/recovery", "dkv/sst", "dkv/storage", "dkv/wal", "dkv/ziptree", "util/ds", "util/iteru", "util/sliceu")
		})
	rule("iter.stop.more", "C10 C14 C20",
		"an iterator whose consumer stops yields nothing more",
		func(c *Check) {
			c.itersStop("batching", "workers/operator", "workers/sourcerunner", "storage/locations", "storage/snapshots", "jobs", "partitioning", "connectors", "connectors/embedded", "connectors/kinesis")
		})
}
