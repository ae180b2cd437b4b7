package main

import (
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Mutex typestate: no path leaves a function with a mutex it locked (unless every path does, as a lock
// helper would) and none locks a mutex it already holds.

func (x X) mutexOp() (key, op string) {
	c := x.common()
	if c == nil {
		return "", ""
	}
	op = lockOps[callName(c)]
	if op == "" {
		return "", ""
	}
	return x.argT(0).String(), op
}

func (c *Check) lockBalance(pkgs ...string) {
	in := map[string]bool{}
	for _, p := range pkgs {
		in[p] = true
	}
	var fs []*ssa.Function
	for _, f := range c.P.Funcs {
		if !in[pkgOf(f)] || f.Synthetic != "" && f.Parent() == nil {
			continue
		}
		has := false
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok && lockOps[callName(ci.Common())] != "" {
					has = true
				}
			}
		}
		if has {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fname(fs[i]) < fname(fs[j]) })
	seen, rounds := map[string]bool{}, map[string]int{}
	handed := map[string]bool{} // mutexes some function unlocks that it didn't lock
	type left struct {
		f   *ssa.Function
		key string
	}
	var kept []left
	helper := map[*ssa.Function]bool{} // functions that return with a mutex they locked: their callers answer for it
	for len(fs) > 0 {
		f := fs[0]
		fs = fs[1:]
		n := fname(f)
		if seen[n] || rounds[n] > 3 {
			continue
		}
		seen[n] = true
		rounds[n]++
		c.Funcs[n] = true
		g := NewGraph(c.P, f, nil)
		q := c.q(n, g)
		keys := map[string]bool{}
		q.visits(func(x X) bool {
			_, op := x.mutexOp()
			return op != "" && (x.n.C == g.Root || helper[x.n.C.Fn])
		}, func(x X) {
			k, _ := x.mutexOp()
			keys[k] = true
		})
		var ks []string
		for k := range keys {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			end := map[int]bool{}
			q.report(q.walk(unlocked, func(s int, x X) (int, bool, string) {
				if kk, op := x.mutexOp(); kk == k {
					switch op {
					case "L":
						if s != unlocked {
							return s, true, "locked again while it is held"
						}
						return wlocked, false, ""
					case "R":
						if s == wlocked {
							return s, true, "locked again while it is held"
						}
						return rlocked, false, ""
					case "U":
						if s == unlocked {
							handed[lastPart(k)] = true
						}
						return unlocked, false, ""
					}
				}
				if exit(x) {
					end[s] = true
				}
				return s, false, ""
			}), "deadlock")
			if !end[unlocked] && (end[wlocked] || end[rlocked]) {
				var by []*ssa.Function
				if f.Object() != nil && !f.Object().Exported() {
					for _, cs := range c.P.callers[f] {
						_, plain := cs.(*ssa.Call)
						if !plain || pkgOf(cs.Parent()) != pkgOf(f) {
							by = nil
							break
						}
						by = append(by, cs.Parent())
					}
				}
				if len(by) == 0 {
					kept = append(kept, left{f, k})
					continue
				}
				helper[f] = true
				for _, b := range by {
					for b.Parent() != nil {
						b = b.Parent()
					}
					if b != f {
						delete(seen, fname(b))
						fs = append(fs, b)
					}
				}
			}
			if end[unlocked] && (end[wlocked] || end[rlocked]) {
				q.report(q.walk(unlocked, func(s int, x X) (int, bool, string) {
					if kk, op := x.mutexOp(); kk == k {
						s = map[string]int{"L": wlocked, "R": rlocked}[op]
					}
					if exit(x) && s != unlocked {
						return s, true, "returns without unlocking " + k
					}
					return s, false, ""
				}), "the next call waits forever")
			}
		}
	}
	for _, l := range kept {
		if !handed[lastPart(l.key)] {
			c.fail(fname(l.f), l.f.Pos(), "returns with %s locked and nothing unlocks it: the next call waits forever", l.key)
		}
	}
}

func init() {
	rule("lock.batching", "C02 C04 C20", "mutexes of the batching code are released on every path and never locked twice",
		func(c *Check) { c.lockBalance("batching") })
	rule("lock.dkv", "C03 C07 C08 C09 C18", "mutexes of the database are released on every path and never locked twice",
		func(c *Check) {
			c.lockBalance("dkv", "dkv/bg", "dkv/memtable", "dkv/recovery", "dkv/sst", "dkv/storage", "dkv/wal", "util/ds")
		})
	rule("lock.snapshots", "C12 C13", "mutexes of the snapshot store are released on every path and never locked twice",
		func(c *Check) { c.lockBalance("storage/snapshots") })
	rule("lock.workers", "C02 C04 C15", "mutexes of the workers are released on every path and never locked twice",
		func(c *Check) { c.lockBalance("workers/operator", "workers/sourcerunner") })
	rule("lock.kinesis", "C16", "mutexes of the Kinesis source are released on every path and never locked twice",
		func(c *Check) { c.lockBalance("connectors/kinesis") })
}
