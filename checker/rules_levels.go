package main

import (
	"fmt"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// Level lists, compaction and the lifetime of table files.

const (
	setT    = "(*util/ds.Set)"
	compT   = "(*dkv/sst.Compactor)"
	lvlLvls = "dkv/sst.LevelList.levels"
)

var isLevels = fieldIs(lvlLvls)

// rangeAsg: the order of a table's first and last key relative to a key or prefix, and whether they have the prefix.
func rangeAsg(s, e, hs, he int64) Asg {
	start, end := fieldIs(sstF("Table.startKey")), fieldIs(sstF("Table.endKey"))
	other := func(t *Term) bool { return !start(t) && !end(t) }
	return both(order(start, other, s), order(end, other, e), func(t *Term) (int64, bool) {
		if t.isCall("bytes.HasPrefix") {
			switch {
			case start(t.A[0]) && other(t.A[1]):
				return hs, true
			case end(t.A[0]) && other(t.A[1]):
				return he, true
			}
		}
		return 0, false
	})
}

// levelOf evaluates the index of the level a term's tables belong to, with n levels.
func levelOf(t *Term, n int64, more Asg) (int64, bool) {
	asg := both(more, lenAsg(isLevels, n))
	lvl := t.Find(func(u *Term) bool { return u.Op == "index" && isLevels(unslice(u.A[0])) })
	if lvl == nil {
		return 0, false
	}
	return elemIndex(lvl, asg)
}

// levelTables matches a collection of a level's tables.
func levelTables(t *Term) bool {
	return t.isCall(setT+".All", setT+".Slice") && t.A[0].isField("tables")
}

func init() {
	tf := func(f string) string { return sstF("Table." + f) }

	rule("level.range", "C03 C06 C07 C08 C17 C18",
		"a table whose key range can hold a key (or a key with a prefix) is never ruled out, and range comparisons order tables by key",
		func(c *Check) {
			key := []struct {
				name string
				cmp  bool
			}{{"RangeContainsKey", false}, {"RangeKeyCompare", true}}
			for _, k := range key {
				g := c.full(tabT + "." + k.name)
				for s := int64(-1); s <= 1; s++ {
					for e := s; e <= 1; e++ {
						asg := rangeAsg(s, e, 0, 0)
						want := int64(0)
						if s > 0 {
							want = 1
						} else if e < 0 {
							want = -1
						}
						c.q(fmt.Sprintf("%s start %d end %d", k.name, s, e), g).when(asg).all(exit, func(x X) bool {
							v, ok := x.val(x.result(0), asg)
							if !ok {
								return true
							}
							if k.cmp {
								return sign(v) == want
							}
							return want != 0 || v == 1
						}, "the position of the key relative to the table's range is wrong")
					}
				}
			}
			for _, k := range []struct {
				name string
				cmp  bool
			}{{"RangeContainsPrefix", false}, {"RangePrefixCompare", true}} {
				g := c.full(tabT + "." + k.name)
				for _, cs := range [][4]int64{{-1, -1, 0, 0}, {-1, 0, 0, 1}, {-1, 1, 0, 0}, {-1, 1, 0, 1}, {0, 0, 1, 1}, {0, 1, 1, 0}, {0, 1, 1, 1}, {1, 1, 0, 0}, {1, 1, 1, 0}, {1, 1, 1, 1}} {
					s, e, hs, he := cs[0], cs[1], cs[2], cs[3]
					want := int64(0)
					if s > 0 && hs == 0 {
						want = 1
					} else if s <= 0 && e < 0 {
						want = -1
					}
					asg := rangeAsg(s, e, hs, he)
					c.q(fmt.Sprintf("%s start %d end %d prefixed %d %d", k.name, s, e, hs, he), g).when(asg).all(exit, func(x X) bool {
						v, ok := x.val(x.result(0), asg)
						if !ok {
							return true
						}
						if k.cmp {
							return sign(v) == want
						}
						return want != 0 || v == 1
					}, "the position of the prefix relative to the table's range is wrong")
				}
			}
		})

	rule("level.lookup", "C03 C06 C07 C08 C17 C18",
		"the tables consulted for a key or prefix are every level-0 table whose range can hold it and, on every deeper level, the table found for the key, or all consecutive tables found for the prefix",
		func(c *Check) {
			for _, k := range []struct {
				name   string
				prefix bool
			}{{"AllTablesForKey", false}, {"AllTablesForPrefix", true}} {
				b := c.seqBody(llT + "." + k.name)
				inRange := rangeAsg(-1, 1, 0, 0)
				search := call("slices.BinarySearchFunc", "util/sliceu.SearchUnique", "slices.BinarySearch")
				found := func(ok, at int64) Asg {
					return both(inRange, yieldOK, lenAsg(isLevels, 4), lenAsg(levelTables, 4), func(t *Term) (int64, bool) {
						if extractOf(t, "1", "slices.BinarySearchFunc", "util/sliceu.SearchUnique") {
							return ok, true
						}
						if extractOf(t, "0", "slices.BinarySearchFunc", "util/sliceu.SearchUnique") {
							return at, true
						}
						return 0, false
					})
				}
				for _, f := range []int64{0, 1} {
					asg := found(f, 1)
					q := c.q(fmt.Sprintf("%s/found %d", k.name, f), b).when(asg)
					// levels visited
					seen := map[int64]bool{}
					unknown := false
					q.visits(func(x X) bool {
						ia, ok := x.n.I.(*ssa.IndexAddr)
						return ok && isLevels(unslice(x.t(V{x.n.C, ia.X})))
					}, func(x X) {
						ia := x.n.I.(*ssa.IndexAddr)
						if set, ok := q.indexSet(x.n, ia.Index, isLevels, 4); ok {
							for i := range set {
								seen[i] = true
							}
							return
						}
						if i, ok := x.val(V{x.n.C, ia.Index}, asg); ok {
							seen[i] = true
							return
						}
						unknown = true
					})
					q.visits(call("slices.Values", "slices.All", "slices.Backward"), func(x X) {
						t := x.argT(0)
						if !isLevels(unslice(t)) {
							return
						}
						lo, hi := int64(0), int64(4)
						if t.Op == "slice" {
							for i, at := range []*int64{&lo, &hi} {
								if b := t.A[1+i]; b.String() != "" {
									v, ok := evalTerm(b, asg)
									if !ok {
										unknown = true
										return
									}
									*at = v
								}
							}
						}
						for ; lo < hi; lo++ {
							seen[lo] = true
						}
					})
					if unknown || len(seen) == 0 {
						c.soft(q.name, "the levels visited aren't understood")
					} else {
						c.expect(seen[0] && seen[1] && seen[2] && seen[3], q.name, b.Root.Fn.Pos(), "of 4 levels only %v are searched", keysOf(seen))
					}
				}
				// level 0
				l0 := func(t *Term) bool {
					if !levelTables(t) {
						return false
					}
					i, ok := levelOf(t, 4, nil)
					return ok && i == 0
				}
				asg := found(0, 0)
				q := c.q(k.name+"/level 0", b).when(asg)
				shown := or(isYield, collects(func(t *Term) bool { return t.Op == "index" && l0(unslice(t.A[0])) }))
				q.each(l0, shown, "a level-0 table whose range can hold the key isn't consulted: level-0 tables overlap")
				for _, r := range [][4]int64{{0, 0, 1, 1}, {0, 1, 1, 0}, {-1, 0, 0, 1}, {1, 1, 1, 1}} {
					if r[0] == 1 && !k.prefix {
						continue
					}
					c.q(k.name+"/level 0 at the edge", b).when(both(rangeAsg(r[0], r[1], r[2], r[3]), asg)).each(l0, shown, "a level-0 table whose range can hold the key isn't consulted")
				}
				// deeper levels
				if len(q.sites(search)) == 0 {
					c.soft(k.name+"/deeper levels", "no binary search")
					continue
				}
				w := c.q(k.name+"/deeper levels", b)
				w.all(search, func(x X) bool { return x.argT(1).Op != "param" || hasSuffix(x.argT(1).String(), "p1") }, "another key is searched")
				w.all(search, func(x X) bool { return !x.argT(0).isCall(setT+".Slice") || x.argT(0).A[0].isField("tables") }, "something other than the level's tables is searched")
				if k.prefix {
					w.never(call("util/sliceu.SearchUnique"), "several tables of a level can hold the prefix, but any of them is taken as the first")
				}
				if h := w.fnArg(search, 2); h != nil {
					for _, cs := range [][4]int64{{-1, -1, 0, 0}, {-1, 0, 0, 1}, {-1, 1, 0, 0}, {0, 0, 1, 1}, {0, 1, 1, 0}, {1, 1, 0, 0}, {1, 1, 1, 1}} {
						want := int64(0)
						if cs[0] > 0 && (cs[2] == 0 || !k.prefix) {
							want = 1
						} else if cs[0] <= 0 && cs[1] < 0 {
							want = -1
						}
						asg := rangeAsg(cs[0], cs[1], cs[2], cs[3])
						c.q(fmt.Sprintf("%s/comparison %v", k.name, cs), h).when(asg).all(exit, func(x X) bool {
							v, ok := x.val(x.result(0), asg)
							return !ok || sign(v) == want
						}, "the level's tables aren't searched by their position relative to the key")
					}
				}
				hit := c.q(k.name+"/table found", b).when(found(1, 2))
				hit.concretely().follow(search, isYield, or(exit, search), "the table found on a level isn't consulted")
				hit.allAfter(search, isYield, func(x X) bool {
					t := x.yieldArg(0)
					if t.Op != "index" || !levelTables(unslice(t.A[0])) {
						return true
					}
					i, ok := elemIndex(t, both(found(1, 2), q.asg))
					return !ok || i == 2
				}, "another table than the one found is consulted")
				if k.prefix {
					a := found(1, 1)
					v := c.q(k.name+"/run of tables", b).when(a)
					done := map[N]bool{}
					v.visits(func(x X) bool {
						ia, ok := x.n.I.(*ssa.IndexAddr)
						return ok && levelTables(unslice(x.t(V{x.n.C, ia.X}))) && !done[x.n]
					}, func(x X) {
						done[x.n] = true
						set, ok := v.indexSet(x.n, x.n.I.(*ssa.IndexAddr).Index, levelTables, 4)
						if ok {
							c.expect(set[1] && set[2] && set[3], k.name+"/run of tables", x.pos(), "of the tables 1 to 3 found for the prefix only those at %v are consulted", keysOf(set))
						}
					})
				}
			}
		})

	rule("level.get", "C03 C06 C07 C08 C17 C18",
		"a lookup consults every candidate table, keeps the entry with the highest sequence number, skips tables without the key and reports other errors; a scan merges every candidate table and drops deleted entries after the merge",
		func(c *Check) {
			g := c.full(llT + ".Get")
			g.Inline = noInline(tabT+".Get", noInline(llT+".AllTablesForKey", g.Inline))
			get := call(tabT + ".Get")
			q := c.q("LevelList.Get", g)
			cand := func(t *Term) bool { return t.isCall(llT + ".AllTablesForKey") }
			q.all(or(get, call(llT+".AllTablesForKey")), func(x X) bool { return hasSuffix(x.argT(1).String(), "p1") }, "another key is looked up")
			nf := map[string]int64{"dkv/kv.ErrNotFound": 1}
			sc := func(e, fresh, old int64) Asg {
				return both(errCase(tabT+".Get", 1, e, nf), func(t *Term) (int64, bool) {
					if t.Op == "extract" && t.S == "0" && t.A[0].isCall(tabT+".Get") {
						return int64(b2i(e == 0)), true
					}
					if !t.isCall(entK + "SeqNum") {
						return 0, false
					}
					if a := t.A[0]; !a.Stale && extractOf(a, "0", tabT+".Get") {
						return fresh, true
					}
					return old, true
				})
			}
			isRes := func(x X) bool {
				s, ok := x.n.I.(*ssa.Store)
				if !ok || x.n.R != nil {
					return false
				}
				if _, elem := s.Addr.(*ssa.IndexAddr); elem {
					return false // collected
				}
				if al, isCell := g.cellOf(V{x.n.C, s.Addr}); isCell && al.X.(*ssa.Alloc).Comment == "" {
					return false // the result on the way out
				}
				t := x.t(V{x.n.C, s.Val})
				return !t.Stale && extractOf(t, "0", tabT+".Get")
			}
			q.when(sc(1, 0, 0)).each(cand, get, "a candidate table isn't consulted")
			q.named("LevelList.Get/not found").when(sc(1, 0, 0)).all(exit, func(x X) bool { return x.t(x.result(1)).String() == "dkv/kv.ErrNotFound" }, "a key in no table isn't reported missing")
			bad := q.named("LevelList.Get/failed table").when(sc(2, 0, 0))
			bad.neverAfter(get, or(get, func(x X) bool {
				if !exit(x) {
					return false
				}
				a, _ := g.eval(x.e, x.result(1))
				return a.k == 'n' || x.t(x.result(1)).String() == "dkv/kv.ErrNotFound"
			}), "an error reading a table isn't reported")
			ok := q.when(sc(0, 9, 5))
			if len(ok.sites(isRes)) > 0 {
				ok.named("LevelList.Get/newer entry").follow(get, isRes, or(exit, get), "an entry with a higher sequence number doesn't replace the one found so far")
				first := false
				held := q.when(sc(0, 5, 9)).without(func(x X, a Atom) bool {
					return a.Op == token.EQL && isNilConst(a.Y.X) && x.t(a.X).Stale
				})
				q.named("LevelList.Get/older entry").report(held.walk(0, func(s int, x X) (int, bool, string) {
					if isRes(x) {
						if s == 1 {
							return s, true, "x"
						}
						first = true
						return 1, false, ""
					}
					return s, false, ""
				}), "an older entry replaces a newer one")
				_ = first
			} else if max := q.when(nil).sites(call("slices.MaxFunc")); len(max) > 0 {
				for _, x := range max {
					h := c.rootAt(g, x.arg(1))
					if h == nil {
						c.soft("LevelList.Get/newest", "how the newest entry is chosen isn't understood")
						continue
					}
					c.signTable("LevelList.Get/newest", h, attr(isParam("0"), "SeqNum", "seqNum"), attr(isParam("1"), "SeqNum", "seqNum"), "the entry chosen isn't the one with the highest sequence number")
				}
			} else {
				c.soft("LevelList.Get/newest", "how the newest entry is kept isn't understood")
			}
			// scan
			s := c.full(llT + ".ScanPrefix")
			s.Inline = noInline(tabT+".ScanPrefix", noInline(llT+".AllTablesForPrefix", s.Inline))
			scan := call(tabT + ".ScanPrefix")
			w := c.q("LevelList.ScanPrefix", s)
			w.all(or(scan, call(llT+".AllTablesForPrefix")), func(x X) bool { return hasSuffix(x.argT(1).String(), "p1") }, "another prefix is scanned")
			w.all(scan, func(x X) bool { return hasSuffix(x.argT(2).String(), "p2") }, "errors of the scan aren't reported to the caller")
			w.each(func(t *Term) bool {
				return t.isCall(llT+".AllTablesForPrefix") || t.isCall("slices.Collect") && t.A[0].isCall(llT+".AllTablesForPrefix")
			}, scan, "a candidate table isn't scanned")
			c.dropsDeletes(llT+".ScanPrefix", "(dkv/kv.Entry).IsDelete")
		})

	rule("level.change", "C03 C06 C07 C08 C09 C18",
		"applying a change set leaves the old level list untouched, adds every table to its level, removes every removed table from all levels and raises the latest sequence number to what the added tables contain",
		func(c *Check) {
			g := c.full(llT + ".NewWithChangeSet")
			q := c.q("LevelList.NewWithChangeSet", g)
			adds, rems := fieldIs("dkv/sst.ChangeSet.additions"), fieldIs("dkv/sst.ChangeSet.removals")
			put := or(call(setT+".Added"), call(setT+".Add"))
			q.each(adds, put, "an added table is lost")
			rm := or(call(setT+".Diff"), call(setT+".Without"))
			q.when(lenAsg(isLevels, 4)).coversLevels("removed tables stay on a level")
			if len(q.sites(rm)) == 0 {
				c.fail(q.name, g.Root.Fn.Pos(), "the removed tables stay")
			}
			q.all(rm, func(x X) bool { return x.argT(0).isField("tables") && x.within(x.argT(1), rems) }, "other tables than the removed ones are removed")
			own := func(x X, v V) bool {
				t := storageOf(x.t(v))
				return t != nil && isLevels(t) && t.A[0].String() == "p0" && !t.Stale
			}
			q.never(overwrites(func(t *Term) bool { return isLevels(t) && t.A[0].String() == "p0" && !t.Stale }), "the level list in use is changed: concurrent readers and checkpoints see the tables disappear")
			q.never(and(call(setT+".Add"), func(x X) bool { return x.argT(0).Find(func(t *Term) bool { return isLevels(t) }) != nil }), "a table set shared with the level list in use is changed")
			q.all(store(lvlLvls), func(x X) bool { return !own(x, x.stored()) }, "the new level list shares its levels with the old one")
			last := "dkv/sst.LevelList.LatestSeqNum"
			seqs := [][3]int64{{5, 9, 9}, {9, 5, 9}, {7, 7, 7}}
			if found, bad := q.carriesMax(fieldIs(tf("endSeqNum")), fieldIs(last), 0); found {
				seqs = nil
				c.expect(bad == "", q.name, g.Root.Fn.Pos(), "%s: the latest sequence number isn't the highest of the tables: the WAL is truncated wrongly", bad)
				q.when(truth(lenOf(adds), 1)).mustPass(and(store(last), func(x X) bool {
					t := x.t(x.stored())
					return t.Op == "phi" || t.Op == "set" || t.Find(fieldIs(tf("endSeqNum"))) != nil
				}), exit, "the highest sequence number of the tables isn't taken over: the WAL is truncated wrongly")
			}
			for _, cs := range seqs {
				asg := both(truth(lenOf(adds), 1), roles(role{func(t *Term) bool { return t.isFieldOf(last) }, cs[0]}, role{fieldIs(tf("endSeqNum")), cs[1]}))
				q.named("NewWithChangeSet/latest sequence number").when(asg).report(q.when(asg).walk(0, func(s int, x X) (int, bool, string) {
					if put(x) {
						s |= 1
					}
					if store(last)(x) && x.t(x.stored()).Find(fieldIs(tf("endSeqNum"))) != nil {
						v, ok := x.val(x.stored(), asg)
						if ok && v != cs[2] {
							return s, true, fmt.Sprintf("becomes %d", v)
						}
						s |= 2
					}
					if exit(x) && s == 1 && cs[0] < cs[1] {
						return s, true, "isn't raised"
					}
					return s, false, ""
				}), "the latest sequence number isn't the highest of the tables: the WAL is truncated wrongly")
			}
			q.named("NewWithChangeSet/inherited sequence number").all(store(last), func(x X) bool {
				t := x.t(x.stored())
				v, isC := evalTerm(t, nil)
				return t.Find(fieldIs(last)) != nil || !isC || v != 0
			}, "the latest sequence number starts over")
			// the level of an addition
			a := c.full(llT + ".AddTables")
			for _, cs := range [][2]int64{{-1, 3}, {0, 0}, {2, 2}, {3, 3}} {
				asg := both(lenAsg(isLevels, 4), truth(isParam("1"), cs[0]))
				c.q(fmt.Sprintf("AddTables/level %d", cs[0]), a).when(asg).all(func(x X) bool {
					_, _, is, _ := elemStore(x, asg)
					return is && isLevels(unslice(x.t(V{x.n.C, x.n.I.(*ssa.Store).Addr.(*ssa.IndexAddr).X})))
				}, func(x X) bool {
					d, _, _, ok := elemStore(x, asg)
					return !ok || d == cs[1]
				}, "the tables are added to another level")
			}
			q.all(and(put, func(x X) bool { return x.argT(0).isField("tables") }), func(x X) bool {
				lvl := x.argT(0).Find(func(u *Term) bool { return u.Op == "index" && isLevels(unslice(u.A[0])) })
				return lvl == nil || lvl.A[1].Find(func(u *Term) bool { return u.isField("LevelNum") }) != nil
			}, "a table is added to another level than its own")
			// all levels lose the removed tables
			r := c.full(llT + ".RemoveTables")
			rq := c.q("RemoveTables", r)
			seen := map[N]bool{}
			rq.visits(func(x X) bool {
				_, _, is, _ := elemStore(x, nil)
				return is && isLevels(unslice(x.t(V{x.n.C, x.n.I.(*ssa.Store).Addr.(*ssa.IndexAddr).X}))) && !seen[x.n]
			}, func(x X) {
				seen[x.n] = true
				ia := x.n.I.(*ssa.Store).Addr.(*ssa.IndexAddr)
				// the index access itself is the loop's site
				if set, ok := rq.indexSet(N{C: x.n.C, I: ia}, ia.Index, isLevels, 4); ok {
					c.expect(len(set) == 0 || set[0] && set[1] && set[2] && set[3], "RemoveTables", x.pos(), "of 4 levels only those at %v lose the removed tables", keysOf(set))
				}
			})
			for _, m := range []string{"tablesAdded", "tablesRemoved"} {
				if c.P.lookup("(dkv/sst.Level)."+m) == nil {
					continue
				}
				h := c.full("(dkv/sst.Level)." + m)
				v := c.q("Level."+m, h)
				v.visits(store("dkv/sst.Level.Num"), func(x X) {
					c.expect(x.t(x.stored()).isField("Num"), v.name, x.pos(), "the level gets another number")
				})
				v.all(store("dkv/sst.Level.tables"), func(x X) bool {
					t := x.t(x.stored())
					if m == "tablesAdded" {
						return !t.isCall(setT+".Diff", setT+".Without")
					}
					return !t.isCall(setT + ".Added")
				}, "the level's tables aren't the changed ones")
				v.all(or(put, rm), func(x X) bool { return x.argT(0).isField("tables") || m == "tablesRemoved" && call(setT+".Add")(x) }, "other tables are changed")
			}
			// change sets
			for f, m := range map[string]string{"dkv/sst.ChangeSet.additions": "AddTables", "dkv/sst.ChangeSet.removals": "RemoveTables"} {
				h := c.full("(*dkv/sst.ChangeSet)." + m)
				v := c.q("ChangeSet."+m, h)
				v.all(store(f), func(x X) bool {
					t := x.t(x.stored())
					return t.isCall("builtin.append") && t.A[0].isFieldOf(f) || t.isCall("slices.Concat", "slices.Grow")
				}, "earlier changes are lost")
				if m == "AddTables" {
					v.each(isParam("2"), or(store(f), setsElem(func(t *Term) bool { return true }), and(store("dkv/sst.TableAddition.Table"), func(x X) bool {
						fa, _ := x.n.I.(*ssa.Store).Addr.(*ssa.FieldAddr)
						if fa == nil {
							return false
						}
						ia, ok := fa.X.(*ssa.IndexAddr)
						return ok && !isVarargs(ia.X)
					})), "a table isn't recorded")
					v.when(truth(lenOf(isParam("2")), 1)).mustPass(store(f), exit, "the tables aren't recorded")
					v.visits(store("dkv/sst.TableAddition.LevelNum"), func(x X) {
						c.expect(x.t(x.stored()).String() == "p1", "ChangeSet.AddTables", x.pos(), "the table is recorded for another level")
					})
				} else {
					v.when(truth(lenOf(isParam("1")), 1)).mustPass(store(f), exit, "the removals aren't recorded")
					if len(v.sites(elemLoad(isParam("1")))) > 0 {
						v.each(isParam("1"), store(f), "a removal isn't recorded")
					}
					v.never(and(store(f), func(x X) bool {
						t := x.t(x.stored())
						if len(t.A) < 2 || t.A[1].Op != "slice" {
							return false
						}
						lo, hi, ok := window(t.A[1], isParam("1"), 4)
						return ok && (lo != 0 || hi != 4)
					}), "some of the removals aren't recorded")
				}
			}
		})

	rule("level.document", "C02 C03 C06 C07 C08 C09 C15 C17 C18",
		"a level list restored from its document has the same tables on the same levels with the same key and sequence ranges, sizes and files",
		func(c *Check) {
			// table documents
			d := c.full(tabT + ".Document")
			from := map[string]string{} // document field -> table field
			q := c.q("Table.Document", d)
			q.walk(0, func(s int, x X) (int, bool, string) {
				st, ok := x.n.I.(*ssa.Store)
				if !ok || x.n.R != nil {
					return s, false, ""
				}
				f := x.containerField(st.Addr)
				if !hasPrefixAny(f, sstF("TableDocument.")) {
					return s, false, ""
				}
				t := stripConv(x.t(x.stored()))
				v := ""
				switch {
				case t.isCall(fileW + "URI"):
					v = "file"
				case t.Op == "field" && t.A[0].String() == "p0":
					v = t.S
				case t.Op == "call" && len(t.A) > 0:
					v = t.S
				}
				from[lastPart(f)] = v
				return s, false, ""
			})
			n := c.full("dkv/sst.NewTableFromDocument")
			w := c.q("NewTableFromDocument", n)
			for _, f := range []string{"size", "entriesSize", "startKey", "endKey", "startSeqNum", "endSeqNum", "file"} {
				ev := store(tf(f))
				if len(w.sites(ev)) == 0 {
					c.fail("NewTableFromDocument", n.Root.Fn.Pos(), "a restored table has no %s", f)
					continue
				}
				w.all(ev, func(x X) bool {
					t := stripConv(x.t(x.stored()))
					if f == "file" {
						if !t.isCall("(dkv/storage.FileSystem).Open") || len(t.A) < 2 {
							return !t.isCall("(dkv/storage.FileSystem).New")
						}
						t = t.A[1]
					}
					if t.Op != "field" {
						return true
					}
					src, ok := from[t.S]
					return !ok || src == "" || src == f
				}, "a restored table's "+f+" isn't the one in its document")
			}
			c.expect(from["URI"] == "" || from["URI"] == "file", "Table.Document", d.Root.Fn.Pos(), "the document doesn't refer to the table's file")
			// level lists
			l := c.full(llT + ".Document")
			l.Inline = noInline(tabT+".Document", l.Inline)
			lq := c.q("LevelList.Document", l)
			doc := call(tabT + ".Document")
			lq.each(levelTables, doc, "a table is missing from the document")
			lq.when(lenAsg(isLevels, 4)).coversLevels("a level is missing from the document")
			lq.visits(func(x X) bool {
				s, ok := x.n.I.(*ssa.Store)
				return ok && x.n.R == nil && isAppendOf(x.t(V{x.n.C, s.Val}))
			}, func(x X) {
				t := x.t(V{x.n.C, x.n.I.(*ssa.Store).Val})
				ia, ok := x.n.I.(*ssa.Store).Addr.(*ssa.IndexAddr)
				if !ok || t.A[0].Op != "index" {
					return
				}
				c.expect(x.t(V{x.n.C, ia.Index}).String() == t.A[0].A[1].String(), "LevelList.Document", x.pos(), "a table is recorded on another level")
			})
			r := c.full("dkv/sst.NewLevelListFromDocument")
			r.Inline = noInline("dkv/sst.NewTableFromDocument", r.Inline)
			rq := c.q("NewLevelListFromDocument", r)
			mk := call("dkv/sst.NewTableFromDocument")
			rq.all(mk, func(x X) bool {
				return x.argT(0).String() == "p0" && x.argT(1).String() == "p1" && x.argT(2).Find(isParam("2")) != nil
			}, "a table isn't restored from the document's file system, ownership and entry")
			rq.visits(func(x X) bool {
				s, ok := x.n.I.(*ssa.Store)
				return ok && x.n.R == nil && x.t(V{x.n.C, s.Val}).isCall("dkv/sst.NewTableFromDocument")
			}, func(x X) {
				ia, ok := x.n.I.(*ssa.Store).Addr.(*ssa.IndexAddr)
				if !ok {
					return
				}
				// levels[i][j] = new(doc[i][j])
				src := x.t(V{x.n.C, x.n.I.(*ssa.Store).Val}).A[2]
				dst := x.t(V{x.n.C, ia})
				if src.Op == "index" && src.A[0].Op == "index" && dst.Op == "index" && dst.A[0].Op == "index" {
					c.expect(src.A[1].String() == dst.A[1].String() && src.A[0].A[1].String() == dst.A[0].A[1].String(), "NewLevelListFromDocument", x.pos(), "a table is restored on another level or position")
				}
			})
			rq.named("NewLevelListFromDocument/levels").coversAll(isParam("2"), "a level isn't restored")
			t := c.full("dkv/sst.NewLevelListOfTables")
			tq := c.q("NewLevelListOfTables", t)
			add := call(setT + ".Add")
			tablesOf := func(u *Term) bool { return u.Op == "index" && u.A[0].String() == "p0" }
			whole := func(x X) bool {
				return call("util/ds.SetOf")(x) && tablesOf(unslice(x.argT(0))) || add(x) && tablesOf(unslice(x.argT(1)))
			}
			if len(tq.sites(whole)) > 0 {
				tq.each(isParam("0"), whole, "a level's tables are missing")
			} else {
				tq.each(tablesOf, add, "a table is missing from its level")
			}
			tq.coversAll(isParam("0"), "a level is left out")
			last := "dkv/sst.LevelList.LatestSeqNum"
			derived := false
			if tq.visits(store(last), func(x X) { derived = derived || x.t(x.stored()).Op != "const" }) > 0 {
				c.expect(derived, "NewLevelListOfTables", t.Root.Fn.Pos(), "the latest sequence number isn't derived from the tables")
			}
			for _, cs := range [][3]int64{{5, 9, 9}, {9, 5, 9}} {
				es := fieldIs(tf("endSeqNum"))
				good := true
				tq.visits(func(x X) bool {
					v, ok := x.n.I.(*ssa.Call)
					return ok && x.n.R == nil && callName(&v.Call) == "builtin.max"
				}, func(x X) {
					v := V{x.n.C, x.n.I.(*ssa.Call)}
					u := x.t(v)
					acc := false
					for _, s := range u.A {
						acc = acc || s.Op == "phi" || s.Op == "set" || s.Op == "alloc"
					}
					if u.Find(es) == nil || !acc {
						return
					}
					w, ok := evalTerm(u, func(s *Term) (int64, bool) {
						if es(s) {
							return cs[1], true
						}
						if s.Op == "phi" || s.Op == "set" || s.Op == "alloc" {
							return cs[0], true
						}
						return 0, false
					})
					good = good && (!ok || w == cs[2])
				})
				c.expect(good, "NewLevelListOfTables", t.Root.Fn.Pos(), "the latest sequence number isn't the highest of the tables")
			}
			nums, isConstNum := map[string]bool{}, false
			if tq.visits(store("dkv/sst.Level.Num"), func(x X) { nums[x.t(x.stored()).String()] = true; isConstNum = x.t(x.stored()).Op == "const" }) > 0 {
				c.expect(len(nums) > 1 || !isConstNum, "NewLevelListOfTables", t.Root.Fn.Pos(), "every level gets the same number")
			}
		})

	rule("level.files", "C02 C08 C09 C15",
		"a table's file is deleted by garbage collection only while its writer still owns it (written tables) or when its owner says no other instance uses it (restored tables); new files never reuse a restored table's name",
		func(c *Check) {
			ac := call("runtime.AddCleanup")
			g := c.full("dkv/sst.newTable")
			q := c.q("newTable", g)
			if h := q.fnArg(ac, 1); h != nil {
				del := callOf(func(t *Term) bool { return true })
				w := c.q("newTable/cleanup", h)
				w.when(callVal("(*sync/atomic.Bool).Load", 1)).never(del, "garbage collection deletes a table's file although its database was closed: a later instance recovers from it")
				w.all(call("(*sync/atomic.Bool).Load"), func(x X) bool { return hasSuffix(x.argT(0).String(), "p1") || x.argT(0).Op != "param" }, "another flag decides")
			} else if len(q.sites(ac)) > 0 {
				c.soft("newTable/cleanup", "not a function literal")
			}
			q.visits(ac, func(x X) {
				c.expect(!x.within(x.argT(2), func(t *Term) bool { return t.isCall("dkv/storage.File.Delete") }), "newTable", x.pos(), "")
			})
			wr := c.full("(*dkv/sst.TableWriter).Write")
			wq := c.q("TableWriter.Write", wr)
			wq.all(call("dkv/sst.newTable"), func(x X) bool { return x.argT(1).isFieldOf(sstF("TableWriter.keepFiles")) }, "a written table's file doesn't follow the writer's flag")
			kf := c.full("(*dkv/sst.TableWriter).KeepFiles")
			c.q("TableWriter.KeepFiles", kf).mustPass(and(call("(*sync/atomic.Bool).Store"), func(x X) bool {
				v, ok := x.val(x.arg(1), nil)
				return x.argT(0).isFieldOf(sstF("TableWriter.keepFiles")) && (!ok || v == 1)
			}), exit, "closing the database doesn't stop the deletion of its files")

			d := c.full("dkv/sst.NewTableFromDocument")
			dq := c.q("NewTableFromDocument", d)
			own := "(dkv/kv.DataOwnership).ExclusivelyOwnsTable"
			if h := dq.fnArg(ac, 1); h != nil {
				w := c.q("NewTableFromDocument/cleanup", h)
				del := callOf(func(t *Term) bool { return true })
				ask := call(own)
				for _, cs := range [][3]int64{{0, 0, 0}, {1, 1, 0}, {0, 1, 0}} {
					asg := both(resVal(own, 0, cs[0]), resVal(own, 1, cs[1]))
					w.when(asg).never(del, "a file another instance may use is deleted")
				}
				w.precede(ask, del, "a restored table's file is deleted without asking who uses it")
				// the question is about this table
				want := map[int]string{1: "URI", 2: "StartKey", 3: "EndKey"}
				w.visits(ask, func(x X) {
					for i, f := range want {
						t := x.argT(i)
						if t.Op != "field" {
							continue
						}
						// the parameter struct's field, as stored where the cleanup is registered
						dq.visits(func(y X) bool {
							s, ok := y.n.I.(*ssa.Store)
							if !ok || y.n.R != nil {
								return false
							}
							fa, ok := s.Addr.(*ssa.FieldAddr)
							return ok && lastPart(fieldOf(fa)) == t.S && !hasPrefixAny(fieldOf(fa), sstF("Table."))
						}, func(y X) {
							u := y.t(y.stored())
							c.expect(u.isField(f) || u.isField(lowerFirst(f)) || f == "URI" && u.isCall(fileW+"URI") || u.Op != "field", "NewTableFromDocument/cleanup", y.pos(), "ownership of something other than this table (its %s) is asked for", f)
						})
					}
				})
			} else if len(dq.sites(ac)) > 0 {
				c.soft("NewTableFromDocument/cleanup", "not a function literal")
			}
			// ids
			s := c.full("(*dkv/sst.TableWriter).SkipExisting")
			sq := c.q("TableWriter.SkipExisting", s)
			parse := "strconv.ParseInt"
			set := call("(*sync/atomic.Int64).Store")
			sq.each(levelTables, call(parse, "strconv.Atoi"), "a restored table's id isn't considered")
			sq.when(lenAsg(isLevels, 4)).coversLevels("a level's tables aren't considered")
			ids := [][2]int64{{7, 7}, {5, 7}, {9, 7}, {8, 7}}
			idOf := func(t *Term) bool { return resultOf(t, 0, parse, "strconv.Atoi") }
			if found, bad := sq.carriesMax(idOf, func(t *Term) bool { return t.hasCall("(*sync/atomic.Int64).Load") }, 1); found {
				ids = nil
				c.expect(bad == "", sq.name, s.Root.Fn.Pos(), "%s: the file of an existing table gets overwritten", bad)
				sq.mustPass(and(set, func(x X) bool {
					t := x.argT(1)
					return t.Op == "phi" || t.Op == "set"
				}), exit, "the next id doesn't skip the existing tables: their files get overwritten")
			}
			for _, cs := range ids {
				asg := both(resVal(parse, 0, cs[1]), resVal(parse, 1, 0), callVal("(*sync/atomic.Int64).Load", cs[0]), resVal("strconv.Atoi", 0, cs[1]), resVal("strconv.Atoi", 1, 0))
				w := sq.named(fmt.Sprintf("TableWriter.SkipExisting/next %d, existing %d", cs[0], cs[1])).when(asg)
				if cs[0] <= cs[1] {
					w.follow(call(parse, "strconv.Atoi"), set, or(exit, call(parse)), "the next id doesn't skip an existing table: its file gets overwritten")
				}
				w.report(w.walk(0, func(st int, x X) (int, bool, string) {
					if call(parse, "strconv.Atoi")(x) {
						return 1, false, ""
					}
					if set(x) {
						v, ok := x.val(x.arg(1), asg)
						if ok && (v < cs[0] || st == 1 && v <= cs[1]) {
							return st, true, fmt.Sprintf("the next id becomes %d", v)
						}
					}
					return st, false, ""
				}), "the file of an existing table gets overwritten")
			}
			foreign := both(resVal(parse, 1, 1), resVal("strconv.Atoi", 1, 1))
			sq.named("TableWriter.SkipExisting/foreign names").when(foreign).never(and(set, func(x X) bool { return x.argT(1).Find(idOf) != nil }), "a file name without an id changes the next id")
			nw := c.full("dkv/sst.NewTableWriter")
			c.q("NewTableWriter", nw).visits(set, func(x X) {
				c.expect(x.argT(1).String() == "p1", "NewTableWriter", x.pos(), "the first id isn't the requested one")
			})
		})

	rule("compact", "C03 C06 C07 C08 C18",
		"a compaction merges every table it removes, includes all tables of the level it writes to, writes the merged run there in full, and reports failed reads and writes instead of a change set",
		func(c *Check) {
			wr := "(*dkv/sst.TableWriter).WriteRun"
			scan, run := call(tabT+".ScanPrefix"), call(wr)
			addT, remT := call("(*dkv/sst.ChangeSet).AddTables"), call("(*dkv/sst.ChangeSet).RemoveTables")
			for _, m := range []string{"majorCompaction", "minorCompaction"} {
				g := c.full(compT + "." + m)
				for _, n := range []string{wr, tabT + ".ScanPrefix", "(*dkv/sst.ChangeSet).AddTables", "(*dkv/sst.ChangeSet).RemoveTables"} {
					g.Inline = noInline(n, g.Inline)
				}
				levels := []int64{0, 1, 2, 3}
				if m == "majorCompaction" {
					levels = []int64{0}
				}
				for _, start := range levels {
					base := both(lenAsg(isLevels, 4), resVal(wr, 1, 0), func(t *Term) (int64, bool) {
						if t.isFieldOf("dkv/sst.Compactor.minorCompactionLevel") && !t.Stale {
							return start, true
						}
						if t.isField("ByteSize") {
							return 100, true
						}
						if t.isField("SmallestLevelSize") {
							return 1, true
						}
						if t.isField("Num") {
							if i, ok := levelOf(t, 4, roles(role{fieldIs("dkv/sst.Compactor.minorCompactionLevel"), start})); ok {
								return i, true
							}
						}
						return 0, false
					})
					q := c.q(fmt.Sprintf("%s from level %d", m, start), g).when(base)
					if start == 3 {
						q.never(or(run, addT), "the last level is merged into a level that doesn't exist")
						continue
					}
					// which levels feed the merge as a whole
					full := map[int64]bool{}
					unknown := false
					var target []int64
					q.visits(func(x X) bool {
						return call(setT+".All", setT+".Slice", "(dkv/sst.Level).AllTables")(x)
					}, func(x X) {
						if lv, ok := levelOf(x.argT(0), 4, base); ok {
							full[lv] = true
						} else if m == "minorCompaction" {
							unknown = true
						}
					})
					q.visits(addT, func(x X) {
						v, ok := x.val(x.arg(1), base)
						if !ok {
							unknown = true
							return
						}
						if v < 0 {
							v += 4
						}
						target = append(target, v)
					})
					if unknown || len(target) == 0 {
						c.soft(q.name, "levels aren't understood")
					} else {
						for _, t := range target {
							c.expect(full[t], q.name, g.Root.Fn.Pos(), "the run is written to level %d without merging all of that level's tables: its tables overlap and older entries win", t)
							if m == "minorCompaction" {
								c.expect(full[start] && t == start+1, q.name, g.Root.Fn.Pos(), "level %d is merged into level %d", start, t)
							} else {
								c.expect(t == 3, q.name, g.Root.Fn.Pos(), "a major compaction writes to level %d", t)
							}
						}
					}
				}
				q := c.q(m, g)
				q.all(scan, func(x X) bool { v, ok := x.val(x.arg(1), nil); return !ok || v == 0 }, "only part of a table is merged")
				q.all(run, func(x X) bool {
					return x.argT(1).isCall("dkv/kv.MergeEntries") || x.argT(1).Op == "set" || x.argT(1).Op == "param"
				}, "something other than the merged entries is written")
				cells := map[ssa.Value]bool{}
				q.visits(scan, func(x X) {
					for _, s := range g.Sources(x.arg(2)) {
						cells[s.X] = true
					}
				})
				scanned := func(v int64) Asg {
					return func(t *Term) (int64, bool) {
						if cells[t.V.X] {
							return v, true
						}
						u, ok := t.V.X.(*ssa.UnOp)
						return v, ok && cells[u.X]
					}
				}
				okRun := q.when(both(resVal(wr, 1, 0), scanned(0)))
				okRun.precede(run, addT, "")
				q.all(addT, func(x X) bool { return x.within(x.argT(2), func(t *Term) bool { return resultOf(t, 0, wr) }) }, "something other than the written tables is added")
				// what is merged is what is removed
				var merged, removed []V
				q.visits(scan, func(x X) { merged = append(merged, x.arg(0)) })
				rooted := func(x X, t *Term) string { return unslice(t).String() }
				var colls []string
				q.visits(scan, func(x X) {
					t := x.argT(0)
					if t.Op == "index" {
						colls = append(colls, rooted(x, t.A[0]))
					}
				})
				q.visits(remT, func(x X) {
					removed = append(removed, x.arg(1))
					u := rooted(x, x.argT(1))
					if len(colls) > 0 {
						found := u == "nil" // nothing to merge
						for _, k := range colls {
							found = found || k == u
						}
						c.expect(found, m, x.pos(), "the removed tables aren't the merged ones")
					}
				})
				okRun.follow(run, remT, or(okExit, run), "the merged tables stay: entries are duplicated and never reclaimed")
				okRun.follow(run, addT, or(okExit, run), "the merged tables are removed but the new ones aren't added")
				for _, e := range q.sites(scan) {
					t := e.argT(0)
					if t.Op == "index" {
						want := unslice(t.A[0]).String()
						q.named(m+"/merge").coversAll(func(u *Term) bool { return unslice(u).String() == want }, "a table that gets removed isn't merged")
						break
					}
				}
				// failures
				noCS := func(x X) bool {
					if !exit(x) {
						return false
					}
					a, _ := g.eval(x.e, x.result(1))
					b, _ := g.eval(x.e, x.result(0))
					return a.k == 'n' || b.k == 'x'
				}
				q.named(m+"/failed write").when(resVal(wr, 1, 1)).neverAfter(run, noCS, "a failed write of the merged run is reported as a compaction: the input tables get dropped")
				if len(cells) > 0 {
					// the entries are read while the run is written
					okRun.named(m+"/read errors").follow(run, func(x X) bool {
						u, ok := x.n.I.(*ssa.UnOp)
						if !ok || u.Op != token.MUL || x.n.R != nil {
							return false
						}
						for _, s := range g.Sources(V{x.n.C, u.X}) {
							if cells[s.X] {
								return true
							}
						}
						return false
					}, or(okExit, run), "whether the input tables could be read isn't asked once they have been: lost entries go unnoticed and their tables get dropped")
					q.named(m+"/failed read").when(both(scanned(1), resVal(wr, 1, 0))).neverAfter(run, noCS, "a failed read of an input table is reported as a compaction: its entries get dropped")
				}
				if m == "majorCompaction" {
					byAge := func(x X) bool {
						return call("slices.SortedFunc", "slices.SortedStableFunc", "slices.SortFunc", "slices.SortStableFunc")(x) && len(x.common().Args) == 2
					}
					if h := q.fnArg(byAge, 1, "dkv/sst"); h != nil {
						age := func(p string) func(*Term) bool {
							return func(t *Term) bool {
								return t.Op == "field" && in(t.S, []string{"startSeqNum", "endSeqNum"}) && t.A[0].String() == p || t.isCall(tabT+".Age") && t.A[0].String() == p
							}
						}
						c.signTable("majorCompaction/oldest tables first", h, age("p0"), age("p1"), "the tables of a level aren't merged oldest first: a newer table is moved below an older one that stays, whose entries then win")
					} else if len(q.sites(byAge)) == 0 && len(q.sites(call("sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable", "slices.Sorted"))) == 0 {
						// in no particular order: a level's tables must be merged together
						q.named("majorCompaction/oldest tables first").when(lenAsg(isLevels, 4)).each(func(t *Term) bool {
							return levelTables(t) || t.isCall("slices.Collect") && levelTables(t.A[0])
						}, func(x X) bool {
							cc := x.common()
							return cc != nil && callName(cc) == "builtin.append"
						}, "some of a level's tables are merged, not ordered by age: a newer table is moved below an older one that stays")
					}
					baseTabs := func(t *Term) bool {
						if !levelTables(t) {
							return false
						}
						i, ok := levelOf(t, 4, nil)
						return ok && i == 3
					}
					q.named("majorCompaction/base tables").when(lenAsg(isLevels, 4)).each(baseTabs, func(x X) bool {
						cc := x.common()
						return cc != nil && callName(cc) == "builtin.append"
					}, "a table of the last level isn't merged: it overlaps the new run")
				}
			}
		})

	rule("writerun", "C03 C07 C08 C17 C18",
		"a run of tables holds every entry: each entry is buffered, each flushed chunk is written and its table kept, the chunk and the remaining buffer partition the entries, and errors are reported",
		func(c *Check) {
			g := c.full("(*dkv/sst.TableWriter).WriteRun")
			g.Inline = noInline("(*dkv/sst.TableWriter).Write", g.Inline)
			wr := "(*dkv/sst.TableWriter).Write"
			ents := sstF("entryBuffer.entries")
			isEnts := fieldIs(ents)
			q := c.q("WriteRun", g)
			next := callOf(func(t *Term) bool { return extractOf(t, "0", "iter.Pull") })
			nextOK := func(v int64) Asg {
				return func(t *Term) (int64, bool) {
					if t.Op == "extract" && t.S == "1" && t.A[0].Op == "call" && t.A[0].S == "" && len(t.A[0].A) > 0 && extractOf(t.A[0].A[0], "0", "iter.Pull") {
						return v, true
					}
					return 0, false
				}
			}
			isWrite := call(wr)
			keep := func(x X) bool {
				cc := x.common()
				return cc != nil && callName(cc) == "builtin.append" && x.within(x.argT(1), func(t *Term) bool { return resultOf(t, 0, wr) })
			}
			add := func(x X) bool {
				return store(ents)(x) && x.t(x.stored()).isCall("builtin.append") && x.within(x.t(x.stored()), func(t *Term) bool {
					return t.Op == "extract" && t.S == "0" && t.A[0].Op == "call" && t.A[0].S == ""
				})
			}
			if len(q.sites(next)) > 0 {
				q.named("WriteRun/buffering").when(both(nextOK(1), resVal(wr, 1, 0))).follow(next, add, or(exit, next, isWrite), "an entry isn't buffered")
				end := q.named("WriteRun/end").when(both(nextOK(0), resVal(wr, 1, 0), func(t *Term) (int64, bool) {
					return 3, t.isCall("builtin.len") && x0type(t) == "[]dkv/kv.Entry"
				}))
				end.follow(next, isWrite, exit, "the entries buffered at the end aren't written")
			} else {
				c.soft("WriteRun/buffering", "the entries aren't pulled from an iterator")
			}
			// at the end everything that is buffered is written, not only what the last cut covers
			if len(q.sites(next)) > 0 {
				cut := store(sstF("entryBuffer.cutAt"))
				part := func(t *Term) bool {
					return t.Op == "slice" && len(t.A) == 3 && t.A[2].Find(fieldIs(sstF("entryBuffer.cutAt"))) != nil
				}
				q.named("WriteRun/end").when(both(nextOK(0), resVal(wr, 1, 0))).concretely().report(q.when(both(nextOK(0), resVal(wr, 1, 0))).walk(0, func(s int, x X) (int, bool, string) {
					// 0: more to come, 1: ended, 2: ended and cut anew, 3: only the last chunk was written
					switch {
					case next(x) && s == 0:
						return 1, false, ""
					case cut(x) && s == 1:
						return 2, false, ""
					case isWrite(x) && s != 0:
						if s == 1 && x.within(x.argT(1), part) {
							return 3, false, ""
						}
						return 2, false, ""
					case exit(x) && s == 3:
						return s, true, "only the entries up to the last cut are written at the end: the rest of the buffer is lost"
					}
					return s, false, ""
				}), "")
			}
			okW := q.named("WriteRun/tables").when(resVal(wr, 1, 0))
			okW.follow(isWrite, keep, or(exit, isWrite), "a written table is lost")
			q.named("WriteRun/failed write").when(resVal(wr, 1, 1)).neverAfter(isWrite, func(x X) bool {
				if isWrite(x) {
					return true
				}
				if !exit(x) {
					return false
				}
				a, _ := g.eval(x.e, x.result(1))
				return a.k == 'n'
			}, "a failed write is reported as success")
			// each chunk is cut anew
			cutAt, chunk := store(sstF("entryBuffer.cutAt")), call("(*dkv/sst.entryBuffer).flushChunk")
			if len(q.sites(cutAt)) > 0 && len(q.sites(chunk)) > 0 {
				q.named("WriteRun/cuts").report(q.walk(0, func(s int, x X) (int, bool, string) {
					switch {
					case cutAt(x):
						return 1, false, ""
					case chunk(x):
						if s == 0 {
							return s, true, "a chunk is flushed at the previous chunk's cut: it can be empty, or of any size, for ever"
						}
						return 0, false, ""
					}
					return s, false, ""
				}), "")
			}
			// the buffer
			f := c.full("(*dkv/sst.entryBuffer).flushChunk")
			for _, cut := range []int64{1, 3, 5} {
				asg := roles(role{fieldIs(sstF("entryBuffer.cutAt")), cut})
				w := c.q(fmt.Sprintf("entryBuffer.flushChunk at %d of 5", cut), f).when(asg)
				w.mustPass(store(ents), exit, "the flushed entries stay in the buffer")
				w.all(store(ents), func(x X) bool {
					lo, hi, ok := windowIn(x.t(x.stored()), isEnts, 5, asg)
					return !ok || lo == cut && hi == 5
				}, "entries are dropped from, or flushed again with, the rest of the buffer")
				w.never(overwrites(isEnts), "the flushed entries are overwritten before they are written")
				w.all(exit, func(x X) bool {
					t := x.t(x.result(0))
					s := t.Find(func(u *Term) bool { return u.Op == "slice" })
					if s == nil {
						return !t.isCall("slices.Values") || !isEnts(t.A[0])
					}
					lo, hi, ok := windowIn(s, isEnts, 5, asg)
					return !ok || lo == 0 && hi == cut
				}, "the flushed chunk isn't the entries up to the cut")
			}
			a := c.full("(*dkv/sst.entryBuffer).all")
			c.q("entryBuffer.all", a).all(exit, func(x X) bool {
				t := x.t(x.result(0))
				s := t.Find(func(u *Term) bool { return u.Op == "slice" && isEnts(unslice(u)) })
				if s == nil {
					return true
				}
				lo, hi, ok := window(s, isEnts, 5)
				return !ok || lo == 0 && hi == 5
			}, "not all buffered entries are written")
			k := c.full("(*dkv/sst.entryBuffer).cut")
			kq := c.q("entryBuffer.cut", k)
			kq.when(lenAsg(isEnts, 5)).all(store(sstF("entryBuffer.cutAt")), func(x X) bool {
				v, ok := x.val(x.stored(), lenAsg(isEnts, 5))
				return !ok || v >= 1 && v <= 5
			}, "the cut isn't within the buffered entries")
			kq.all(store(sstF("entryBuffer.chunkSize")), func(x X) bool { t := x.t(x.stored()); return t.Op != "field" || t.isFieldOf(sstF("entryBuffer.size")) }, "the chunk's size isn't the size at the cut")
			for _, cs := range [][3]int64{{50, 30, 20}} {
				asg := roles(role{fieldIs(sstF("entryBuffer.size")), cs[0]}, role{fieldIs(sstF("entryBuffer.chunkSize")), cs[1]})
				c.q("entryBuffer.flushChunk/size", f).when(asg).endsWith(sstF("entryBuffer.size"), cs[0], cs[2], "the buffer's size doesn't shrink by the flushed chunk's: tables grow without bound or the run never ends")
			}
			d := c.full("(*dkv/sst.entryBuffer).add")
			dq := c.q("entryBuffer.add", d)
			dq.mustPass(store(ents), exit, "the entry isn't buffered")
			asg := both(roles(role{fieldIs(sstF("entryBuffer.size")), 10}), callVal("dkv/sst.FlushSize", 7), callVal("builtin.len", 3))
			dq.when(asg).report(dq.when(asg).walk(0, func(s int, x X) (int, bool, string) {
				if store(sstF("entryBuffer.size"))(x) {
					v, ok := x.val(x.stored(), asg)
					if ok && v <= 10 {
						return s, true, fmt.Sprintf("it becomes %d", v)
					}
					return 1, false, ""
				}
				if exit(x) && s == 0 {
					return s, true, "it doesn't grow"
				}
				return s, false, ""
			}), "the buffer's size doesn't grow with its entries: the run never ends a table")
		})
}

func isAppendOf(t *Term) bool { return t.isCall("builtin.append") }

func lastPart(f string) string {
	for i := len(f) - 1; i >= 0; i-- {
		if f[i] == '.' {
			return f[i+1:]
		}
	}
	return f
}

func lowerFirst(s string) string {
	if s == "" {
		return s
	}
	return string(s[0]|0x20) + s[1:]
}

// coversLevels: all levels are visited by the loops over them.
func (q *Q) coversLevels(why string) bool { return q.coversAll(isLevels, why) }

// x0type is the type of a call's first argument.
func x0type(t *Term) string {
	if len(t.A) == 0 || t.A[0].V.X == nil {
		return ""
	}
	return short(t.A[0].V.X.Type())
}
