package main

import "golang.org/x/tools/go/ssa"

// The database object: writes, reads, flushes, checkpoints, recovery.

const (
	enqueue = "(*dkv/bg.AsyncGroup).Enqueue"
	task2   = "dkv/bg.Task2"
	walT    = "(*dkv/wal.Writer)"
	memL    = "(*dkv/memtable.List)"
	llT     = "(*dkv/sst.LevelList)"
	cpList  = "(*dkv/recovery.CheckpointList)"
)

func dkvCallback(name string) bool { return name == enqueue || name == task2 }

func (c *Check) dkv(root string) *Graph {
	g := c.full(root)
	g.Callback = dkvCallback
	return g
}

func isParam(i string) func(*Term) bool { return strIs("p" + i) }

func init() {
	rule("db.write", "C01 C03 C06 C07 C08",
		"DB.Put and DB.Delete append the operation to the WAL and apply it to the memtables with the same, next sequence number and record that number; a full WAL or memtable rotates the memtable",
		func(c *Check) {
			for _, op := range []string{"Put", "Delete"} {
				g := c.dkv("(*dkv.DB)." + op)
				other := "Delete"
				if op == "Delete" {
					other = "Put"
				}
				asg := roles(role{fieldIs("dkv.DB.seqNum"), 41})
				for _, target := range []string{walT, memL} {
					ev := call(target + "." + op)
					q := c.q("DB."+op+"/"+target, g)
					q.mustPass(ev, exit, "the operation isn't applied")
					q.never(call(target+"."+other), "the opposite operation is applied")
					q.all(ev, func(x X) bool {
						n := 3
						if op == "Delete" {
							n = 2
						}
						v, ok := x.val(x.arg(n), asg)
						if ok && v != 42 {
							return false
						}
						if op == "Put" && x.argT(2).Op == "param" && x.argT(2).String() != "p2" {
							return false
						}
						return x.argT(1).Op != "param" || x.argT(1).String() == "p1"
					}, "the operation isn't applied with its key, value and the next sequence number")
					q.report(q.walk(0, func(s int, x X) (int, bool, string) {
						if ev(x) {
							if s == 1 {
								return s, true, "applied twice"
							}
							return 1, false, ""
						}
						return s, false, ""
					}), "the operation is applied more than once")
				}
				q := c.q("DB."+op+"/seqNum", g)
				st := store("dkv.DB.seqNum")
				q.mustPass(st, exit, "the sequence number isn't advanced")
				q.all(st, func(x X) bool { v, ok := x.val(x.stored(), asg); return !ok || v == 42 }, "the recorded sequence number isn't the next one")
				for _, full := range []string{walT, memL} {
					a := callVal(full+"."+op, 1)
					q := c.q("DB."+op+"/rotate when "+full+" is full", g).when(a)
					q.mustPass(call(memL+".Rotate"), exit, "a full table or log isn't rotated")
				}
			}
		})

	rule("db.get", "C01 C03 C06 C07 C08",
		"DB.Get searches the memtables before it obtains the SST tables, returns a memtable hit as is, consults the SST tables on a miss and reports other errors",
		func(c *Check) {
			g := c.dkv("(*dkv.DB).Get")
			mem, ss := call(memL+".Get"), call(llT+".Get")
			q := c.q("DB.Get", g)
			q.precede(mem, or(load("dkv.DB.sstables"), ss), "the SST tables are obtained before the memtables are searched: a concurrent flush hides the entry from both")
			q.all(or(mem, ss), func(x X) bool { return x.argT(1).String() == "p1" }, "another key is looked up")
			nf := map[string]int64{"dkv/kv.ErrNotFound": 1}
			hit := q.named("DB.Get/memtable hit").when(errCase(memL+".Get", 1, 0, nf))
			hit.never(ss, "a memtable hit is looked up in the SST tables as well")
			hit.all(exit, func(x X) bool { return x.t(x.result(0)).hasCall(memL+".Get") && isNilT(x, x.result(1), memL+".Get") }, "a memtable hit isn't returned")
			miss := q.named("DB.Get/memtable miss").when(errCase(memL+".Get", 1, 1, nf))
			miss.mustPass(ss, exit, "a key missing from the memtables isn't looked up in the SST tables")
			miss.all(exit, func(x X) bool { return x.t(x.result(0)).hasCall(llT + ".Get") }, "the SST entry isn't returned")
			bad := q.named("DB.Get/memtable error").when(errCase(memL+".Get", 1, 2, nf))
			bad.all(exit, func(x X) bool {
				a, _ := g.eval(x.e, x.result(1))
				return a.k != 'n' && !x.t(x.result(0)).hasCall(memL+".Get") || x.t(x.result(1)).hasCall(memL+".Get")
			}, "an error of the memtables isn't reported")
		})

	rule("db.scan", "C01 C03 C06 C07 C08",
		"DB.ScanPrefix takes the memtables' entries before the SST tables, merges both keeping the newest, and yields every surviving entry except deletes",
		func(c *Check) {
			g := c.dkv("(*dkv.DB).ScanPrefix")
			q := c.q("DB.ScanPrefix", g)
			mem, ss := call(memL+".ScanPrefix"), call(llT+".ScanPrefix")
			q.precede(mem, or(load("dkv.DB.sstables"), ss), "the SST tables are obtained before the memtables: a concurrent flush hides entries from both")
			q.mustPass(ss, exit, "the SST tables aren't scanned")
			q.all(or(mem, ss), func(x X) bool { return x.argT(1).String() == "p1" }, "another prefix is scanned")
			c.dropsDeletes("(*dkv.DB).ScanPrefix", "(dkv/kv.Entry).IsDelete")
		})

	rule("db.flush", "C01 C03 C06 C07 C08 C09 C18",
		"a flush writes every sealed memtable, and installs the tables, dequeues those memtables and truncates the WAL to what the tables contain in one critical section; compaction change sets apply to the current tables; a failed write installs nothing",
		func(c *Check) {
			for _, op := range []string{"Put", "Delete"} {
				g := c.dkv("(*dkv.DB)." + op)
				q := c.q("flush under DB."+op, g)
				st := store("dkv.DB.sstables")
				deq, trunc := call(memL+".Dequeue"), call(walT+".Truncate")
				newCS := call(llT + ".NewWithChangeSet")
				write := call("(*dkv/sst.TableWriter).Write")
				q.need(st, "installation of new SST tables")
				q.precede(call(memL+".Rotate"), call(memL+".Sealed"), "tables are flushed before the active memtable is sealed")
				q.mustPassFrom(call(memL+".Rotate"), call(walT+".Cut"), exit, "the WAL isn't segmented with the memtable rotation")
				q.oneSection("dkv.DB.mu", st, deq, "the flushed memtables leave the queue apart from the installation of their tables")
				q.oneSection("dkv.DB.mu", st, trunc, "the WAL is truncated apart from the installation of the tables, so a checkpoint can take one without the other")
				q.oneSection("dkv.DB.mu", newCS, st, "the new level list isn't derived from the current one in the critical section that installs it")
				q.all(newCS, func(x X) bool { return x.loadedFrom(x.arg(0), "dkv.DB.sstables") }, "a change set is applied to something other than the current level list")
				q.currentIn("dkv.DB.mu", newCS, 0, "a change set is applied to a level list obtained before the critical section that installs it: what was installed in between is lost")
				q.all(st, func(x X) bool { return x.t(x.stored()).hasCall(llT + ".NewWithChangeSet") }, "the installed level list isn't the one with the change set")
				q.all(deq, func(x X) bool { return x.argT(1).hasCall(memL + ".Sealed") }, "the dequeued memtables aren't the ones that were sealed")
				sealed := map[V]bool{}
				q.visits(write, func(x X) {
					if t := x.argT(1).Find(func(t *Term) bool { return t.isCall(memL + ".Sealed") }); t != nil {
						sealed[t.V] = true
					}
				})
				q.all(deq, func(x X) bool {
					t := x.argT(1).Find(func(t *Term) bool { return t.isCall(memL + ".Sealed") })
					return t == nil || len(sealed) == 0 || sealed[t.V]
				}, "the dequeued memtables aren't the ones that were written: those sealed in between are lost")
				q.precede(st, trunc, "the WAL is truncated before the tables are installed")
				q.all(trunc, func(x X) bool {
					t := x.argT(1)
					return t.isFieldOf("dkv/sst.LevelList.LatestSeqNum") && (t.hasField("dkv.DB.sstables") || t.hasCall(llT+".NewWithChangeSet"))
				}, "the WAL is truncated to something other than the latest sequence number of the installed tables")
				q.all(write, func(x X) bool {
					return x.argT(1).hasCall("(*dkv/memtable.MemTable).All")
				}, "something other than all the entries of a memtable is written")
				add := call("(*dkv/sst.ChangeSet).AddTables")
				q.named("successful flush under DB."+op).when(resVal("(*dkv/sst.TableWriter).Write", 1, 0)).follow(write, add, or(exit, write), "a written table isn't added to the change set")
				q.all(add, func(x X) bool {
					v, ok := x.val(x.arg(1), nil)
					return !ok || v == 0
				}, "flushed tables are added to another level than 0")
				q.named("flush/each sealed table under DB."+op).when(resVal("(*dkv/sst.TableWriter).Write", 1, 0)).each(func(t *Term) bool { return t.isCall(memL + ".Sealed") }, or(write, nonNilReturn), "a sealed memtable isn't written")
				fail := q.named("failed flush under DB." + op).when(func(t *Term) (int64, bool) {
					if resultOf(t, 1, "(*dkv/sst.TableWriter).Write") {
						return 1, true
					}
					return 0, false
				})
				fail.neverAfter(write, or(st, deq, trunc), "a failed table write still installs tables or drops memtables or WAL entries")
				comp := call("(*dkv/sst.Compactor).Compact")
				q.all(comp, func(x X) bool { return x.loadedFrom(x.arg(1), "dkv.DB.sstables") }, "something other than the current level list is compacted")
				failC := q.named("failed compaction under DB." + op).when(func(t *Term) (int64, bool) {
					if resultOf(t, 1, "(*dkv/sst.Compactor).Compact") {
						return 1, true
					}
					return 0, false
				})
				failC.notBetween(comp, st, comp, "a failed compaction changes the tables")
				okC := q.named("compaction result under DB." + op).when(func(t *Term) (int64, bool) {
					if resultOf(t, 1, "(*dkv/sst.Compactor).Compact") {
						return 0, true
					}
					if resultOf(t, 0, "(*dkv/sst.Compactor).Compact") {
						return 1, true
					}
					return 0, false
				})
				okC.follow(comp, st, or(exit, comp), "the change set of a compaction isn't installed")
				okC.allAfter(comp, newCS, func(x X) bool { return x.argT(1).hasCall("(*dkv/sst.Compactor).Compact") }, "the installed change set isn't the compaction's")
			}
		})

	rule("db.lock", "C01 C03 C06 C07 C08 C09 C18",
		"outside construction the level list of a DB is only read and replaced while holding DB.mu",
		func(c *Check) {
			acc := func(x X) string {
				if store("dkv.DB.sstables")(x) {
					return "w"
				}
				if load("dkv.DB.sstables")(x) {
					return "r"
				}
				return ""
			}
			for _, op := range []string{"Put", "Delete", "Get", "ScanPrefix", "Checkpoint", "Diagnostics"} {
				g := c.dkv("(*dkv.DB)." + op)
				c.q("DB."+op, g).locked("dkv.DB.mu", unlocked, "", func(h int, x X) string {
					switch acc(x) {
					case "w":
						if h != wlocked {
							return "the level list is replaced without holding DB.mu"
						}
					case "r":
						if h == unlocked {
							return "the level list is read without holding DB.mu"
						}
					}
					return ""
				})
			}
		})

	rule("db.checkpoint", "C01 C02 C03 C06 C07 C08 C09 C14",
		"DB.Checkpoint rotates the WAL and records the level list, the rotated WAL and the sequence number under the requested id in one critical section; the handle is returned only after the WAL and then the checkpoint list are saved",
		func(c *Check) {
			g := c.dkv("(*dkv.DB).Checkpoint")
			q := c.q("DB.Checkpoint", g)
			rot, add := call(walT+".Rotate"), call(cpList+".Add")
			st := store("dkv.DB.wal")
			for _, e := range []Ev{rot, st, add} {
				q.mustPass(e, exit, "the checkpoint isn't recorded or the WAL isn't rotated")
			}
			q.oneSection("dkv.DB.mu", rot, add, "the WAL rotation and the recorded checkpoint aren't one critical section")
			q.oneSection("dkv.DB.mu", st, add, "the WAL replacement and the recorded checkpoint aren't one critical section")
			q.oneSection("dkv.DB.mu", load("dkv.DB.sstables"), add, "the level list is read outside the critical section that records it")
			q.all(rot, func(x X) bool { return x.argT(0).isFieldOf("dkv.DB.wal") }, "another WAL is rotated")
			q.all(st, func(x X) bool { return x.t(x.stored()).hasCall(walT + ".Rotate") }, "the WAL isn't replaced by the rotated one")
			q.all(add, func(x X) bool {
				w := x.argT(3)
				return x.argT(1).String() == "p1" && x.argT(2).isFieldOf("dkv.DB.sstables") &&
					w.isFieldOf("dkv.DB.wal") && !w.hasCall(walT+".Rotate") && x.argT(4).isFieldOf("dkv.DB.seqNum")
			}, "the recorded checkpoint isn't (id, current tables, WAL before rotation, sequence number)")
			save, list := call(walT+".Save"), call(cpList+".Save")
			q.all(save, func(x X) bool {
				w := x.argT(0)
				return w.isFieldOf("dkv.DB.wal") && !w.Stale && !w.hasCall(walT+".Rotate")
			}, "the saved WAL isn't the one recorded in the checkpoint")
			q.precede(save, list, "the checkpoint list is saved before the WAL it refers to")
			for _, e := range []struct {
				name string
				ev   Ev
				i    int
				call string
			}{{"WAL", save, 0, walT + ".Save"}, {"checkpoint list", list, 1, cpList + ".Save"}} {
				f := q.named("DB.Checkpoint/failed " + e.name + " save").when(func(t *Term) (int64, bool) {
					if resultOf(t, e.i, e.call) {
						return 1, true
					}
					return 0, false
				})
				cb := c.q("", g).sites(e.ev)
				if len(cb) == 0 {
					f.reached(e.ev, "the "+e.name+" isn't saved")
					continue
				}
				f.neverAfter(e.ev, func(x X) bool {
					if r, ok := x.n.I.(*ssa.Return); ok && len(r.Results) == 2 && isErrType(r.Results[1].Type()) {
						a, _ := g.eval(x.e, V{x.n.C, r.Results[1]})
						return a.k == 'n'
					}
					return false
				}, "a failed save of the "+e.name+" is reported as a successful checkpoint")
			}
			okRet := func(x X) bool {
				r, ok := x.n.I.(*ssa.Return)
				if !ok || len(r.Results) != 2 || !isErrType(r.Results[1].Type()) {
					return false
				}
				a, _ := g.eval(x.e, V{x.n.C, r.Results[1]})
				return a.k == 'n'
			}
			q.precede(list, okRet, "the checkpoint is reported before its files are saved")
		})

	rule("db.start", "C01 C03 C06 C07 C08 C09 C15",
		"DB.Start adopts the latest checkpoint's tables and sequence number, writes new files past the existing ones, then replays every owned WAL entry as the operation it records; errors stop it",
		func(c *Check) {
			g := c.full("(*dkv.DB).Start")
			q := c.q("DB.Start", g)
			latest := cpList + ".Latest"
			empty := q.named("DB.Start/no checkpoint").when(callVal(cpList+".IsEmpty", 1))
			empty.mustPass(store("dkv.DB.wal"), nilErrExit, "a fresh database gets no WAL")
			rec := q.named("DB.Start/recovery").when(callVal(cpList+".IsEmpty", 0))
			st := store("dkv.DB.sstables")
			rec.mustPass(st, nilErrExit, "the checkpoint's tables aren't adopted")
			rec.all(st, func(x X) bool { return x.t(x.stored()).hasCall(latest) && lastField(x.t(x.stored())) == "Levels" }, "the adopted tables aren't the latest checkpoint's")
			seq := store("dkv.DB.seqNum")
			direct := func(x X) bool {
				return seq(x) && x.n.C == g.Root || seq(x) && x.t(x.stored()).isFieldOf("dkv/sst.LevelList.LatestSeqNum")
			}
			rec.mustPass(direct, nilErrExit, "the sequence number isn't restored")
			rec.all(direct, func(x X) bool {
				t := x.t(x.stored())
				return t.isFieldOf("dkv/sst.LevelList.LatestSeqNum") && (t.hasCall(latest) || t.hasField("dkv.DB.sstables"))
			}, "the sequence number isn't the latest of the adopted tables")
			wal := store("dkv.DB.wal")
			rec.mustPass(wal, nilErrExit, "no WAL is opened")
			rec.all(wal, func(x X) bool {
				return x.t(x.stored()).hasCall("(*dkv/recovery.Checkpoint).NextWALID", "(dkv/recovery.Checkpoint).NextWALID")
			}, "the new WAL can overwrite a restored one")
			skip := call("(*dkv/sst.TableWriter).SkipExisting")
			rec.mustPass(skip, nilErrExit, "new tables can overwrite restored ones")
			apply := or(call(walT+".Put"), call(walT+".Delete"))
			for _, e := range []struct {
				ev  Ev
				why string
			}{{st, "tables"}, {direct, "sequence number"}, {wal, "WAL"}, {skip, "table ids"}} {
				rec.named("DB.Start/"+e.why+" before replay").precede(e.ev, apply, "entries are replayed before the "+e.why+" are restored")
			}
			replay := func(x X) bool {
				c := x.common()
				return c != nil && hasPrefixAny(callName(c), "(*dkv/recovery.Checkpoint).WALSeq", "(dkv/recovery.Checkpoint).WALSeq")
			}
			rec.mustPass(replay, nilErrExit, "the WAL isn't replayed")
			del := func(v int64) Asg { return roles(role{fieldIs("dkv/wal.Entry.Deleted"), v}) }
			owns := func(v int64) Asg { return anyCallVal("OwnsKey", v) }
			noErr := roles(role{func(t *Term) bool { return t.Op == "param" && t.S == "Start$1:p1" || isCBParam(t, 1) }, 0})
			base := both(callVal(cpList+".IsEmpty", 0), noErr)
			put, dl := call(memL+".Put"), call(memL+".Delete")
			a := rec.named("DB.Start/owned put").when(both(base, del(0), owns(1)))
			a.reached(put, "a put in the WAL isn't replayed")
			a.never(dl, "a put in the WAL is replayed as a delete")
			b := rec.named("DB.Start/owned delete").when(both(base, del(1), owns(1)))
			b.reached(dl, "a delete in the WAL isn't replayed")
			b.never(put, "a delete in the WAL is replayed as a put")
			d := rec.named("DB.Start/foreign entry").when(both(base, owns(0)))
			d.never(or(put, dl), "an entry of a key this instance doesn't own is replayed")
			f := rec.named("DB.Start/WAL error").when(both(callVal(cpList+".IsEmpty", 0), roles(role{func(t *Term) bool { return isCBParam(t, 1) }, 1})))
			f.never(or(put, dl), "entries are replayed although reading the WAL failed")
			g2 := q.named("DB.Start/load error").when(func(t *Term) (int64, bool) {
				if resultOf(t, 1, "dkv/recovery.LoadCheckpointList") {
					return 1, true
				}
				return 0, false
			})
			g2.never(nilErrExit, "a checkpoint that failed to load is ignored")
			q.all(call("dkv/recovery.LoadCheckpointList"), func(x X) bool { return x.argT(2).String() == "p1" }, "other checkpoints are loaded")
		})

	rule("db.retain", "C09 C13",
		"DB.UpdateRetainedCheckpoints retains exactly the given ids and saves the list, reporting failures; DB.NeedsTable answers from the checkpoint list",
		func(c *Check) {
			g := c.dkv("(*dkv.DB).UpdateRetainedCheckpoints")
			q := c.q("DB.UpdateRetainedCheckpoints", g)
			ret, save := call(cpList+".RetainOnly"), call(cpList+".Save")
			q.mustPass(ret, exit, "nothing is released")
			q.all(ret, func(x X) bool { return x.argT(1).String() == "p1" }, "other ids are retained")
			q.precede(ret, save, "the list is saved before it is updated")
			q.mustPass(save, nilErrExit, "the updated list isn't saved")
			q.when(func(t *Term) (int64, bool) {
				if resultOf(t, 1, cpList+".Save") {
					return 1, true
				}
				return 0, false
			}).named("DB.UpdateRetainedCheckpoints/failed save").never(nilErrExit, "a failed save is ignored")
			h := c.dkv("(*dkv.DB).NeedsTable")
			c.q("DB.NeedsTable", h).all(exit, func(x X) bool {
				t := x.t(x.result(0))
				return t.isCall(cpList+".IncludesTable") && t.A[1].String() == "p1"
			}, "the answer isn't whether the checkpoint list includes the table")
		})

	rule("db.close", "C09",
		"DB.Close gives up the files of written and restored tables before it returns",
		func(c *Check) {
			g := c.dkv("(*dkv.DB).Close")
			q := c.q("DB.Close", g)
			q.mustPass(call("(*dkv/sst.TableWriter).KeepFiles"), exit, "garbage collection of a closed database's tables deletes files another instance recovers from")
			q.mustPass(and(call("(*sync/atomic.Bool).Store"), func(x X) bool { v, ok := x.val(x.arg(1), nil); return !ok || v == 1 }), exit, "a closed database still claims ownership of restored tables")
			h := c.full("(*dkv.closableOwnership).ExclusivelyOwnsTable")
			w := c.q("closableOwnership.ExclusivelyOwnsTable/closed", h).when(callVal("(*sync/atomic.Bool).Load", 1))
			w.all(exit, func(x X) bool { v, ok := x.val(x.result(0), nil); return ok && v == 0 }, "a closed database claims exclusive ownership of a table")
			o := c.q("closableOwnership.ExclusivelyOwnsTable/open", h).when(callVal("(*sync/atomic.Bool).Load", 0))
			o.all(exit, func(x X) bool {
				v, ok := x.val(x.result(0), nil)
				return x.t(x.result(0)).hasCall("(dkv/kv.DataOwnership).ExclusivelyOwnsTable") || ok && v == 0
			}, "ownership is claimed without asking the owner")
		})
}

// dropsDeletes: the returned iterator yields every merged entry that isn't a delete, and only those.
func (c *Check) dropsDeletes(root, isDelete string) {
	g := c.seqBody(root)
	q := c.q(root+" iterator", g)
	merged := func(t *Term) bool { return t.isCall("dkv/kv.MergeEntries") }
	y := and(isYield, func(x X) bool { return true })
	q.when(anyCallVal("IsDelete", 1)).never(y, "a deleted entry is yielded")
	live := q.when(anyCallVal("IsDelete", 0))
	if len(live.sites(elemLoad(merged))) > 0 {
		live.each(merged, y, "an entry that isn't deleted is skipped")
	} else {
		live.reached(y, "entries that aren't deleted are not yielded")
	}
	live.all(y, func(x X) bool { return isCBParam(x.yieldArg(0), 0) || x.yieldArg(0).Op != "param" }, "something other than the merged entry is yielded")
}

// isCBParam matches parameter i of a loop body fed by an iterator.
func isCBParam(t *Term, i int) bool {
	if t.Op != "param" || t.V.C == nil || !t.V.C.CB {
		return false
	}
	p, ok := t.V.X.(*ssa.Parameter)
	return ok && i < len(t.V.C.Fn.Params) && t.V.C.Fn.Params[i] == p
}

// anyCallVal gives val to calls of any method with the short name.
func anyCallVal(short string, val int64) Asg {
	return func(t *Term) (int64, bool) {
		if t.Op == "call" && (hasSuffix(t.S, "."+short) || hasSuffix(t.S, ")."+short)) {
			return val, true
		}
		return 0, false
	}
}

func hasSuffix(s, x string) bool { return len(s) >= len(x) && s[len(s)-len(x):] == x }

func lastField(t *Term) string {
	if t.Op == "field" {
		return t.S
	}
	return ""
}

// isNilT: the value is nil on this path or is the named call's error (nil in the scenario).
func isNilT(x X, v V, name string) bool {
	a, _ := x.g.eval(x.e, v)
	if a.k == 'n' {
		return true
	}
	return a.k != 'x' && x.t(v).hasCall(name)
}

// nonNilReturn: a return (of any function on the path) whose error result isn't nil.
func nonNilReturn(x X) bool {
	r, ok := x.n.I.(*ssa.Return)
	if !ok || len(r.Results) == 0 {
		return false
	}
	l := r.Results[len(r.Results)-1]
	if !isErrType(l.Type()) {
		return false
	}
	a, _ := x.g.eval(x.e, V{x.n.C, l})
	return a.k == 'x'
}

// nilErrExitOf: a return of nil error from the function (any activation) containing a site of ev, or an exit.
func nilErrExitOf(ev Ev) Ev {
	return func(x X) bool {
		if exit(x) {
			return true
		}
		r, ok := x.n.I.(*ssa.Return)
		if !ok || len(r.Results) == 0 {
			return false
		}
		l := r.Results[len(r.Results)-1]
		if !isErrType(l.Type()) {
			return false
		}
		a, _ := x.g.eval(x.e, V{x.n.C, l})
		return a.k == 'n'
	}
}

// mustPassFrom: after a, every path to an exit passes b; b may also come before a.
func (q *Q) mustPassFrom(a, b, exits Ev, why string) bool {
	return q.report(q.walk(0, func(s int, x X) (int, bool, string) {
		if b(x) {
			return s | 2, false, ""
		}
		if a(x) {
			s |= 1
		}
		if s == 1 && exits(x) {
			return s, true, "x"
		}
		return s, false, ""
	}), why)
}

// allAfter: pred holds at every point matching ev that comes after a.
func (q *Q) allAfter(a, ev Ev, pred func(x X) bool, why string) bool {
	return q.report(q.walk(0, func(s int, x X) (int, bool, string) {
		if s == 1 && ev(x) && !pred(x) {
			return s, true, "x"
		}
		if a(x) {
			return 1, false, ""
		}
		return s, false, ""
	}), why)
}

// resVal is the scenario in which result i of calls of name has the value.
func resVal(name string, i int, val int64) Asg {
	return func(t *Term) (int64, bool) {
		if resultOf(t, i, name) {
			return val, true
		}
		return 0, false
	}
}
