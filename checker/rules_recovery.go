package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Checkpoints of the database and their documents.

const ckptT = "(*dkv/recovery.Checkpoint)"
const ckptDoc = "dkv/recovery.checkpointDocument."

// either matches any of the predicates.
func either(ps ...func(*Term) bool) func(*Term) bool {
	return func(t *Term) bool {
		for _, p := range ps {
			if p(t) {
				return true
			}
		}
		return false
	}
}

// collects matches adding a value accepted by elem to a slice.
func collects(elem func(*Term) bool) Ev {
	return func(x X) bool {
		v, ok := x.n.I.(*ssa.Call)
		if !ok || x.n.R != nil || callName(&v.Call) != "builtin.append" {
			return false
		}
		return x.within(x.argT(1), elem)
	}
}

// setsElem matches storing a value accepted by elem into an element of a slice.
func setsElem(elem func(*Term) bool) Ev {
	return func(x X) bool {
		s, ok := x.n.I.(*ssa.Store)
		if !ok || x.n.R != nil {
			return false
		}
		ia, ok := s.Addr.(*ssa.IndexAddr)
		if !ok || isVarargs(ia.X) {
			return false
		}
		return elem(x.t(V{x.n.C, s.Val}))
	}
}

// isVarargs: the array holds the arguments of a variadic call.
func isVarargs(v ssa.Value) bool {
	a, ok := v.(*ssa.Alloc)
	return ok && a.Comment == "varargs"
}

// keepsOrder: the values accepted by elem, made from the elements of another list (src), are put in a list in that list's order.
func (q *Q) keepsOrder(construct string, elem func(*Term) bool, src func(*Term) *Term, why string) {
	good := true
	bad := func(x X) {
		if good {
			q.c.fail(construct, x.pos(), "%s", why)
		}
		good = false
	}
	q.visits(setsElem(elem), func(x X) {
		ia := x.n.I.(*ssa.Store).Addr.(*ssa.IndexAddr)
		if e := src(x.t(x.stored())); e != nil && e.Op == "index" && x.t(V{x.n.C, ia.Index}).String() != e.A[1].String() {
			// the same position counted by another variable is fine
			if d, _ := direction(ia.Index, 0); d <= 0 || q.g.visitOrder(x.e, e.V) <= 0 {
				bad(x)
			}
		}
	})
	q.visits(collects(elem), func(x X) {
		for _, t := range x.argT(1).L {
			if elem(t) {
				if e := src(t); e != nil && q.g.visitOrder(x.e, e.V) < 0 {
					bad(x)
				}
			}
		}
		if t := x.argT(0); t.Op == "slice" && t.L != nil {
			bad(x) // each is put before the others
		}
	})
	if good {
		q.c.ok(construct)
	}
}

// storedInto lists the fields a list ends up in.
func (p *Prog) storedInto(v ssa.Value) map[string]bool {
	out := map[string]bool{}
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch i := r.(type) {
			case *ssa.Phi:
				rec(i)
			case *ssa.Slice:
				rec(i)
			case *ssa.Extract:
				rec(i)
			case *ssa.Call:
				if callName(&i.Call) == "builtin.append" || callName(&i.Call) == "slices.Concat" || callName(&i.Call) == "slices.Clone" {
					rec(i)
				}
			case *ssa.Return:
				for k, res := range i.Results {
					if res != v {
						continue
					}
					for _, site := range p.callers[i.Parent()] {
						call, ok := site.(*ssa.Call)
						if !ok {
							continue
						}
						if len(i.Results) == 1 {
							rec(call)
							continue
						}
						for _, u := range *call.Referrers() {
							if ex, ok := u.(*ssa.Extract); ok && ex.Index == k {
								rec(ex)
							}
						}
					}
				}
			case *ssa.Store:
				if i.Val != v {
					continue
				}
				if f := fieldOf(i.Addr); f != "" {
					out[f] = true
				}
				if a, ok := i.Addr.(*ssa.Alloc); ok {
					for _, u := range *a.Referrers() {
						if ld, ok := u.(*ssa.UnOp); ok {
							rec(ld)
						}
					}
				}
			}
		}
	}
	rec(v)
	return out
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// accum gives v to what a loop carries along (variables and cells), except the elements themselves.
func accum(elem func(*Term) bool, v int64) Asg {
	return func(t *Term) (int64, bool) {
		if (t.Op == "phi" || t.Op == "set" || t.Op == "alloc") && t.V.X != nil && isInt(t.V.X.Type()) && !elem(t) {
			return v, true
		}
		return 0, false
	}
}

// keepsMax: with acc carried so far and an element e, the loop carries on the higher one. field names the accumulator when it
// isn't a variable.
func (q *Q) keepsMax(elem func(*Term) bool, field, why string) {
	q.keepsMaxPlus(elem, field, why, 0)
}

// keepsMaxPlus: what is carried may also be the highest element plus one of the offsets; it gives that offset.
func (q *Q) keepsMaxPlus(elem func(*Term) bool, field, why string, offsets ...int64) int64 {
	bad := ""
	for _, o := range offsets {
		found := false
		if bad, found = q.maxPlus(elem, field, o); !found {
			q.c.soft(q.name, "no accumulator recognised: "+why)
			return o
		}
		if bad == "" {
			q.c.ok(q.name)
			return o
		}
	}
	q.c.fail(q.name, q.g.Root.Fn.Pos(), "%s: %s", why, bad)
	return 0
}

// carriesMax: a loop variable that starts as init carries the highest element plus off.
func (q *Q) carriesMax(elem, init func(*Term) bool, off int64) (found bool, bad string) {
	bad, found = q.maxPlus(elem, "", off)
	if !found {
		return false, ""
	}
	if bad != "" {
		return true, bad
	}
	for _, l := range q.loops() {
		for _, ph := range l.phis {
			if !isInt(ph.Type()) {
				continue
			}
			related := false
			l.step(nil, func(x X) {
				if nv, ok := l.nextOf(x, ph, nil); ok && x.t(nv).Find(elem) != nil {
					related = true
				}
			})
			if !related {
				continue
			}
			for _, v := range l.initOf(ph) {
				t := (X{q.g, N{C: l.c, I: l.head.Instrs[0]}, l.e}).t(v)
				if t.Op == "phi" || t.Op == "set" { // the outer loop's
					continue
				}
				if !init(t) {
					bad = "it starts with " + t.String()
				}
			}
		}
	}
	return true, bad
}

func (q *Q) maxPlus(elem func(*Term) bool, field string, off int64) (bad string, found bool) {
	stored, raised := false, false
	for _, cs := range [][2]int64{{5, 9}, {9, 5}, {9, 9}} {
		want := max(cs[0], cs[1]+off)
		base := truth(elem, cs[1])
		for _, l := range q.loops() {
			for _, ph := range l.phis {
				if !isInt(ph.Type()) {
					continue
				}
				related := false
				l.step(nil, func(x X) {
					if nv, ok := l.nextOf(x, ph, nil); ok && x.t(nv).Find(elem) != nil {
						related = true
					}
				})
				if !related {
					continue
				}
				found = true
				asg := both(truth(l.isVar(ph), cs[0]), base)
				l.step(asg, func(x X) {
					if nv, ok := l.nextOf(x, ph, asg); ok {
						if v, ok := x.val(nv, asg); ok && v != want {
							bad = fmt.Sprintf("with %d so far and %d next it carries on %d", cs[0], cs[1], v)
						}
					}
				})
			}
		}
		if field != "" {
			kept := field[strings.LastIndex(field, ".")+1:]
			asg := both(both(base, accum(elem, cs[0])), func(t *Term) (int64, bool) {
				return cs[0], t.isField(kept) && isInt(t.V.X.Type()) && t.Find(elem) == nil
			})
			w := q.when(asg)
			w.visits(store(field), func(x X) {
				t := x.t(x.stored())
				if t.Find(elem) == nil {
					return
				}
				found, stored = true, true
				raised = raised || cs[1] > cs[0]
				if v, ok := evalTerm(t, asg); ok && v != want {
					bad = fmt.Sprintf("with %d so far and %d next it becomes %d", cs[0], cs[1], v)
				}
			})
		}
	}
	if stored && !raised {
		bad = "a higher element isn't taken over"
	}
	q.visits(call("slices.Max", "slices.MaxFunc"), func(x X) { found = true })
	return bad, found
}

// jsonFields: every field of the document type is written and read back under a name of its own.
func (c *Check) jsonFields(typ string) {
	for _, pk := range c.P.Pkgs {
		for _, n := range pk.Scope().Names() {
			tn, ok := pk.Scope().Lookup(n).(*types.TypeName)
			if !ok || typeName(tn.Type()) != typ {
				continue
			}
			st := structOf(tn.Type())
			if st == nil {
				continue
			}
			names := map[string]string{}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				tag := strings.Split(reflect.StructTag(st.Tag(i)).Get("json"), ",")[0]
				if !f.Exported() {
					c.fail(typ, f.Pos(), "field %s isn't exported, so it isn't saved", f.Name())
					continue
				}
				if tag == "-" {
					c.fail(typ, f.Pos(), "field %s isn't saved", f.Name())
					continue
				}
				if tag == "" {
					tag = f.Name()
				}
				if o := names[strings.ToLower(tag)]; o != "" {
					c.fail(typ, f.Pos(), "fields %s and %s are saved under the same name", o, f.Name())
					continue
				}
				names[strings.ToLower(tag)] = f.Name()
				c.ok(typ)
			}
			return
		}
	}
	c.soft(typ, "no such type")
}

func init() {
	const ckpts, pending = "dkv/recovery.CheckpointList.checkpoints", "dkv/recovery.CheckpointList.checkpointsPendingRemoval"
	const fsOpen, fsNew = "(dkv/storage.FileSystem).Open", "(dkv/storage.FileSystem).New"
	cf := func(f string) string { return "dkv/recovery.Checkpoint." + f }
	df := func(f string) string { return ckptDoc + f }
	isCkpts := fieldIs(ckpts)
	isCkptElem := func(t *Term) bool {
		return t.Op == "index" && isCkpts(unslice(t.A[0])) || isCBParam(t, 0) || isCBParam(t, 1)
	}
	mu := func(c *Check) string { return c.mutexOf("dkv/recovery.CheckpointList", "mu") }

	rule("ckpt.add", "C01 C06 C08 C09 C13",
		"an added checkpoint records the requested id, the given tables and sequence number, the given log from the tables' latest sequence number on, and the file of every table; earlier checkpoints stay listed",
		func(c *Check) {
			g := c.full(cpList + ".Add")
			g.Inline = noInline("(*dkv/wal.Writer).Handle", g.Inline)
			q := c.q("CheckpointList.Add", g)
			want := map[string]func(x X, t *Term) bool{
				"ID":         func(x X, t *Term) bool { return t.String() == "p1" },
				"Levels":     func(x X, t *Term) bool { return t.String() == "p2" },
				"LastSeqNum": func(x X, t *Term) bool { return t.String() == "p4" },
				"WALs": func(x X, t *Term) bool {
					return x.within(t, func(u *Term) bool {
						return u.isCall("(*dkv/wal.Writer).Handle") && u.A[0].String() == "p3" && u.A[1].isField("LatestSeqNum") && u.A[1].A[0].String() == "p2"
					})
				},
			}
			for _, f := range names(want) {
				q.mustPass(store(cf(f)), exit, "the checkpoint's "+f+" isn't recorded")
				q.all(store(cf(f)), func(x X) bool { return want[f](x, x.t(x.stored())) }, "the checkpoint's "+f+" isn't the given one")
			}
			st := store(ckpts)
			app := func(x X) bool {
				t := x.t(x.stored())
				return t.isCall("builtin.append") && isCkpts(t.A[0])
			}
			q.mustPass(and(st, app), exit, "the checkpoint isn't listed")
			q.all(st, app, "earlier checkpoints are lost")
			q.neverAfter(st, st, "the checkpoint is listed twice")
			q.locked(mu(c), unlocked, "concurrent changes of the list get lost", lockedAccess(ckpts))
			q.oneSection(mu(c), load(ckpts), st, "a checkpoint added in between is lost")
			tables := func(t *Term) bool {
				return levelTables(t) || t.isCall("(dkv/sst.Level).AllTables", "(dkv/sst.Level).NewestTables", "(*dkv/sst.Level).AllTables", "(*dkv/sst.LevelList).AllTables")
			}
			c.uriSet(q, tables, func(t *Term) bool { return t.isCall(tabT + ".URI") })
			if all := func(t *Term) bool { return t.isCall("(*dkv/sst.LevelList).DescendLevels") }; len(q.sites(elemLoad(all))) > 0 {
				q.coversAll(all, "the files of a level aren't recorded")
			}
			e := c.full(cpList + ".IsEmpty")
			for _, n := range []int64{0, 1, 2} {
				asg := truth(lenOf(isCkpts), n)
				c.q(fmt.Sprintf("CheckpointList.IsEmpty/%d", n), e).when(asg).all(exit, func(x X) bool {
					v, ok := x.val(x.result(0), asg)
					return ok && (v == 1) == (n == 0)
				}, "the answer is wrong")
			}
			l := c.full(cpList + ".Latest")
			for _, n := range []int64{1, 3} {
				asg := lenAsg(isCkpts, n)
				c.q(fmt.Sprintf("CheckpointList.Latest/%d", n), l).all(exit, func(x X) bool {
					t := x.t(x.result(0))
					if t.Op != "index" || !isCkpts(t.A[0]) {
						return false
					}
					v, ok := evalTerm(t.A[1], asg)
					return ok && v == n-1
				}, "it isn't the checkpoint added last")
			}
			for name, h := range map[string]*Graph{"IsEmpty": e, "Latest": l} {
				c.q("CheckpointList."+name, h).locked(mu(c), unlocked, "the list is read while it changes", lockedAccess(ckpts))
			}
		})

	rule("ckpt.save", "C01 C06 C08 C09 C13",
		"saving writes the documents of all listed checkpoints to the checkpoints file; only after that was saved are the logs of dropped checkpoints deleted, and a failure is reported and keeps them pending; deleting a log another instance deleted already is no failure",
		func(c *Check) {
			g := c.full(cpList + ".Save")
			g.Inline = noInline(ckptT+".Destroy", noInline(ckptT+".Document", g.Inline))
			q := c.q("CheckpointList.Save", g)
			wr := "(io.Writer).Write"
			if len(q.sites(call(wr))) == 0 {
				wr = fileW + "Write"
			}
			destroy, save, write := call(ckptT+".Destroy"), call(fileW+"Save"), call(wr)
			q.locked(mu(c), unlocked, "the list changes while it is saved", func(h int, x X) string {
				if m := lockedAccess(ckpts)(h, x); m != "" {
					return m
				}
				if m := lockedAccess(pending)(h, x); m != "" {
					return m
				}
				if save(x) && h == unlocked {
					return "concurrent saves aren't serialised: an older list can replace a newer one"
				}
				return ""
			})
			// documents
			q.each(isCkpts, call(ckptT+".Document"), "a checkpoint is missing from the saved list")
			isDoc := func(t *Term) bool { return t.isCall(ckptT + ".Document") }
			q.keepsOrder("CheckpointList.Save/order", isDoc, func(t *Term) *Term { return t.A[0] }, "a checkpoint's document is stored at another position: the last one is no longer the latest")
			q.follow(isCallEv(ckptT+".Document"), or(setsElem(isDoc), collects(isDoc)), exit, "a checkpoint's document isn't saved")
			q.all(write, func(x X) bool { return x.argT(1).hasCall("encoding/json.Marshal") }, "something other than the list is written")
			q.need(store("dkv/recovery.checkpointListDocument.Checkpoints"), "list of documents")
			q.all(store("dkv/recovery.checkpointListDocument.Checkpoints"), func(x X) bool { return x.t(x.stored()).Op != "const" }, "the documents aren't written")
			q.precede(write, save, "the file is saved before it is written")
			q.mustPass(save, nilErrExit, "the list isn't saved")
			q.all(save, func(x X) bool { return x.argT(0).isCall(fsNew) }, "another file is saved")
			q.all(call(fsNew), func(x X) bool {
				s, ok := x.argT(1).constStr()
				return !ok || s != ""
			}, "the file has no name")
			q.all(nilErrExit, func(x X) bool {
				t := x.t(x.result(0))
				return t.isCall(fileW+"URI") && t.A[0].isCall(fsNew)
			}, "the returned URI isn't the saved file's")
			// failures
			for _, e := range []struct {
				name string
				call string
				i    int
			}{{"marshal", "encoding/json.Marshal", 1}, {"write", wr, 1}, {"save", fileW + "Save", 0}, {"destroy", ckptT + ".Destroy", 0}} {
				f := q.named("CheckpointList.Save/failed " + e.name).when(errCase(e.call, e.i, 1, nil))
				f.neverAfter(call(e.call), nilErrExit, "a failure is reported as success")
				if e.name == "destroy" {
					f.neverAfter(call(e.call), store(pending), "checkpoints whose files weren't deleted are forgotten")
				} else {
					f.never(destroy, "logs are deleted although the list that no longer refers to them wasn't saved")
				}
			}
			q.precede(save, destroy, "logs are deleted before the list that no longer refers to them is saved")
			q.each(fieldIs(pending), destroy, "a dropped checkpoint's logs aren't deleted")
			q.all(destroy, func(x X) bool {
				return x.argT(0).Find(isCkpts) == nil || x.argT(0).hasField(pending)
			}, "the logs of a listed checkpoint are deleted")
			q.visits(store(pending), func(x X) {
				t := x.t(x.stored())
				c.expect(t.Op == "const" || t.Op == "slice" || t.Op == "make", "CheckpointList.Save", x.pos(), "the pending checkpoints aren't cleared")
			})
			q.mustPass(store(pending), nilErrExit, "destroyed checkpoints stay pending: their logs are deleted again")
			// deletion
			d := c.full(ckptT + ".Destroy")
			d.Inline = noInline("(dkv/wal.Handle).Delete", d.Inline)
			dq := c.q("Checkpoint.Destroy", d)
			del := call("(dkv/wal.Handle).Delete")
			isWals := fieldIs(cf("WALs"))
			dq.each(isWals, del, "a log isn't deleted")
			for _, cs := range [][3]int64{{0, 0, 1}, {1, 0, 0}, {1, 1, 1}} {
				asg := both(errCase("(dkv/wal.Handle).Delete", 0, cs[0], nil), callVal("errors.Is", cs[1]))
				w := dq.named(fmt.Sprintf("Checkpoint.Destroy/failed %d missing %d", cs[0], cs[1])).when(asg)
				if cs[2] == 0 {
					w.neverAfter(del, nilErrExit, "a failed deletion is reported as success")
				} else {
					w.all(exit, func(x X) bool {
						a, _ := d.eval(x.e, x.result(0))
						return a.k != 'x' && !x.t(x.result(0)).hasCall("(dkv/wal.Handle).Delete")
					}, "a log another instance deleted makes the deletion fail")
				}
			}
			dq.visits(call("errors.Is"), func(x X) {
				t := x.argT(1)
				c.expect(x.argT(0).hasCall("(dkv/wal.Handle).Delete"), "Checkpoint.Destroy", x.pos(), "it isn't the deletion's error that is examined")
				c.expect(t.Op != "global" || t.S == "io/fs.ErrNotExist" || t.S == "os.ErrNotExist" || t.S == "dkv/storage.ErrNotFound", "Checkpoint.Destroy", x.pos(), "another error is ignored")
			})
		})

	rule("ckpt.retain", "C01 C06 C08 C09 C13",
		"retaining ids keeps the listed checkpoints with these ids and the ones newer than all of them, and moves every other checkpoint to the ones to delete at the next save",
		func(c *Check) {
			g := c.full(cpList + ".RetainOnly")
			g.Inline = noInline("(*util/ds.Set).Has", noInline("util/ds.SetOf", g.Inline))
			q := c.q("CheckpointList.RetainOnly", g)
			isIDs := isParam("1")
			id := fieldIs(cf("ID"))
			idElem := func(t *Term) bool { return t.Op == "index" && isIDs(unslice(t.A[0])) }
			toPending := func(x X) bool {
				return x.argT(0).isFieldOf(pending) || c.P.storedInto(x.n.I.(*ssa.Call))[pending]
			}
			drop := and(collects(isCkptElem), toPending)
			keep := and(collects(isCkptElem), func(x X) bool { return !toPending(x) })
			has := either(func(t *Term) bool { return t.isCall("(*util/ds.Set).Has", "slices.Contains") }, func(t *Term) bool { return t.Op == "lookup" || t.Op == "extract" && t.A[0].Op == "lookup" })
			sc := func(h, v, newest int64) Asg {
				return both(truth(has, h), truth(id, v), truth(idElem, newest), truth(lenOf(isIDs), 2), accum(func(t *Term) bool { return id(t) || !is64(t) }, newest), callVal("slices.Max", newest))
			}
			for _, cs := range [][4]int64{{1, 5, 9, 1}, {1, 9, 9, 1}, {1, 9, 5, 1}, {0, 9, 5, 1}, {0, 5, 9, 0}, {0, 8, 9, 0}} {
				w := q.named(fmt.Sprintf("CheckpointList.RetainOnly/listed %d, id %d, newest retained %d", cs[0], cs[1], cs[2])).when(sc(cs[0], cs[1], cs[2]))
				if cs[3] == 1 {
					w.never(drop, "a retained or unfinished checkpoint is dropped")
					w.each(isCkpts, keep, "a retained or unfinished checkpoint is dropped")
				} else {
					w.never(keep, "an obsolete checkpoint is kept")
					w.each(isCkpts, drop, "an obsolete checkpoint's logs are never deleted")
				}
			}
			q.visits(call("(*util/ds.Set).Has", "slices.Contains"), func(x X) {
				c.expect(x.argT(1).isFieldOf(cf("ID")) && isCkptElem(x.argT(1).A[0]) && x.argT(0).Find(isIDs) != nil, "CheckpointList.RetainOnly", x.pos(), "it isn't the checkpoint's id that is looked up among the retained ones")
			})
			q.keepsMax(idElem, "", "the newest retained id")
			if len(q.sites(call("slices.Sort", "slices.SortFunc", "sort.Slice", "slices.Sorted"))) == 0 {
				oneID := func(t *Term) bool {
					if !idElem(t) || len(t.A) < 2 {
						return false
					}
					_, ok := evalTerm(t.A[1], lenAsg(isIDs, 4))
					return ok
				}
				q.visits(func(x X) bool {
					b, ok := x.n.I.(*ssa.BinOp)
					return ok && in(b.Op.String(), []string{"<", ">", "<=", ">="}) && x.n.R == nil && !x.n.After
				}, func(x X) {
					b := x.n.I.(*ssa.BinOp)
					for _, v := range []ssa.Value{b.X, b.Y} {
						o := b.X
						if v == b.X {
							o = b.Y
						}
						c.expect(!id(x.t(V{x.n.C, o})) || x.t(V{x.n.C, v}).Find(oneID) == nil || x.t(V{x.n.C, v}).Op == "phi" || strings.Contains(x.t(V{x.n.C, v}).Op, "loop"), "CheckpointList.RetainOnly/newest", x.pos(), "checkpoints are compared with one of the retained ids, which are in no order, instead of the newest")
					}
				})
			}
			st := store(ckpts)
			q.mustPass(st, exit, "the list isn't updated")
			q.all(st, func(x X) bool {
				t := x.t(x.stored())
				return !isCkpts(t) && t.Op != "const" && !t.Find2(fieldIs(pending))
			}, "the list isn't the retained checkpoints")
			q.visits(store(pending), func(x X) {
				t := x.t(x.stored())
				c.expect(!t.isCall("builtin.append") || t.A[0].isFieldOf(pending), "CheckpointList.RetainOnly", x.pos(), "checkpoints dropped earlier are forgotten")
			})
			q.locked(mu(c), unlocked, "concurrent changes of the list get lost", func(h int, x X) string {
				if m := lockedAccess(ckpts)(h, x); m != "" {
					return m
				}
				return lockedAccess(pending)(h, x)
			})
			q.oneSection(mu(c), load(ckpts), st, "a checkpoint added in between is lost")
			// the kept checkpoints start from an empty list of their own
			q.visits(keep, func(x X) {
				t := x.argT(0)
				for t.isCall("builtin.append") {
					t = t.A[0]
				}
				c.expect(!isCkpts(t), "CheckpointList.RetainOnly", x.pos(), "checkpoints are added to the list they are taken from")
			})
		})

	rule("ckpt.includes", "C09",
		"a checkpoint list needs a table iff one of its checkpoints refers to the table's file",
		func(c *Check) {
			g := c.full(cpList + ".IncludesTable")
			g.Inline = noInline(ckptT+".IncludesTable", g.Inline)
			q := c.q("CheckpointList.IncludesTable", g)
			inc := call(ckptT + ".IncludesTable")
			q.all(inc, func(x X) bool { return x.argT(1).String() == "p1" && isCkptElem(x.argT(0)) }, "another file or list is looked up")
			yes := q.named("CheckpointList.IncludesTable/in one").when(both(callVal(ckptT+".IncludesTable", 1), truth(lenOf(isCkpts), 2)))
			yes.all(exit, func(x X) bool {
				v, ok := x.val(x.result(0), callVal(ckptT+".IncludesTable", 1))
				return !ok || v == 1
			}, "a table of a retained checkpoint is reported as unneeded")
			no := q.named("CheckpointList.IncludesTable/in none").when(callVal(ckptT+".IncludesTable", 0))
			no.each(isCkpts, inc, "a checkpoint isn't asked")
			no.all(exit, func(x X) bool {
				v, ok := x.val(x.result(0), callVal(ckptT+".IncludesTable", 0))
				return !ok || v == 0
			}, "a table no checkpoint refers to is reported as needed")
			q.locked(mu(c), unlocked, "the list is read while it changes", lockedAccess(ckpts))
			h := c.full(ckptT + ".IncludesTable")
			for _, v := range []int64{0, 1} {
				asg := truth(func(t *Term) bool {
					return t.Op == "extract" && t.S == "1" && t.A[0].Op == "lookup" && t.A[0].A[0].isField("tableURIset") && t.A[0].A[1].String() == "p1"
				}, v)
				c.q(fmt.Sprintf("Checkpoint.IncludesTable/%d", v), h).all(exit, func(x X) bool {
					w, ok := x.val(x.result(0), asg)
					return ok && w == v
				}, "the answer isn't whether the file is among the checkpoint's")
			}
		})

	rule("ckpt.document", "C01 C06 C08 C09 C14",
		"a checkpoint's document has its id, sequence number, tables and logs, and a checkpoint restored from it has the same; replaying reads every log from its start marker on, and new logs get an unused id",
		func(c *Check) {
			for _, t := range []string{"dkv/recovery.checkpointDocument", "dkv/recovery.checkpointListDocument", "dkv/wal.HandleDocument", "dkv/sst.TableDocument"} {
				c.jsonFields(t)
			}
			d := c.full(ckptT + ".Document")
			d.Inline = noInline("(dkv/wal.Handle).Document", noInline("(*dkv/sst.LevelList).Document", d.Inline))
			q := c.q("Checkpoint.Document", d)
			recv := func(f string) func(*Term) bool {
				return func(t *Term) bool { return t.isField(f) && t.A[0].String() == "p0" }
			}
			from := map[string]func(*Term) bool{
				"ID": recv("ID"), "LastSeqNum": recv("LastSeqNum"),
				"Levels": func(t *Term) bool { return t.isCall("(*dkv/sst.LevelList).Document") && recv("Levels")(t.A[0]) },
			}
			for _, f := range names(from) {
				q.mustPass(store(df(f)), exit, "the document lacks the "+f)
				q.all(store(df(f)), func(x X) bool { return from[f](stripConv(x.t(x.stored()))) }, "the document has another "+f)
			}
			isWals := fieldIs(cf("WALs"))
			hd := func(t *Term) bool {
				return t.isCall("(dkv/wal.Handle).Document")
			}
			q.each(isWals, call("(dkv/wal.Handle).Document"), "a log is missing from the document")
			q.follow(isCallEv("(dkv/wal.Handle).Document"), or(collects(hd), setsElem(hd)), exit, "a log is missing from the document")

			n := c.full("dkv/recovery.newCheckpointFromDocument")
			n.Inline = noInline("dkv/wal.NewHandle", noInline("dkv/sst.NewLevelListFromDocument", n.Inline))
			w := c.q("newCheckpointFromDocument", n)
			docf := func(f string) func(*Term) bool {
				return func(t *Term) bool { return t.isField(f) && t.A[0].String() == "p2" }
			}
			nh := func(t *Term) bool { return t.isCall("dkv/wal.NewHandle") }
			to := map[string]func(*Term) bool{
				"ID": docf("ID"), "LastSeqNum": docf("LastSeqNum"),
				"Levels": func(t *Term) bool {
					return t.isCall("dkv/sst.NewLevelListFromDocument") && t.A[0].String() == "p0" && t.A[1].String() == "p1" && docf("Levels")(t.A[2])
				},
			}
			for _, f := range names(to) {
				w.mustPass(store(cf(f)), exit, "the "+f+" isn't restored")
				w.all(store(cf(f)), func(x X) bool { return to[f](stripConv(x.t(x.stored()))) }, "the "+f+" isn't the document's")
			}
			w.need(store(cf("WALs")), "restored logs")
			docWals := docf("WALs")
			w.each(docWals, call("dkv/wal.NewHandle"), "a log isn't restored")
			w.all(call("dkv/wal.NewHandle"), func(x X) bool {
				return x.argT(0).String() == "p0" && x.argT(1).Find(docWals) != nil
			}, "a log isn't restored from its entry")
			w.follow(isCallEv("dkv/wal.NewHandle"), or(setsElem(nh), collects(nh)), exit, "a log isn't restored")
			w.keepsOrder("newCheckpointFromDocument/order", nh, func(t *Term) *Term { return t.A[1] }, "a log is restored at another position")
			w.all(store(cf("WALs")), func(x X) bool { t := x.t(x.stored()); return t.Op != "const" }, "the logs aren't restored")
			docTables := func(t *Term) bool { return t.Op == "index" && docf("Levels")(unslice(t.A[0])) }
			c.uriSet(w, docTables, func(t *Term) bool { return t.isField("URI") })
			w.named("newCheckpointFromDocument/levels").coversAll(docf("Levels"), "a level's files aren't recorded")

			// replay
			s := c.full(ckptT + ".WALSeq")
			s.Inline = noInline("dkv/wal.NewReader", noInline("util/iteru.Concat2", noInline("(*dkv/wal.Reader).All", s.Inline)))
			sq := c.q("Checkpoint.WALSeq", s)
			rd := call("dkv/wal.NewReader")
			of := func(x X) bool { return hasSuffix(x.argT(0).String(), "p1") && x.argT(1).Find(isWals) != nil }
			if len(sq.sites(rd)) == 0 {
				// the iterator opens the logs one by one
				if b := c.seqBodyOf(ckptT+".WALSeq", "Checkpoint.WALSeq"); b != nil {
					b.Inline = noInline("dkv/wal.NewReader", noInline("(*dkv/wal.Reader).All", b.Inline))
					bq := c.q("Checkpoint.WALSeq iterator", b)
					bq.each(isWals, rd, "a log isn't replayed")
					bq.all(rd, of, "another log is replayed")
					bq.follow(rd, call("(*dkv/wal.Reader).All"), exit, "a log isn't replayed")
				}
			} else {
				sq.each(isWals, rd, "a log isn't replayed")
				sq.all(rd, of, "another log is replayed")
				all := func(t *Term) bool { return t.isCall("(*dkv/wal.Reader).All") && t.A[0].isCall("dkv/wal.NewReader") }
				sq.follow(isCallEv("dkv/wal.NewReader"), or(setsElem(all), collects(all), and(isYield, func(x X) bool { return true })), exit, "a log isn't replayed")
				sq.keepsOrder("Checkpoint.WALSeq/order", all, func(t *Term) *Term { return t.A[0].A[1] }, "logs are replayed in another order")
				if len(sq.sites(call("util/iteru.Concat2"))) > 0 {
					sq.all(exit, func(x X) bool { return x.t(x.result(0)).isCall("util/iteru.Concat2") }, "the logs aren't replayed one after another")
				}
			}
			// ids
			i := c.full(ckptT + ".NextWALID")
			iq := c.q("Checkpoint.NextWALID", i)
			hid := fieldIs("dkv/wal.Handle.ID")
			off := iq.keepsMaxPlus(hid, "", "the highest log id", 0, 1)
			iq.coversAll(isWals, "a log's id isn't considered")
			iq.all(exit, func(x X) bool {
				t := x.t(x.result(0))
				v, ok := evalTerm(t, both(accum(func(u *Term) bool { return false }, 7), roles(role{hid, 7})))
				return !ok || v > 7-off || t.Op == "const" && v > 0 || t.Op == "bin" && len(t.A) == 2 && t.A[0].Op == "const" && t.A[1].Op == "const" && v > 0
			}, "a new log gets the id of an existing one and overwrites it")
		})

	rule("ckpt.load", "C01 C06 C08 C09 C13 C14",
		"restoring reads the checkpoints file of every handle and takes the checkpoint with the handle's id from it; any failure is reported; the list then holds the merge of them all",
		func(c *Check) {
			g := c.full("dkv/recovery.LoadCheckpointList")
			for _, n := range []string{"dkv/recovery.mergeCheckpointDocuments", "dkv/recovery.newCheckpointFromDocument", "util/sliceu.UniqueFunc"} {
				if c.P.lookup(n) != nil {
					g.Inline = noInline(n, g.Inline)
				}
			}
			q := c.q("LoadCheckpointList", g)
			isH := isParam("2")
			some := q.when(both(truth(lenOf(isH), 2), truth(lenOf(func(t *Term) bool { return t.isCall("util/sliceu.UniqueFunc") }), 1)))
			open := call(fsOpen)
			some.each(isH, open, "a handle's file isn't read")
			hf := func(f string) func(*Term) bool {
				return func(t *Term) bool {
					return t.isField(f) && t.A[0].Find(isH) != nil
				}
			}
			some.all(open, func(x X) bool { return x.argT(0).String() == "p0" && hf("URI")(x.argT(1)) }, "another file is read")
			some.all(call("encoding/json.Unmarshal"), func(x X) bool { return x.argT(0).hasCall("io.ReadAll", "dkv/storage.ReadAll") }, "something other than the file's content is parsed")
			for _, e := range []struct {
				call string
				i    int
			}{{"io.ReadAll", 1}, {"dkv/storage.ReadAll", 1}, {"encoding/json.Unmarshal", 0}} {
				if len(some.sites(call(e.call))) == 0 {
					continue
				}
				q.named("LoadCheckpointList/failed "+e.call).when(errCase(e.call, e.i, 1, nil)).neverAfter(call(e.call), nilErrExit, "a checkpoint that couldn't be read is left out")
			}
			// the right checkpoint of the file
			find := call("slices.IndexFunc")
			if len(some.sites(find)) > 0 {
				some.all(find, func(x X) bool { return x.argT(0).isField("Checkpoints") }, "another list is searched")
				if h := some.fnArg(find, 1); h != nil {
					id := fieldIs(df("ID"))
					hid := fieldIs("dkv/recovery.CheckpointHandle.CheckpointID")
					for _, cs := range [][2]int64{{3, 3}, {3, 4}, {4, 3}} {
						asg := roles(role{id, cs[0]}, role{hid, cs[1]})
						c.q(fmt.Sprintf("LoadCheckpointList/checkpoint %d for %d", cs[0], cs[1]), h).when(asg).all(exit, func(x X) bool {
							v, ok := x.val(x.result(0), asg)
							return !ok || (v == 1) == (cs[0] == cs[1])
						}, "another checkpoint of the file is restored")
					}
				}
				found := truth(func(t *Term) bool { return t.isCall("slices.IndexFunc") }, 2)
				w := some.named("LoadCheckpointList/found at 2").when(both(found, truth(lenOf(isH), 2), truth(lenOf(func(t *Term) bool { return t.isCall("util/sliceu.UniqueFunc") }), 1)))
				take := func(t *Term) bool {
					if t.Op != "index" || !t.A[0].isField("Checkpoints") {
						return false
					}
					v, ok := evalTerm(t.A[1], found)
					return !ok || v == 2
				}
				w.follow(find, or(setsElem(take), collects(take)), or(exit, open), "the handle's checkpoint isn't taken")
				miss := truth(func(t *Term) bool { return t.isCall("slices.IndexFunc") }, -1)
				q.named("LoadCheckpointList/not in the file").when(miss).neverAfter(find, nilErrExit, "a checkpoint missing from its file is left out")
				idx, fixed := map[string]bool{}, false
				if w.visits(setsElem(take), func(x X) {
					t := x.t(V{x.n.C, x.n.I.(*ssa.Store).Addr.(*ssa.IndexAddr).Index})
					idx[t.String()], fixed = true, t.Op == "const"
				}) > 0 {
					c.expect(len(idx) > 1 || !fixed, "LoadCheckpointList", g.Root.Fn.Pos(), "only one checkpoint is taken")
				}
			}
			// the result
			mk := "dkv/recovery.newCheckpointFromDocument"
			some.all(call(mk), func(x X) bool { return x.argT(0).String() == "p0" && x.argT(1).String() == "p1" }, "the checkpoint isn't restored with the given file system and ownership")
			if len(some.sites(call("dkv/recovery.mergeCheckpointDocuments"))) > 0 {
				some.all(call(mk), func(x X) bool { return x.argT(2).hasCall("dkv/recovery.mergeCheckpointDocuments") }, "something other than the merged checkpoint is restored")
			}
			some.mustPass(and(store(ckpts), func(x X) bool {
				return x.within(x.t(x.stored()), func(t *Term) bool { return t.isCall(mk) })
			}), nilErrExit, "the restored checkpoint isn't listed")
			none := q.named("LoadCheckpointList/no handles").when(truth(lenOf(isH), 0))
			none.all(exit, func(x X) bool {
				a, _ := g.eval(x.e, x.result(1))
				return a.k == 'n'
			}, "a new database fails to open")
			none.never(and(store(ckpts), func(x X) bool { return x.t(x.stored()).Op != "const" }), "a new database lists a checkpoint")
		})

	rule("ckpt.merge", "C01 C06 C08 C09",
		"the merge of several instances' checkpoints has every log and every table of each of them once, with all tables in level 0, and the highest sequence number",
		func(c *Check) {
			if c.P.lookup("dkv/recovery.mergeCheckpointDocuments") == nil {
				c.soft("mergeCheckpointDocuments", "no such function")
				return
			}
			g := c.full("dkv/recovery.mergeCheckpointDocuments")
			g.Inline = noInline("(*util/ds.Set).Has", noInline("(*util/ds.Set).Add", g.Inline))
			q := c.q("mergeCheckpointDocuments", g)
			docs := isParam("0")
			one := q.named("mergeCheckpointDocuments/one").when(truth(lenOf(docs), 1))
			one.all(exit, func(x X) bool {
				t := x.t(x.result(0))
				return t.Op != "index" || docs(t.A[0]) && t.A[1].String() == "0"
			}, "another checkpoint is restored")
			sc := func(seen int64) Asg {
				return both(truth(lenOf(docs), 2), callVal("(*util/ds.Set).Has", seen), truth(func(t *Term) bool {
					return t.Op == "extract" && t.S == "1" && t.A[0].Op == "lookup" || t.Op == "lookup" && isBool(t)
				}, seen))
			}
			fresh, dup := q.named("mergeCheckpointDocuments/several").when(sc(0)), q.named("mergeCheckpointDocuments/shared file").when(sc(1))
			isDoc := func(t *Term) bool { return t.Op == "index" && docs(unslice(t.A[0])) }
			walsOf := func(t *Term) bool { return t.isField("WALs") && isDoc(t.A[0]) }
			levelsOf := func(t *Term) bool { return t.isField("Levels") && isDoc(t.A[0]) }
			tablesOf := func(t *Term) bool {
				return t.Op == "index" && levelsOf(unslice(t.A[0])) || t.isCall("slices.Concat") && levelsOf(t.A[0])
			}
			wal := collects(func(t *Term) bool { return t.Op == "index" && walsOf(unslice(t.A[0])) })
			tab := collects(func(t *Term) bool { return t.Op == "index" && tablesOf(unslice(t.A[0])) })
			fresh.each(walsOf, or(wal, collects(walsOf)), "a log is lost")
			fresh.each(tablesOf, or(tab, collects(tablesOf)), "a table is lost")
			fresh.coversAll(levelsOf, "a level's tables are lost")
			fresh.coversAll(docs, "an instance's checkpoint is lost")
			for _, e := range []struct {
				ev  Ev
				why string
			}{{wal, "a log shared by the instances is replayed twice"}, {tab, "a table shared by the instances is listed twice"}} {
				if len(q.sites(call("(*util/ds.Set).Has"))) > 0 || len(q.sites(func(x X) bool { _, ok := x.n.I.(*ssa.Lookup); return ok })) > 0 {
					dup.never(e.ev, e.why)
				}
			}
			dup.coversAll(walsOf, "logs following a shared one are lost")
			dup.coversAll(tablesOf, "tables following a shared one are lost")
			dup.coversAll(levelsOf, "levels following a shared table are lost")
			dup.coversAll(docs, "instances following a shared file are lost")
			// a file added is marked as seen after it was found not to be
			if has := call("(*util/ds.Set).Has"); len(q.sites(has)) > 0 {
				of := func(p func(*Term) bool, ev Ev) Ev {
					return and(ev, func(x X) bool { return x.within(x.argT(1), func(t *Term) bool { return t.Find(p) != nil }) })
				}
				p2 := func(p func(*Term) bool) func(*Term) bool {
					return func(t *Term) bool { return p(t) || t.Op == "index" && p(unslice(t.A[0])) }
				}
				for _, p := range []func(*Term) bool{walsOf, levelsOf} {
					mark := of(p, call("(*util/ds.Set).Add"))
					fresh.follow(of(p, has), mark, or(exit, of(p, has)), "a file that is added isn't marked as seen: it is added again")
					fresh.notBetween(mark, of(p, has), elemLoad(p2(p)), "a file is marked as seen before that is examined: it is left out")
				}
			}
			// a file is marked as seen under its own URI
			q.visits(call("(*util/ds.Set).Has"), func(x X) {
				c.expect(x.argT(1).isField("URI"), q.name, x.pos(), "files are told apart by something other than their URI")
			})
			kind := func(t *Term) string {
				switch {
				case t.Find(walsOf) != nil:
					return "logs"
				case t.Find(levelsOf) != nil:
					return "tables"
				}
				return ""
			}
			sets := map[string]string{}
			q.visits(call("(*util/ds.Set).Has"), func(x X) {
				k := kind(x.argT(1))
				if old, ok := sets[k]; ok && old != vid(x.argT(0).V) {
					return
				}
				sets[k] = vid(x.argT(0).V)
			})
			fresh.visits(call("(*util/ds.Set).Add"), func(x X) {
				var k string
				x.within(x.argT(1), func(t *Term) bool {
					if t.isField("URI") {
						k = kind(t)
					}
					return false
				})
				if k == "" {
					return
				}
				c.expect(sets[k] == "" || sets[k] == vid(x.argT(0).V), q.name, x.pos(), "a %s file is marked as seen elsewhere than it is looked up", k)
			})
			seq := fieldIs(df("LastSeqNum"))
			fresh.keepsMax(func(t *Term) bool { return seq(t) && isDoc(t.A[0]) }, df("LastSeqNum"), "the sequence number of the merged checkpoint")
			q.when(sc(0)).mustPass(store(df("ID")), exit, "the merged checkpoint has no id")
			q.all(store(df("ID")), func(x X) bool { return x.t(x.stored()).isField("ID") && isDoc(x.t(x.stored()).A[0]) }, "the merged checkpoint has another id")
			// all tables are in level 0 and there is a level 0
			lv := store(df("Levels"))
			fresh.mustPass(lv, exit, "the merged checkpoint has no tables")
			q.visits(func(x X) bool {
				s, ok := x.n.I.(*ssa.Store)
				if !ok || x.n.R != nil {
					return false
				}
				ia, ok := s.Addr.(*ssa.IndexAddr)
				return ok && isTableDocs(s.Val.Type()) && !levelsOf(x.t(V{x.n.C, ia.X}))
			}, func(x X) {
				v, ok := x.val(V{x.n.C, x.n.I.(*ssa.Store).Addr.(*ssa.IndexAddr).Index}, nil)
				c.expect(ok && v == 0, q.name, x.pos(), "tables of different instances overlap but aren't in level 0")
			})
			fresh.follow(tab, or(func(x X) bool {
				s, ok := x.n.I.(*ssa.Store)
				if !ok || x.n.R != nil || !isTableDocs(s.Val.Type()) {
					return false
				}
				_, ok = s.Addr.(*ssa.IndexAddr)
				return ok
			}, func(x X) bool { return lv(x) && x.t(x.stored()).Op != "make" }), exit, "the tables are dropped")
			q.keepsMax(func(t *Term) bool { return t.isCall("builtin.len") && levelsOf(t.A[0]) }, "", "the number of levels of the merged checkpoint")
			q.visits(and(lv, func(x X) bool { return x.t(x.stored()).Op == "make" }), func(x X) {
				v, ok := evalTerm(x.t(x.stored()).A[0], accum(func(*Term) bool { return false }, 6))
				c.expect(!ok || v >= 6 || v >= 1 && x.t(x.stored()).A[0].Op == "const", q.name, x.pos(), "the merged checkpoint has %d levels instead of 6", v)
			})
		})

	rule("ckpt.files", "C14",
		"the files listed for a checkpoint are all its logs and all its tables, of the checkpoint with the given id (or the last one); unreadable lists are an error",
		func(c *Check) {
			g := c.full("(dkv/recovery.checkpointDocument).files")
			q := c.q("checkpointDocument.files", g)
			uri := func(of func(*Term) bool) func(*Term) bool {
				return func(t *Term) bool { return t.isField("URI") && t.A[0].Op == "index" && of(unslice(t.A[0].A[0])) }
			}
			recv := func(f string) func(*Term) bool {
				return func(t *Term) bool { return t.isField(f) && t.A[0].String() == "p0" }
			}
			tables := func(t *Term) bool {
				return t.Op == "index" && recv("Levels")(unslice(t.A[0])) || t.isCall("slices.Concat") && recv("Levels")(t.A[0])
			}
			q.each(recv("WALs"), or(collects(uri(recv("WALs"))), setsElem(uri(recv("WALs")))), "a log isn't listed")
			q.each(tables, or(collects(uri(tables)), setsElem(uri(tables))), "a table isn't listed")
			q.coversAll(recv("Levels"), "a level's tables aren't listed")
			q.all(exit, func(x X) bool { t := x.t(x.result(0)); return t.Op != "const" }, "nothing is listed")
			l := c.full("dkv/recovery.ListCheckpointFiles")
			l.Inline = noInline("(dkv/recovery.checkpointDocument).files", l.Inline)
			lq := c.q("ListCheckpointFiles", l)
			find := call("slices.IndexFunc")
			if h := lq.fnArg(find, 1); h != nil {
				id := fieldIs(df("ID"))
				want := func(t *Term) bool { return hasSuffix(t.String(), "p1") && t.Op == "param" }
				for _, cs := range [][2]int64{{3, 3}, {3, 4}, {4, 3}} {
					asg := roles(role{id, cs[0]}, role{want, cs[1]})
					c.q(fmt.Sprintf("ListCheckpointFiles/checkpoint %d for %d", cs[0], cs[1]), h).when(asg).all(exit, func(x X) bool {
						v, ok := x.val(x.result(0), asg)
						return !ok || (v == 1) == (cs[0] == cs[1])
					}, "the files of another checkpoint are listed")
				}
			}
			at := func(v int64) Asg { return truth(func(t *Term) bool { return t.isCall("slices.IndexFunc") }, v) }
			if len(lq.sites(find)) > 0 {
				lq.when(at(-1)).named("ListCheckpointFiles/not in the file").neverAfter(find, nilErrExit, "a checkpoint missing from its file has no files")
				lq.when(at(2)).named("ListCheckpointFiles/found").all(call("(dkv/recovery.checkpointDocument).files"), func(x X) bool {
					t := x.argT(0)
					if t.Op != "index" {
						return true
					}
					v, ok := evalTerm(t.A[1], at(2))
					return !ok || v == 2
				}, "the files of another checkpoint are listed")
			}
			lq.mustPass(call("(dkv/recovery.checkpointDocument).files"), nilErrExit, "no files are listed")
			for _, e := range []struct {
				call string
				i    int
			}{{"io.ReadAll", 1}, {"encoding/json.Unmarshal", 0}} {
				if len(lq.sites(call(e.call))) > 0 {
					lq.named("ListCheckpointFiles/failed "+e.call).when(errCase(e.call, e.i, 1, nil)).neverAfter(call(e.call), nilErrExit, "files of a checkpoint that can't be read are left out")
				}
			}
			a := c.full("dkv/recovery.ListFiles")
			a.Inline = noInline("(dkv/recovery.checkpointDocument).files", a.Inline)
			aq := c.q("ListFiles", a)
			isL := func(t *Term) bool { return t.isField("Checkpoints") }
			aq.all(call("(dkv/recovery.checkpointDocument).files"), func(x X) bool {
				t := x.argT(0)
				if t.Op != "index" {
					return true
				}
				v, ok := evalTerm(t.A[1], lenAsg(isL, 4))
				return !ok || v == 3
			}, "the files of another checkpoint than the latest are listed")
		})
}

func isTableDocs(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && typeName(s.Elem()) == "dkv/sst.TableDocument"
}

func is64(t *Term) bool {
	if t.V.X == nil {
		return false
	}
	b, ok := t.V.X.Type().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint64
}

// Find2 reports whether the term contains a match.
func (t *Term) Find2(p func(*Term) bool) bool { return t.Find(p) != nil }

// constStr is the value of a string constant.
func (t *Term) constStr() (string, bool) {
	if t.Op == "const" && len(t.S) >= 2 && t.S[0] == '"' {
		return t.S[1 : len(t.S)-1], true
	}
	return "", false
}

// isCallEv matches the return of a call.
func isCallEv(names ...string) Ev { return call(names...) }

// uriSet: the set of files a checkpoint refers to gets the file of every table.
func (c *Check) uriSet(q *Q, tables, isURI func(*Term) bool) {
	field := "dkv/recovery.Checkpoint.tableURIset"
	set := func(x X) bool {
		m, ok := x.n.I.(*ssa.MapUpdate)
		return ok && x.n.R == nil && isURI(x.t(V{x.n.C, m.Key}))
	}
	q.each(tables, set, "a table's file isn't recorded: neighbors asking for it are told it isn't needed")
	q.mustPass(store(field), exit, "the files aren't recorded")
	q.all(store(field), func(x X) bool { return x.t(x.stored()).Op != "const" }, "the files aren't recorded")
}

func names[T any](m map[string]T) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

func vid(v V) string {
	if v.X == nil {
		return ""
	}
	return fmt.Sprintf("%p/%s", v.C, v.X.Name())
}

func isBool(t *Term) bool {
	if t.V.X == nil {
		return false
	}
	b, ok := t.V.X.Type().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
