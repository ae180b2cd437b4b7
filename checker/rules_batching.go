package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Event batching, the reordering fetcher and its timers.

// mutexOf names the mutex field of a struct type: the preferred name if it exists, otherwise the only
// mutex there is.
func (c *Check) mutexOf(typ, prefer string) string {
	for _, pk := range c.P.Pkgs {
		for _, n := range pk.Scope().Names() {
			t, ok := pk.Scope().Lookup(n).(*types.TypeName)
			if !ok || typeName(t.Type()) != typ {
				continue
			}
			st := structOf(t.Type())
			if st == nil {
				continue
			}
			first := ""
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				switch short(f.Type()) {
				case "sync.Mutex", "sync.RWMutex", "*sync.Mutex", "*sync.RWMutex":
					if f.Name() == prefer {
						return typ + "." + prefer
					}
					if first == "" {
						first = f.Name()
					}
				}
			}
			if first != "" {
				return typ + "." + first
			}
		}
	}
	return typ + "." + prefer
}

// mapKey and mapVal are the key and the value of a map update.
func (x X) mapKey() *Term {
	if s, ok := x.n.I.(*ssa.MapUpdate); ok {
		return x.t(V{x.n.C, s.Key})
	}
	return x.argT(1) // delete(m, k)
}

func (x X) mapVal() *Term {
	s, ok := x.n.I.(*ssa.MapUpdate)
	if !ok {
		return &Term{Op: "const", S: "_"}
	}
	return x.t(V{x.n.C, s.Value})
}

// sent is the value sent on a channel.
func (x X) sent(field string) *Term {
	switch s := x.n.I.(type) {
	case *ssa.Send:
		return x.t(V{x.n.C, s.X})
	case *ssa.Select:
		for _, st := range s.States {
			if st.Dir == types.SendOnly && (field == "" || x.containerField(st.Chan) == field) {
				return x.t(V{x.n.C, st.Send})
			}
		}
	}
	return &Term{Op: "const", S: "_"}
}

// isGo matches starting a goroutine.
func isGo(x X) bool { _, ok := x.n.I.(*ssa.Go); return ok && !x.n.After && x.n.R == nil }

// emptyNew: a collection without elements that shares no storage with an existing one.
func emptyNew(t *Term) (empty, known bool) {
	switch {
	case t.Op == "const":
		return true, true
	case t.Op == "make":
		v, ok := evalTerm(t.A[0], nil)
		return v == 0, ok
	case t.Op == "slice":
		u := unslice(t)
		if u.Op == "alloc" { // constant-size make
			v, ok := evalTerm(t.A[2], nil)
			return v == 0 && ok, ok
		}
		return false, true
	case t.Op == "field":
		return false, true
	case t.Op == "alloc":
		return true, false
	}
	return false, false
}

// runsGiven: AfterFunc's function calls the one given to Set exactly once, on every path.
func runsGiven(c *Check, x X) bool {
	h := c.rootAt(x.g, x.arg(1))
	if h == nil {
		return false
	}
	given := callOf(func(t *Term) bool { return t.String() == "p2" })
	fs := c.q("SystemTimer.Set", h).walk(0, func(n int, y X) (int, bool, string) {
		if given(y) {
			n++
		}
		if exit(y) && n != 1 {
			return n, true, "not once"
		}
		return min(n, 2), true, ""
	})
	return len(fs) == 0
}

// freshCopy: a copy of a slice in storage of its own.
func freshCopy(t *Term) bool {
	switch t.S {
	case "slices.Clone":
		return t.Op == "call"
	case "builtin.append":
		if t.Op != "call" || len(t.A) == 0 {
			return false
		}
		e, known := emptyNew(t.A[0])
		return e && known
	}
	return false
}

func init() {
	const bt = "batching.EventBatcher"
	bf := func(f string) string { return bt + "." + f }
	bm := func(m string) string { return "(*" + bt + ")." + m }
	const rb = "batching.ReorderBuffer"
	rbf := func(f string) string { return rb + "." + f }
	const rf = "batching.ReorderFetcher"
	rff := func(f string) string { return rf + "." + f }

	rule("batch.add", "C02 C04 C20",
		"an added event is appended to the batch, and every new batch gets a time-out that reports the token the batch has when it is started",
		func(c *Check) {
			mu := c.mutexOf(bt, "mu")
			g := c.full(bm("Add"))
			q := c.q("EventBatcher.Add", g)
			isBatch := fieldIs(bf("batch"))
			st := store(bf("batch"))
			appends := func(x X) bool {
				t := x.t(x.stored())
				return t.isCall("builtin.append") && isBatch(t.A[0]) && x.within(t.A[1], isParam("1"))
			}
			q.mustPass(and(st, appends), exit, "the event isn't added to the batch")
			q.all(st, func(x X) bool { t := x.t(x.stored()); return !t.isCall("builtin.append") || isBatch(t.A[0]) }, "the events batched so far are lost")
			q.neverAfter(and(st, appends), and(st, appends), "the event is added twice")
			q.locked(mu, unlocked, "concurrent events or flushes get lost", lockedAccess(bf("batch")))
			set := call("(clocks.Timer).Set")
			fresh := q.when(both(roles(role{lenOf(isBatch), 0}, role{fieldIs(bf("maxDelay")), 5})))
			fresh.mustPass(set, exit, "a new batch gets no time-out: its events wait until the batch is full")
			q.all(set, func(x X) bool { return x.argT(1).isFieldOf(bf("maxDelay")) }, "the time-out isn't the configured delay")
			if h := q.fnArg(set, 2); h != nil {
				w := c.q("EventBatcher.Add/time-out", h)
				out := send(bf("BatchTimedOut"))
				live := w.without(func(x X, a Atom) bool { return false })
				live.all(out, func(x X) bool {
					t := x.sent(bf("BatchTimedOut"))
					// the token of the moment the batch was started, not of the moment it times out
					return !load(bf("batchToken"))(X{x.g, N{C: x.n.C, I: asInstr(t.V.X)}, x.e}) || t.V.C != h.Root
				}, "the time-out reports the token of the batch current when it fires, which may be a later one")
				w.need(out, "report of the time-out")
				w.all(out, func(x X) bool {
					t := x.sent(bf("BatchTimedOut"))
					return t.Op != "const" && t.Op != "global"
				}, "the time-out reports something other than its batch's token")
				// unless the context is done, the time-out is reported
				w.when(func(t *Term) (int64, bool) {
					if t.Op == "extract" && t.S == "0" {
						if _, ok := t.A[0].V.X.(*ssa.Select); ok {
							return 1, true
						}
					}
					if t.Op == "alloc" && len(t.S) > 7 && t.S[:7] == "select@" {
						return 1, true
					}
					return 0, false
				})
			} else {
				c.soft("EventBatcher.Add/time-out", "the callback isn't a function literal")
			}
			// the token is read in Add, under the lock
			q.visits(set, func(x X) {
				c.expect(len(q.sites(load(bf("batchToken")))) > 0, "EventBatcher.Add/token", x.pos(), "the batch's token isn't taken when its time-out is set")
			})
			f := c.full(bm("IsFull"))
			fq := c.q("EventBatcher.IsFull", f)
			for _, cs := range [][3]int64{{3, 3, 1}, {4, 3, 1}, {1, 3, 0}, {2, 3, 0}} {
				asg := both(roles(role{lenOf(isBatch), cs[0]}, role{fieldIs(bf("maxSize")), cs[1]}))
				fq.when(asg).all(exit, func(x X) bool {
					v, ok := x.val(x.result(0), asg)
					if !ok {
						a, _ := f.eval(x.e, x.result(0))
						return a.k != 't' && a.k != 'f' || (a.k == 't') == (cs[2] == 1)
					}
					return v == cs[2]
				}, fmt.Sprintf("a batch of %d events with maximum %d", cs[0], cs[1]))
			}
			fq.locked(mu, unlocked, "the batch is read while it changes", lockedAccess(bf("batch")))
		})

	rule("batch.flush", "C02 C04 C20",
		"a flush hands out the whole current batch once: it starts a new batch that shares no storage with it and gives it another token; a token of an earlier batch flushes nothing",
		func(c *Check) {
			mu := c.mutexOf(bt, "mu")
			g := c.full(bm("Flush"))
			isBatch := fieldIs(bf("batch"))
			isTok := fieldIs(bf("batchToken"))
			cur := func(t *Term) bool { return t.Op == "global" && t.S == "batching.CurrentBatch" }
			sc := func(n, arg, tok int64) Asg {
				return roles(role{lenOf(isBatch), n}, role{isParam("1"), arg}, role{isTok, tok}, role{cur, -1})
			}
			st := store(bf("batch"))
			q := c.q("EventBatcher.Flush", g)
			q.locked(mu, unlocked, "concurrent events or flushes get lost or are handed out twice", func(h int, x X) string {
				if m := lockedAccess(bf("batch"))(h, x); m != "" {
					return m
				}
				return lockedAccess(bf("batchToken"))(h, x)
			})
			c.q("EventBatcher.Flush", g).oneSection(mu, load(bf("batch")), st, "events added in between are lost")
			for _, cs := range []struct {
				name     string
				arg, tok int64
			}{{"current batch", -1, 3}, {"its own time-out", 3, 3}, {"its own time-out, first batch", 0, 0}} {
				w := q.named("EventBatcher.Flush/" + cs.name).when(sc(2, cs.arg, cs.tok))
				w.mustPass(st, exit, "the batch handed out stays current and is handed out again")
				w.mustPass(store(bf("batchToken")), exit, "the next batch has the same token: the time-out of the flushed batch flushes it")
				w.all(exit, func(x X) bool {
					r := x.t(x.result(0))
					return !(r.Op == "const" || r.Op == "slice" || r.Op == "make")
				}, "the batch's events aren't handed out in full")
			}
			copied := true // what's handed out shares no storage with the batch
			q.visits(exit, func(x X) {
				if r := x.t(x.result(0)); r.Op != "const" && !freshCopy(r) {
					copied = false
				}
			})
			q.all(st, func(x X) bool {
				t := x.t(x.stored())
				if t.Op == "slice" && copied && (t.A[1].S == "" || t.A[1].S == "0") {
					v, ok := evalTerm(t.A[2], nil)
					return ok && v == 0
				}
				e, known := emptyNew(t)
				return e || !known
			}, "the new batch isn't empty, or shares storage with the one handed out")
			q.when(sc(2, -1, 3)).all(store(bf("batchToken")), func(x X) bool {
				v, ok := x.val(x.stored(), sc(2, -1, 3))
				return !ok || v > 3
			}, "the next batch gets a token that was already used")
			for _, cs := range [][2]int64{{2, 3}, {0, 3}, {4, 3}} {
				w := q.named(fmt.Sprintf("EventBatcher.Flush/token %d of batch %d", cs[0], cs[1])).when(sc(2, cs[0], cs[1]))
				w.never(st, "the time-out of another batch flushes this one")
				w.all(exit, func(x X) bool { return x.t(x.result(0)).Op == "const" || x.t(x.result(0)).Op == "make" }, "the time-out of another batch hands out events")
			}
			// the first token can't be taken for CurrentBatch
			n := c.full("batching.NewEventBatcher")
			c.q("NewEventBatcher", n).never(and(store(bf("batchToken")), func(x X) bool {
				v, ok := x.val(x.stored(), nil)
				return ok && v < 0
			}), "a batch's token can equal CurrentBatch")
			for _, e := range []struct{ f, p string }{{"maxDelay", "MaxDelay"}, {"ctx", ""}} {
				c.q("NewEventBatcher", n).all(store(bf(e.f)), func(x X) bool {
					t := x.t(x.stored())
					return e.p == "" || t.Op != "field" || t.isField(e.p)
				}, e.f+" isn't the given one")
			}
			c.q("NewEventBatcher", n).all(store(bf("maxSize")), func(x X) bool {
				t := x.t(x.stored())
				v, ok := evalTerm(t, nil)
				return (!ok || v >= 1) && (t.Op != "field" || t.isField("MaxSize"))
			}, "the maximum size isn't the given one")
			c.q("NewEventBatcher", n).all(store(bf("batch")), func(x X) bool {
				e, known := emptyNew(x.t(x.stored()))
				return e || !known
			}, "the first batch isn't empty")
			if in := c.P.lookup("batching.init"); in != nil {
				ig := c.full("batching.init")
				iq := c.q("CurrentBatch", ig)
				iq.all(func(x X) bool {
					s, ok := x.n.I.(*ssa.Store)
					return ok && x.n.R == nil && x.t(V{x.n.C, s.Addr}).String() == "batching.CurrentBatch"
				}, func(x X) bool {
					v, ok := x.val(V{x.n.C, x.n.I.(*ssa.Store).Val}, nil)
					return !ok || v < 0
				}, "CurrentBatch can equal a batch's token")
			}
		})

	rule("reorder.buffer", "C04 C20",
		"slots are numbered consecutively in reservation order; results are stored under their number and drained in number order, each once, by one drain at a time",
		func(c *Check) {
			mu := c.mutexOf(rb, "mu")
			a := c.full("(*" + rb + ").Add")
			q := c.q("ReorderBuffer.Add", a)
			set := mapSet(rbf("items"))
			q.mustPass(set, exit, "the result is lost: everything after it waits forever")
			q.all(set, func(x X) bool { return x.mapKey().String() == "p1" && x.mapVal().String() == "p2" }, "the result isn't stored under its number")
			q.locked(mu, unlocked, "concurrent results corrupt the buffer", func(h int, x X) string {
				if set(x) && h != wlocked {
					return "without the lock"
				}
				return ""
			})
			r := c.full("(*" + rb + ").Reserve")
			rq := c.q("ReorderBuffer.Reserve", r)
			next := rbf("nextSeqNum")
			asg := truth(fieldIs(next), 5)
			rq.mustPass(send(rbf("reserved")), exit, "the slot isn't accounted for: the drain waits forever for it")
			rq.neverAfter(send(rbf("reserved")), send(rbf("reserved")), "two slots are taken for one number")
			rq.all(exit, func(x X) bool { v, ok := x.val(x.result(0), asg); return !ok || v == 5 }, "numbers are skipped or repeated: the drain waits forever or a result is overwritten")
			rq.mustPass(store(next), exit, "the same number is handed out again")
			rq.all(store(next), func(x X) bool { v, ok := x.val(x.stored(), asg); return !ok || v == 6 }, "numbers are skipped or repeated")
			rq.neverAfter(store(next), store(next), "numbers are skipped")

			b := c.seqBody("(*" + rb + ").Drain")
			dq := c.q("ReorderBuffer.Drain", b)
			dr := rbf("drainedSeqNum")
			del, adv := mapDel(rbf("items")), store(dr)
			items := fieldIs(rbf("items"))
			dq.need(isYield, "yield")
			dq.locked(mu, unlocked, "two drains interleave: results come out of order", func(h int, x X) string {
				if isYield(x) && h != wlocked {
					return "a result is handed out without the lock"
				}
				if (adv(x) || del(x)) && h != wlocked {
					return "without the lock"
				}
				return ""
			})
			dq.all(isYield, func(x X) bool {
				t := x.yieldArg(0)
				l := t.Find(func(u *Term) bool { return u.Op == "lookup" })
				return l == nil || items(l.A[0]) && l.A[1].Find(fieldIs(dr)) != nil
			}, "something other than the next result in order is handed out")
			// per result: found -> deleted, advanced by one, slot freed, yielded
			found := func(v int64) Asg {
				return both(yieldOK, truth(fieldIs(dr), 5), func(t *Term) (int64, bool) {
					if t.Op == "extract" && t.S == "1" && t.A[0].Op == "lookup" && items(t.A[0].A[0]) {
						return v, true
					}
					return 0, false
				})
			}
			none := dq.named("ReorderBuffer.Drain/not there yet").when(found(0))
			none.never(or(isYield, del, adv), "a missing result is skipped")
			has := dq.named("ReorderBuffer.Drain/next result").when(found(1))
			// once per result, before or after it is handed out
			once := func(ev Ev, what, why string) {
				has.report(has.walk(2, func(s int, x X) (int, bool, string) {
					if ev(x) {
						s++
					}
					if isYield(x) {
						s--
					}
					if s < 1 {
						return s, true, "not " + what
					}
					if s > 3 {
						return s, true, what + " twice"
					}
					if exit(x) && s != 2 {
						return s, true, "not " + what
					}
					return s, false, ""
				}), why)
			}
			once(adv, "advanced", "a result is handed out again or skipped")
			once(recv(rbf("reserved")), "freed", "the buffer fills up and reservations block forever, or freeing blocks forever")
			has.mustPass(isYield, exit, "a result that is there isn't handed out")
			has.until(isYield).visits(del, func(x X) {
				v, ok := evalTerm(x.mapKey(), found(1))
				c.expect(!ok || v == 5, has.name, x.pos(), "another result is dropped")
			})
			// the consumer may stop: what it was handed counts as drained
			stops := dq.named("ReorderBuffer.Drain/stopped").when(func(t *Term) (int64, bool) {
				if _, ok := yieldOK(t); ok {
					return 0, true
				}
				return found(1)(t)
			})
			stops.report(stops.walk(0, func(s int, x X) (int, bool, string) {
				switch {
				case adv(x):
					s |= 1
				case recv(rbf("reserved"))(x):
					s |= 2
				case isYield(x):
					s |= 4
				case exit(x) && s&4 != 0 && s != 7:
					return s, true, "the result isn't accounted for as drained when its consumer stops: the next drain hands it out again or never goes on"
				}
				return s, false, ""
			}), "")
			dq.all(adv, func(x X) bool {
				v, ok := x.val(x.stored(), truth(fieldIs(dr), 5))
				return !ok || v == 6 || v > 6 && x.t(x.stored()).Find(func(u *Term) bool { return u.Op == "bin" && u.A[0].Op == "bin" }) != nil
			}, "results are skipped")
			dq.all(del, func(x X) bool { return x.mapKey().Find(fieldIs(dr)) != nil }, "another result is dropped")
			// a drain ends only when the next result is missing (or its consumer stops)
			has.neverAfter(isYield, exit, "the drain stops although the next result may be there: if no other result follows, it is never handed out")

			n := c.full("batching.NewReorderBuffer")
			nq := c.q("NewReorderBuffer", n)
			nq.visits(or(store(next), store(dr)), func(x X) {
				v, ok := x.val(x.stored(), nil)
				c.expect(!ok || v == 0, "NewReorderBuffer", x.pos(), "reserved and drained numbers start apart")
			})
			nq.all(store(rbf("reserved")), func(x X) bool {
				t := x.t(x.stored())
				return t.Op != "make" || t.A[0].Find(isParam("0")) != nil
			}, "the number of slots isn't the given one")
		})

	rule("reorder.fetch", "C04 C20",
		"every flushed batch is fetched once, in one section with reserving its number; its results are stored under that number and everything drained is output; time-outs flush by their token",
		func(c *Check) {
			g := c.full("(*" + rf + ").flush")
			for _, n := range []string{bm("Flush"), "(*" + rb + ").Add", "(*" + rb + ").Reserve", "(*" + rb + ").Drain"} {
				g.Inline = noInline(n, g.Inline)
			}
			g.GoSync = true
			mu := c.mutexOf(rf, "flushMu")
			fl, res, add, drain := call(bm("Flush")), call("(*"+rb+").Reserve"), call("(*"+rb+").Add"), call("(*"+rb+").Drain")
			q := c.q("ReorderFetcher.flush", g)
			evs := func(t *Term) bool { return t.isCall(bm("Flush")) }
			n := func(k int64) Asg { return truth(lenOf(evs), k) }
			q.all(fl, func(x X) bool { return x.argT(1).String() == "p2" }, "another token than the given one is flushed: a stale time-out flushes the current batch")
			q.when(n(2)).mustPass(fl, exit, "nothing is flushed")
			q.neverAfter(fl, fl, "a second batch is taken and lost")
			q.when(n(2)).oneSection(mu, fl, res, "numbers aren't reserved in the order the batches are taken: results come out of order")
			some := q.named("ReorderFetcher.flush/batch").when(n(2))
			some.mustPass(res, exit, "a batch is dropped")
			some.neverAfter(res, res, "a number is reserved that never gets a result: everything after it waits forever")
			q.named("ReorderFetcher.flush/empty batch").when(n(0)).never(res, "a number is reserved for no batch: everything after it waits forever")
			fetch := callOf(func(t *Term) bool { return t.isFieldOf(rff("fetchBatch")) })
			if len(some.sites(fetch)) == 0 {
				c.soft("ReorderFetcher.flush/fetch", "the fetch callback isn't found")
				return
			}
			some.mustPass(fetch, exit, "a batch isn't fetched")
			some.neverAfter(fetch, fetch, "a batch is fetched twice")
			some.all(fetch, func(x X) bool { return x.argT(1).Find(evs) != nil || x.argT(1).Op == "set" }, "something other than the flushed batch is fetched")
			isRes := func(t *Term) bool { return t.Op == "extract" && t.A[0].Op == "call" && t.A[0].S == "" }
			fe := func(v int64) Asg {
				return both(n(2), func(t *Term) (int64, bool) {
					if isRes(t) && t.S == "1" {
						return v, true
					}
					return 0, false
				})
			}
			good := q.named("ReorderFetcher.flush/fetched").when(fe(0))
			good.follow(fetch, add, exit, "a fetched batch's results are lost")
			good.all(add, func(x X) bool {
				return x.argT(1).Find(func(t *Term) bool { return t.isCall("(*" + rb + ").Reserve") }) != nil && x.argT(2).Find(func(t *Term) bool { return isRes(t) && t.S == "0" }) != nil
			}, "the results aren't stored under the number reserved for them")
			good.neverAfter(add, add, "results are stored twice")
			good.follow(add, drain, exit, "stored results aren't drained")
			fromDrain := func(t *Term) bool {
				return t.isCall("("+"*"+rb+").Drain") || t.Op == "param" && t.V.C != nil && t.V.C != g.Root
			}
			_ = fromDrain
			out := send(rff("Output"))
			good.need(out, "output of the results")
			good.each(func(t *Term) bool { return isDrained(t, rb) }, out, "a result isn't output")
			bad := q.named("ReorderFetcher.flush/failed fetch").when(fe(1))
			bad.follow(fetch, or(send(rff("errChan")), add), exit, "a failed fetch is neither reported nor completed")
			bad.follow(fetch, send(rff("errChan")), exit, "a failed fetch isn't reported: its events are silently lost")

			// Add and Flush
			for _, m := range []string{"Add", "Flush"} {
				h := c.full("(*" + rf + ")." + m)
				for _, n := range []string{bm("Add"), bm("IsFull"), "(*" + rf + ").flush"} {
					h.Inline = noInline(n, h.Inline)
				}
				w := c.q("ReorderFetcher."+m, h)
				ff := call("(*" + rf + ").flush")
				if len(w.sites(ff)) == 0 {
					c.soft(w.name, "no flush")
					continue
				}
				w.all(ff, func(x X) bool { return x.argT(2).String() == "batching.CurrentBatch" }, "the current batch isn't flushed")
				if m == "Add" {
					ad := call(bm("Add"))
					w.mustPass(ad, exit, "the event is lost")
					w.neverAfter(ad, ad, "the event is added twice")
					w.all(ad, func(x X) bool { return x.argT(1).String() == "p2" }, "another event is added")
					w.when(callVal(bm("IsFull"), 1)).mustPass(ff, exit, "a full batch isn't flushed")
					w.precede(ad, ff, "the batch is flushed before the event is added")
				} else {
					w.mustPass(ff, exit, "nothing is flushed")
				}
			}
			// time-outs
			nf := c.full("batching.NewReorderFetcher")
			nf.AsyncInline = true
			nf.Inline = noInline("(*"+rf+").flush", nf.Inline)
			nq := c.q("NewReorderFetcher/time-outs", nf)
			to := recv(bf("BatchTimedOut"))
			ff := call("(*" + rf + ").flush")
			if len(nq.sites(to)) == 0 {
				c.fail("NewReorderFetcher/time-outs", nf.Root.Fn.Pos(), "time-outs of batches aren't handled: their events wait forever and the timer blocks")
			} else {
				nq.need(ff, "flush at a time-out")
				nq.all(ff, func(x X) bool {
					t := x.argT(2)
					return t.Op != "global" && t.Op != "const"
				}, "a time-out flushes whatever batch is current, not the one that timed out")
			}
			for _, f := range []string{"fetchBatch", "errChan", "batcher"} {
				nq.named("NewReorderFetcher").all(store(rff(f)), func(x X) bool {
					t := x.t(x.stored())
					return t.Op != "field" || lowerFirst(t.S) == f
				}, f+" isn't the given one")
			}
			nq.named("NewReorderFetcher").when(truth(func(t *Term) bool { return t.isField("BufferSize") }, 0)).all(call("batching.NewReorderBuffer"), func(x X) bool {
				v, ok := x.val(x.arg(0), truth(func(t *Term) bool { return t.isField("BufferSize") }, 0))
				return !ok || v >= 1
			}, "no slot to make progress with")
		})

	rule("clock.every", "C13 C15",
		"a ticker calls its function at every tick and once more after every requested retry, until it is stopped",
		func(c *Check) {
			g := c.full("(*clocks.SystemClock).Every")
			g.GoSync = true
			q := c.q("SystemClock.Every", g)
			fn := callOf(func(t *Term) bool { return t.String() == "p2" })
			newT := call("time.NewTicker")
			q.need(newT, "ticker")
			q.all(newT, func(x X) bool { return x.argT(0).String() == "p1" }, "the interval isn't the given one")
			q.need(fn, "call of the function at a tick")
			rin := "clocks.EveryContext.retryIn"
			retry := call("time.NewTimer")
			q.need(retry, "retry")
			q.all(retry, func(x X) bool { return x.argT(0).Find(fieldIs(rin)) != nil }, "the retry doesn't wait the requested time")
			clear := and(store(rin), func(x X) bool { v, ok := x.val(x.stored(), nil); return !ok || v == 0 })
			// the request is cleared before the call that may make the next one
			q.report(q.walk(0, func(s int, x X) (int, bool, string) {
				_, sel := x.n.I.(*ssa.Select)
				switch {
				case retry(x):
					return 1, false, ""
				case clear(x):
					return 0, false, ""
				case sel && s > 0:
					return (s + 1) % 3, false, "" // the wait, then the next tick's
				case s > 0 && fn(x):
					return s, true, "x"
				}
				return s, false, ""
			}), "the request stays: the function is retried forever, or the retry's own request is lost")
			q.follow(clear, fn, or(retry, exit), "a requested retry isn't made")
			r := c.full("(*clocks.EveryContext).RetryIn")
			rq := c.q("EveryContext.RetryIn", r)
			rq.mustPass(store(rin), exit, "the requested retry is dropped")
			rq.all(store(rin), func(x X) bool { return x.t(x.stored()).String() == "p1" }, "the retry isn't the requested one")
			for _, m := range []string{"Stop", "Trigger"} {
				f := map[string]string{"Stop": "cancel", "Trigger": "trigger"}[m]
				h := c.full("(*clocks.Ticker)." + m)
				c.q("Ticker."+m, h).mustPass(callOf(func(t *Term) bool { return t.isFieldOf("clocks.Ticker." + f) }), exit, "nothing happens")
			}
		})

	rule("clock.timer", "C02 C04 C20",
		"setting a timer runs the callback after the delay and replaces the one set before; stopping it stops the one that is set",
		func(c *Check) {
			g := c.full("(*clocks.SystemTimer).Set")
			q := c.q("SystemTimer.Set", g)
			af := call("time.AfterFunc")
			tf := "clocks.SystemTimer.timer"
			q.mustPass(af, exit, "the time-out never happens")
			q.all(af, func(x X) bool {
				return x.argT(0).String() == "p1" && (x.argT(1).String() == "p2" || runsGiven(c, x))
			}, "the delay or callback isn't the given one")
			q.mustPass(store(tf), exit, "the timer can't be stopped")
			h := c.full("(*clocks.SystemTimer).Stop")
			stop := call("(*time.Timer).Stop")
			set := roles(role{fieldIs(tf), 1})
			c.q("SystemTimer.Stop", h).when(set).mustPass(stop, exit, "the timer keeps running")
			c.q("SystemTimer.Stop", h).when(roles(role{fieldIs(tf), 0})).never(stop, "stopping a timer that was never set panics")
			q.when(roles(role{fieldIs(tf), 0})).never(and(stop, func(x X) bool { return x.argT(0).isFieldOf(tf) }), "setting the first timer panics")
		})
}

func asInstr(v ssa.Value) ssa.Instruction {
	i, _ := v.(ssa.Instruction)
	return i
}

// isDrained: a batch of results handed out by the reorder buffer's drain (as the loop body's parameter or the iterator itself).
func isDrained(t *Term, rb string) bool {
	if t.Op != "param" {
		return false
	}
	return t.V.C != nil && t.V.C.CB && t.V.C.Site != nil
}
