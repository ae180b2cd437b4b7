package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	opT   = "workers/operator.Operator"
	opM   = "(*workers/operator.Operator)."
	ckptF = "workers/operator.checkpoint."
	wpb   = "proto/workerpb."
	hpb   = "reduction.dev/reduction-protocol/handlerpb."
)

// spawned gives the functions value v may be, each as a root that runs later with what was known at x.
func (q *Q) spawned(x X, v V) []*Q {
	var out []*Q
	for _, s := range x.g.Sources(v) {
		mc, ok := s.X.(*ssa.MakeClosure)
		if !ok {
			q.soft(q.name, "a function that runs later isn't a function literal")
			return nil
		}
		fn := mc.Fn.(*ssa.Function)
		h := NewGraph(q.c.P, fn, x.g.Inline)
		h.Root = &Ctx{Fn: fn, Clo: s, id: 1 << 20}
		h.nctx = 1 << 20
		h.home = x.g.Root
		if x.g.home != nil {
			h.home = x.g.home
		}
		h.TrackAll, h.Callback = true, x.g.Callback
		n := q.c.q(q.name, h)
		n = n.when(q.asg)
		n.startEnv = x.e.without(func(k V, _ abs) bool { _, ok := k.X.(*heapVal); return ok })
		out = append(out, n)
	}
	return out
}

func (q *Q) soft(construct, why string) { q.c.soft(construct, why) }

// lit gives what a composite literal (or new struct) stores in its fields.
func (x X) lit(v V) map[string]*Term {
	out := map[string]*Term{}
	for _, s := range x.g.Sources(v) {
		al, ok := s.X.(*ssa.Alloc)
		if !ok {
			continue
		}
		for _, r := range *al.Referrers() {
			fa, ok := r.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			for _, u := range *fa.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == fa {
					t := x.t(V{s.C, st.Val})
					if o := out[fieldName(fa)]; o != nil && o.String() != t.String() {
						t = &Term{Op: "set", A: []*Term{o, t}}
					}
					out[fieldName(fa)] = t
				}
			}
		}
	}
	return out
}

// isNil gives the scenario in which terms satisfying p are nil (or not).
func nilness(p func(*Term) bool, isNil bool) Asg {
	return truth(p, map[bool]int64{true: 0, false: 1}[isNil])
}

// isType: the interface value satisfying p holds the named one of the types.
func isType(p func(*Term) bool, name string) Asg {
	return func(t *Term) (int64, bool) {
		if t.Op == "extract" && t.S == "1" && t.A[0].Op == "assert" && p(t.A[0].A[0]) {
			if hasSuffix(t.A[0].S, name) {
				return 1, true
			}
			return 0, true
		}
		return 0, false
	}
}

// assertedTo matches the value of p asserted to type name (with or without the ok result).
func assertedTo(p func(*Term) bool, name string) func(*Term) bool {
	return func(t *Term) bool {
		if t.Op == "extract" && t.S == "0" {
			t = t.A[0]
		}
		return t.Op == "assert" && hasSuffix(t.S, name) && p(t.A[0])
	}
}

// fieldOfT matches field f (by short name) of a value satisfying p, read directly or through its getter.
func fieldOfT(p func(*Term) bool, f string) func(*Term) bool { return attr(p, "Get"+f, f) }

// chanOf is the term of the channel of a send or receive.
func (x X) chanOf() *Term {
	switch i := x.n.I.(type) {
	case *ssa.Send:
		return x.t(V{x.n.C, i.Chan})
	case *ssa.UnOp:
		return x.t(V{x.n.C, i.X})
	}
	return &Term{Op: "const", S: "_"}
}

func anySend(x X) bool { _, ok := x.n.I.(*ssa.Send); return ok && !x.n.After }

func closes(p func(*Term) bool) Ev {
	return func(x X) bool { return call("builtin.close")(x) && p(x.argT(0)) }
}

func init() {
	curBatch := func(t *Term) bool { return t.Op == "global" && t.S == "batching.CurrentBatch" }
	isCkpt := func(t *Term) bool { return t.isFieldOf(opT + ".checkpoint") }
	left := lenOf(func(t *Term) bool { return t.isFieldOf(ckptF+"srIDs") || t.isCall("util/sliceu.KeyMap") })
	batchFn := opM + "processEventBatch"

	rule("op.barrier", "C01 C02 C12 C15",
		"a barrier counts once for its sender and only for the checkpoint in progress; the operator's state is checkpointed and reported, with everything received before it applied, exactly when all barriers have been received; senders that sent their barrier are held back until then",
		func(c *Check) {
			g := c.full(opM + "handleCheckpointBarrier")
			g.Callback = onceDo
			g.Inline = noInline(batchFn, g.Inline)
			q := c.q("handleCheckpointBarrier", g)
			take := call("(*dkv.DB).Checkpoint")
			done := call("(proto.Job).OperatorCheckpointComplete")
			batch := call(batchFn)
			reset := func(x X) bool {
				return store(opT+".checkpoint")(x) && x.t(x.stored()).String() == "nil"
			}
			begin := func(x X) bool {
				return store(opT+".checkpoint")(x) && x.t(x.stored()).String() != "nil"
			}
			del := mapDel(ckptF + "srIDs")
			delOwn := func(x X) bool {
				if !call("builtin.delete")(x) {
					return false
				}
				t := x.argT(0)
				return (t.isFieldOf(ckptF+"srIDs") || t.isCall("util/sliceu.KeyMap"))
			}
			_ = del
			same := func(eq bool) Asg {
				return func(t *Term) (int64, bool) {
					if t.isFieldOf(ckptF + "checkpointID") {
						return 7, true
					}
					if fieldOfT(isParam("3"), "CheckpointId")(t) {
						if eq {
							return 7, true
						}
						return 8, true
					}
					return 0, false
				}
			}
			running := nilness(isCkpt, false)
			if q.need(take, "checkpoint of the database") == nil || q.need(delOwn, "removal of the sender from the ones waited for") == nil {
				return
			}
			// another checkpoint's barrier counts for nothing
			other := q.named("handleCheckpointBarrier/another checkpoint's barrier").when(both(running, same(false)))
			other.never(delOwn, "counts for the checkpoint in progress")
			other.never(take, "the state is checkpointed")
			other.never(nilErrExit, "isn't reported")
			other.never(closes(anyTerm), "releases the senders")
			// the sender's barrier
			for _, s := range []struct {
				n   string
				asg Asg
			}{{"first barrier", nilness(isCkpt, true)}, {"further barrier", running}} {
				w := q.named("handleCheckpointBarrier/" + s.n).when(both(s.asg, same(true), truth(left, 1)))
				w.mustPass(delOwn, nilErrExit, "the sender's barrier isn't counted")
				w.all(delOwn, func(x X) bool { return x.argT(1).String() == "p2" }, "another sender's barrier is counted")
				w.never(take, "the state is checkpointed before all barriers have been received")
				w.never(done, "the checkpoint is reported before all barriers have been received")
				w.never(closes(anyTerm), "the senders are released before all barriers have been received")
				w.never(reset, "the checkpoint is forgotten before all barriers have been received")
				w.reached(nilErrExit, "a barrier fails while others are missing")
				l := q.named("handleCheckpointBarrier/last, " + s.n).when(both(s.asg, same(true), truth(left, 0)))
				l.mustPass(batch, nilErrExit, "the pending events aren't applied")
				l.precede(batch, take, "the checkpoint doesn't include the pending events")
				l.precede(delOwn, take, "the checkpoint is taken without the last barrier")
				l.mustPass(take, nilErrExit, "the state isn't checkpointed although all barriers have been received")
				l.mustPass(done, nilErrExit, "the checkpoint isn't reported")
				l.mustPass(reset, nilErrExit, "the finished checkpoint stays in progress")
				l.mustPass(closes(anyTerm), nilErrExit, "the senders aren't released")
				l.all(batch, func(x X) bool { return curBatch(x.argT(2)) && x.argT(0).String() == "p0" }, "the pending events aren't the ones applied")
				l.all(take, func(x X) bool {
					v, ok := x.val(x.arg(1), both(same(true), s.asg))
					return x.argT(0).isFieldOf(opT+".db") && ok && v == 7
				}, "the state is checkpointed under another id")
				l.notBetween(batch, or(begin, reset), take, "")
			}
			q.reports(batchFn, 0, "the pending events couldn't be applied but the checkpoint succeeds")
			q.when(errCase(batchFn, 0, 1, nil)).never(take, "the state is checkpointed although the pending events couldn't be applied")
			// the first barrier starts the checkpoint with its id, waiting for all source runners
			f := q.named("handleCheckpointBarrier/start").when(nilness(isCkpt, true))
			f.mustPass(begin, or(exit, delOwn), "no checkpoint is started")
			q.when(running).never(begin, "another checkpoint is started")
			f.all(begin, func(x X) bool {
				lit := x.lit(x.stored())
				id, ids, ch := lit["checkpointID"], lit["srIDs"], lit["allBarriersReceived"]
				if id == nil || ids == nil || ch == nil {
					c.soft(f.name, "the checkpoint isn't made here")
					return true
				}
				return fieldOfT(isParam("3"), "CheckpointId")(id) && ch.Op == "make" || ch.V.X != nil && fieldOfT(isParam("3"), "CheckpointId")(id) &&
					ids.hasField("workers/operator.upstreams.all")
			}, "it doesn't have the barrier's id or doesn't wait for all source runners")
			f.all(begin, func(x X) bool {
				ids := x.lit(x.stored())["srIDs"]
				return ids == nil || ids.hasField("workers/operator.upstreams.all") && !ids.hasField("workers/operator.upstreams.active")
			}, "it doesn't wait for all source runners")
			// only one section: barriers are counted and the checkpoint is taken under the lock
			q.locked(opT+".mu", unlocked, "the checkpoint in progress is changed without the lock", func(h int, x X) string {
				if h != wlocked && or(begin, reset, delOwn, load(opT+".checkpoint"))(x) {
					return "not locked"
				}
				return ""
			})
			// what is reported
			fl := q.when(both(running, same(true), truth(left, 0)))
			fl.precede(take, done, "reported before it was taken")
			fl.all(done, func(x X) bool {
				m := x.lit(x.arg(2))
				return has(m["CheckpointId"], func(t *Term) bool { v, ok := evalTerm(t, same(true)); return ok && v == 7 }) &&
					has(m["OperatorId"], fieldIs(opT+".id")) &&
					has(m["DkvFileUri"], func(t *Term) bool { return t.isField("URI") && t.hasCall("(*dkv.DB).Checkpoint") })
			}, "another id, operator or file is reported")
			fl.all(done, func(x X) bool {
				kg := x.lit(x.arg(2))["KeyGroupRange"]
				if kg == nil {
					return false
				}
				r := x.lit(kg.V)
				if r["Start"] == nil {
					return true // converted by a function
				}
				a, ok1 := evalTerm(r["Start"], kgRange)
				b, ok2 := evalTerm(r["End"], kgRange)
				return ok1 && ok2 && a == 3 && b == 9
			}, "another key group range is reported")
			q.reports("(proto.Job).OperatorCheckpointComplete", 0, "the checkpoint couldn't be reported but succeeds")
			// the waiter returned by Checkpoint is run
			waits := callOf(func(t *Term) bool { return t.isCall("(*dkv.DB).Checkpoint") })
			fl.precede(waits, done, "reported before its files are complete")
			q.when(both(running, same(true), truth(left, 0), func(t *Term) (int64, bool) {
				if t.Op == "extract" && t.S == "1" && t.A[0].Op == "call" && t.A[0].S == "" && t.A[0].hasCall("(*dkv.DB).Checkpoint") {
					return 1, true
				}
				return 0, false
			})).never(done, "a checkpoint that failed is reported")

			// senders
			he := c.full(opM + "HandleEvent")
			hq := c.q("HandleEvent/alignment", he)
			put := send(opT + ".events")
			wait := recv(ckptF + "allBarriersReceived")
			if hq.need(put, "hand-over of the event") == nil {
				return
			}
			missing := func(v int64) Asg {
				return func(t *Term) (int64, bool) {
					if t.Op == "extract" && t.S == "1" && t.A[0].Op == "lookup" && t.A[0].A[0].isFieldOf(ckptF+"srIDs") {
						if t.A[0].A[1].String() == "p2" {
							return v, true
						}
						return 1 - v, true
					}
					return 0, false
				}
			}
			hold := hq.named("HandleEvent/sender that sent its barrier").when(both(running, missing(0)))
			if len(hold.sites(wait)) == 0 {
				c.fail(hold.name, he.Root.Fn.Pos(), "its next event isn't held back until all barriers have been received")
			} else {
				hold.precede(wait, put, "its next event isn't held back until all barriers have been received")
			}
			hq.named("HandleEvent/sender that didn't send its barrier").when(both(running, missing(1))).never(wait, "it is held back, so that its barrier never comes")
			hq.named("HandleEvent/no checkpoint").when(nilness(isCkpt, true)).never(wait, "events are held back without a checkpoint")
			hq.locked(opT+".mu", unlocked, "the checkpoint in progress is read without the lock", func(h int, x X) string {
				if h == unlocked && or(load(opT+".checkpoint"), load(opT+".deployment"), load(ckptF+"srIDs"))(x) {
					return "not locked"
				}
				if h != unlocked && (wait(x) || put(x)) {
					return "the lock is held while waiting"
				}
				return ""
			})
		})

	rule("op.events", "C01 C02 C04 C10 C11 C15",
		"every event is handed to the processing loop once the operator is ready; the loop runs it as what it is, for its sender, unless the operator was deployed anew since; its outcome is reported to the sender",
		func(c *Check) {
			g := c.full(opM + "HandleEvent")
			for _, f := range []string{"handleUserEvent", "handleWatermark", "handleCheckpointBarrier", "handleSourceComplete"} {
				g.Inline = noInline(opM+f, g.Inline)
			}
			put := send(opT + ".events")
			q := c.q("HandleEvent", g)
			if q.need(put, "hand-over of the event") == nil {
				return
			}
			ready, ok := c.constOf("workers/operator", "StatusReady")
			if ok {
				for v := int64(0); v <= 4; v++ {
					w := q.named("HandleEvent/status").when(callVal("(*sync/atomic.Uint32).Load", v))
					if v != ready {
						w.never(put, "an operator that isn't ready takes an event")
						w.never(nilErrExit, "an event that isn't taken isn't refused")
					} else {
						w.reached(put, "an operator that is ready takes no event")
					}
				}
			}
			ev := fieldOfT(isParam("3"), "Event")
			kinds := []struct{ typ, fn string }{
				{"Event_KeyedEvent", "handleUserEvent"}, {"Event_Watermark", "handleWatermark"},
				{"Event_CheckpointBarrier", "handleCheckpointBarrier"}, {"Event_SourceComplete", "handleSourceComplete"},
			}
			for _, k := range kinds {
				asg := both(isType(ev, "."+k.typ), callVal("(*sync/atomic.Uint32).Load", ready))
				w := q.named("HandleEvent/" + k.typ).when(asg)
				w.mustPass(put, nilErrExit, "the event isn't handed over")
				ran := false
				w.visits(put, func(x X) {
					// the reply is awaited on the channel the outcome is sent on
					for _, h := range w.spawned(x, V{x.n.C, x.sentVal(opT + ".events")}) {
						ran = true
						run := call(opM + k.fn)
						same := deploymentIs(true, g.Root)
						h1 := h.when(both(asg, same))
						h1.name = w.name + "/run"
						if len(h1.sites(run)) == 0 {
							c.fail(h1.name, x.pos(), "it isn't handled")
							continue
						}
						h1.mustPass(run, exit, "it isn't handled")
						h1.neverAfter(run, run, "it is handled twice")
						for _, o := range kinds {
							if o.fn != k.fn {
								h1.never(call(opM+o.fn), "it is handled as something else")
							}
						}
						h1.all(run, func(x X) bool {
							if k.fn == "handleSourceComplete" {
								return x.argT(1).String() == "p2"
							}
							want := fieldOfT(assertedTo(ev, "."+k.typ), strings.TrimPrefix(k.typ, "Event_"))
							if k.fn == "handleUserEvent" {
								return want(x.argT(2))
							}
							return x.argT(2).String() == "p2" && want(x.argT(3))
						}, "it is handled for another sender or with other content")
						h1.mustPass(anySend, exit, "its outcome isn't reported")
						isNil := func(x X) bool { return x.t(x.stored()).String() == "nil" }
						h1.all(anySend, func(x X) bool { return x.t(x.stored()).isCall(opM+k.fn) || isNil(x) }, "another outcome is reported")
						h1.when(both(asg, same, errCase(opM+k.fn, 0, 1, nil))).never(and(anySend, isNil), "a failure isn't reported")
						h2 := h.when(both(asg, deploymentIs(false, g.Root)))
						h2.name = w.name + "/left over"
						h2.never(run, "an event of the previous deployment is applied to the new one")
						h2.mustPass(anySend, exit, "its sender waits forever")
						// same channel
						var reply *Term
						h1.visits(anySend, func(x X) { reply = x.chanOf() })
						if reply != nil {
							w.all(nilErrOrUnknownExit, func(x X) bool {
								t := x.t(x.result(0))
								return t.Op == "un" && t.S == "<-" && len(t.A) == 1 && t.A[0].V.X == reply.V.X ||
									t.Op == "extract" || t.String() == "nil"
							}, "the sender isn't told the event's outcome")
						}
					}
				})
				if !ran {
					c.soft(w.name, "what is handed over isn't a function literal")
				}
			}

			// the loop
			lp := c.full(opM + "processEvents")
			lp.Inline = noInline(batchFn, lp.Inline)
			lq := c.q("processEvents", lp)
			run := callOf(func(t *Term) bool { return t.Find(fieldIs(opT+".events")) != nil })
			batch := call(batchFn)
			if lq.need(run, "run of the events") != nil && lq.need(batch, "flush of timed out batches") != nil {
				lq.locked(opT+".eventMu", unlocked, "events and deployments interleave", func(h int, x X) string {
					if h != wlocked && or(run, batch)(x) {
						return "the event lock isn't held"
					}
					return ""
				})
				lq.when(selected(opT+".events")).follow(recv(opT+".events"), run, or(exit, recv(opT+".events")), "an event isn't run")
				lq.when(selected("batching.EventBatcher.BatchTimedOut")).follow(recv("batching.EventBatcher.BatchTimedOut"), batch, or(exit, recv(opT+".events")), "a timed out batch isn't flushed")
				lq.all(batch, func(x X) bool {
					return x.argT(2).hasField("batching.EventBatcher.BatchTimedOut")
				}, "another batch than the timed out one is flushed")
				lq.when(both(errCase(batchFn, 0, 1, nil))).neverAfter(batch, or(run, batch, nilErrExit), "the loop goes on (or ends quietly) after a batch failed")
			}
		})

	rule("op.deploy", "C01 C02 C03 C06 C09 C10 C15",
		"a deployment waits for the event in progress and drops everything of the previous one; it closes the previous database, opens the new one from all given checkpoints for the operator's own key groups, and builds state, timers and upstreams on it before it is ready",
		func(c *Check) {
			g := c.full(opM + "HandleDeploy")
			g.Callback = onceDo
			for _, f := range []string{"workers/operator.NewTimerStore", "workers/operator.NewTimerRegistry", "workers/operator.NewKeyedStateStore", "workers/operator.newOperatorPartition", "workers/operator.newUpstreams"} {
				g.Inline = noInline(f, g.Inline)
			}
			q := c.q("HandleDeploy", g)
			own := func(t *Term) bool { return t.isCall("slices.IndexFunc") }
			found := truth(own, 1)
			q = q.when(found)
			open := call("dkv.Open")
			if q.need(open, "opening of the database") == nil {
				return
			}
			cls := call("(*dkv.DB).Close")
			// everything is replaced under both locks
			fields := []string{}
			for _, f := range []string{"deployment", "checkpoint", "keySpace", "keyGroupRange", "db", "stateStore", "timerRegistry", "sourceRunners", "sink"} {
				fields = append(fields, opT+"."+f)
			}
			for _, m := range []string{opT + ".mu", opT + ".eventMu"} {
				q.locked(m, unlocked, "the deployment changes while events are processed", func(h int, x X) string {
					if h != wlocked && or(store(fields...), open, cls)(x) {
						return m[strings.LastIndex(m, ".")+1:] + " isn't held"
					}
					return ""
				})
			}
			for _, f := range fields {
				if f == opT+".checkpoint" {
					continue
				}
				q.mustPass(store(f), nilErrExit, f[strings.LastIndex(f, ".")+1:]+" is left from the previous deployment")
			}
			q.all(store(opT+".deployment"), func(x X) bool {
				v, ok := x.val(x.stored(), truth(fieldIs(opT+".deployment"), 4))
				return !ok || v != 4
			}, "the deployment keeps its number")
			pending := q.named("HandleDeploy/checkpoint in progress").when(both(found, nilness(isCkpt, false)))
			pending.mustPass(func(x X) bool { return store(opT+".checkpoint")(x) && x.t(x.stored()).String() == "nil" }, nilErrExit, "it stays in progress")
			pending.mustPass(closes(anyTerm), nilErrExit, "the senders waiting for it aren't released")
			hasB := fieldIs(opT + ".eventBatcher")
			fl := call("(*batching.EventBatcher).Flush")
			q.named("HandleDeploy/pending events").when(both(found, nilness(hasB, false))).mustPass(and(fl, func(x X) bool { return curBatch(x.argT(1)) }), nilErrExit, "the previous deployment's events are kept")
			isDB := fieldIs(opT + ".db")
			again := q.named("HandleDeploy/redeployed").when(both(found, nilness(isDB, false)))
			again.precede(cls, open, "the previous database isn't closed before the new one is opened")
			again.all(cls, func(x X) bool { return x.argT(0).isFieldOf(opT + ".db") }, "another database is closed")
			q.named("HandleDeploy/first").when(both(found, nilness(isDB, true))).never(cls, "a database is closed that doesn't exist")

			// own index
			pred := q.fnArg(call("slices.IndexFunc"), 1)
			if pred != nil {
				c.q("HandleDeploy/own index", pred).all(exit, func(x X) bool {
					t := x.t(x.result(0))
					isID := fieldOfT(isParam("0"), "Id")
					for _, eq := range []int64{0, 1} {
						v, ok := evalTerm(t, roles(role{isID, 5}, role{fieldIs(opT + ".id"), 6 - eq}))
						if ok && v != eq {
							return false
						}
					}
					return t.Find(isID) != nil
				}, "the operator takes another one's place")
				q.all(call("slices.IndexFunc"), func(x X) bool { return fieldOfT(isParam("2"), "Operators")(x.argT(0)) }, "")
			}
			q.named("HandleDeploy/not included").when(truth(own, -1)).never(open, "an operator that isn't included deploys")
			ks := call("partitioning.NewKeySpace")
			if q.need(ks, "key space") != nil {
				q.all(ks, func(x X) bool {
					a, ok1 := x.val(x.arg(0), truth(fieldOfT(isParam("2"), "KeyGroupCount"), 5))
					b, ok2 := x.val(x.arg(1), truth(lenOf(fieldOfT(isParam("2"), "Operators")), 3))
					return ok1 && ok2 && a == 5 && b == 3
				}, "the key space isn't the one of the given number of groups and operators")
			}
			isOwnRange := func(t *Term) bool {
				return t.Op == "index" && own(t.A[1]) && t.A[0].hasCall("(*partitioning.KeySpace).KeyGroupRanges")
			}
			q.all(store(opT+".keyGroupRange"), func(x X) bool { return isOwnRange(x.t(x.stored())) }, "another operator's range is taken")
			q.all(store(opT+".keySpace"), func(x X) bool { return x.t(x.stored()).isCall("partitioning.NewKeySpace") }, "another key space is used")
			// the handles
			ckpts := fieldOfT(isParam("2"), "Checkpoints")
			q.each(ckpts, or(setsElem(anyTerm), collects(anyTerm), store("dkv/recovery.CheckpointHandle.URI")), "a checkpoint isn't restored")
			for f, src := range map[string]string{"URI": "DkvFileUri", "CheckpointID": "CheckpointId"} {
				h := store("dkv/recovery.CheckpointHandle." + f)
				if len(q.sites(h)) == 0 {
					c.soft("HandleDeploy/handles", "no handles made here")
					continue
				}
				q.all(h, func(x X) bool {
					return fieldOfT(func(t *Term) bool { return t.Find(ckpts) != nil }, src)(x.t(x.stored()))
				}, "the handle doesn't have the checkpoint's "+f)
			}
			// the database
			fs := call("dkv/storage.NewFileSystemFromLocation")
			q.need(fs, "file system")
			q.all(fs, func(x X) bool {
				t := x.argT(0)
				if !t.isCall("dkv/storage.Join") || !fieldOfT(isParam("2"), "StorageLocation")(t.A[0]) {
					return !t.isCall("dkv/storage.Join")
				}
				return x.within(t, fieldIs(opT+".id")) || len(t.L) > 0 && has(t.L[0], fieldIs(opT+".id"))
			}, "the files aren't kept under the operator's id in the given location")
			q.all(store("dkv.DBOptions.FileSystem"), func(x X) bool { return resultOf(x.t(x.stored()), 0, "dkv/storage.NewFileSystemFromLocation") }, "another file system is used")
			q.mustPass(store("dkv.DBOptions.FileSystem"), open, "no file system is given")
			q.mustPass(store("dkv.DBOptions.DataOwnership"), open, "the operator's part of the data isn't given")
			q.all(store("dkv.DBOptions.DataOwnership"), func(x X) bool {
				t := x.t(x.stored()).Find(func(t *Term) bool { return t.isCall("workers/operator.newOperatorPartition") })
				return t != nil && (isOwnRange(t.A[0]) || t.A[0].isFieldOf(opT+".keyGroupRange"))
			}, "the operator's part of the data isn't its range")
			q.reports("dkv/storage.NewFileSystemFromLocation", 1, "failure isn't reported")
			q.named("HandleDeploy/file system failed").when(both(found, errCase("dkv/storage.NewFileSystemFromLocation", 1, 1, nil))).never(open, "")
			// stores on the new database
			isNew := func(t *Term) bool { return t.isCall("dkv.Open") }
			for _, n := range []string{"NewKeyedStateStore", "NewTimerStore"} {
				ev := call("workers/operator." + n)
				if q.need(ev, n) == nil {
					continue
				}
				q.all(ev, func(x X) bool {
					return isNew(x.argT(0)) && x.argT(1).isCall("partitioning.NewKeySpace")
				}, "it isn't built on the new database and key space")
			}
			q.all(call("workers/operator.NewTimerStore"), func(x X) bool { return isOwnRange(x.argT(2)) }, "the timers aren't the ones of the operator's range")
			ids := fieldOfT(isParam("2"), "SourceRunnerIds")
			for n, i := range map[string]int{"NewTimerRegistry": 1, "newUpstreams": 0} {
				ev := call("workers/operator." + n)
				if q.need(ev, n) != nil {
					q.all(ev, func(x X) bool { return ids(x.argT(i)) }, "the upstreams aren't the given source runners")
				}
			}
			q.all(store(opT+".timerRegistry"), func(x X) bool { return x.t(x.stored()).isCall("workers/operator.NewTimerRegistry") }, "")
			q.all(call("workers/operator.NewTimerRegistry"), func(x X) bool { return x.argT(0).isCall("workers/operator.NewTimerStore") }, "")
			q.all(store(opT+".sourceRunners"), func(x X) bool { return x.t(x.stored()).isCall("workers/operator.newUpstreams") }, "")
			q.all(store(opT+".sink"), func(x X) bool { return x.t(x.stored()).String() == "p3" }, "")
			q.all(store(opT+".db"), func(x X) bool { return isNew(x.t(x.stored())) }, "another database is used")
			q.all(store(opT+".stateStore"), func(x X) bool { return x.t(x.stored()).isCall("workers/operator.NewKeyedStateStore") }, "")

			// readiness
			loading := call("(*workers/operator.operatorStatus).LoadingStarted")
			loaded := call("(*workers/operator.operatorStatus).DidLoad")
			q.precede(loading, open, "the operator takes events while its database is opened")
			q.mustPass(loaded, nilErrExit, "the operator isn't ready")
			for _, f := range []string{"db", "stateStore", "timerRegistry", "sourceRunners", "sink"} {
				q.neverAfter(loaded, store(opT+"."+f), "the operator is ready before it is set up")
			}
			// neighbors: all the others
			isNb := store("workers/operator.neighborPartition.operator")
			if q.need(isNb, "neighbor") != nil {
				ops := fieldOfT(isParam("2"), "Operators")
				w := q.named("HandleDeploy/neighbors")
				ll := w.loops()
				hit := false
				for _, l := range ll {
					l.unroll(found, 4, func(i int, _ Asg, x X) {
						if isNb(x) {
							hit = true
							c.expect(i != 1, w.name, x.pos(), "the operator is its own neighbor")
						}
					})
				}
				if !hit {
					c.soft(w.name, "neighbors aren't collected by a loop")
				}
				other := w.when(both(found, func(t *Term) (int64, bool) {
					return 0, false
				}))
				other.all(isNb, func(x X) bool {
					t := x.t(x.stored())
					return t.Op == "call" && len(t.A) > 0 && t.Find(func(u *Term) bool { return u.Op == "index" && u.A[0].Find(ops) != nil }) != nil
				}, "a neighbor isn't one of the other operators")
				w.all(store("workers/operator.neighborPartition.keyGroupRange"), func(x X) bool {
					t := x.t(x.stored())
					return t.Op != "index" || !own(t.A[1])
				}, "")
			}
		})
}

func onceDo(name string) bool { return name == "(*sync.Once).Do" }

func anyTerm(*Term) bool { return true }

func has(t *Term, p func(*Term) bool) bool { return t != nil && p(t) }

func kgRange(t *Term) (int64, bool) {
	if t.Op == "field" && t.A[0].isFieldOf(opT+".keyGroupRange") {
		switch t.S {
		case "Start":
			return 3, true
		case "End":
			return 9, true
		}
	}
	return 0, false
}

// deploymentIs: the deployment noted in activation at (or one it calls) when the event came is still (or no longer) the
// current one.
func deploymentIs(same bool, at *Ctx) Asg {
	return func(t *Term) (int64, bool) {
		if !t.isFieldOf(opT + ".deployment") {
			return 0, false
		}
		for c := t.V.C; c != nil; c = c.Parent {
			if c == at {
				return 4, true
			}
		}
		if same {
			return 4, true
		}
		return 5, true
	}
}

// sentVal is the value sent on a channel.
func (x X) sentVal(field string) ssa.Value {
	switch s := x.n.I.(type) {
	case *ssa.Send:
		return s.X
	case *ssa.Select:
		for _, st := range s.States {
			if st.Dir == types.SendOnly && x.containerField(st.Chan) == field {
				return st.Send
			}
		}
	}
	return nil
}

// nilErrOrUnknownExit matches returns whose error isn't known to be set here.
func nilErrOrUnknownExit(x X) bool {
	if !exit(x) {
		return false
	}
	a, _ := x.g.eval(x.e, x.result(-1))
	return a.k == 0
}

// constOf is the value of a package-level constant.
func (c *Check) constOf(pkg, name string) (int64, bool) {
	p := c.P.Pkgs[modPath+"/"+pkg]
	if p == nil {
		p = c.P.Pkgs[pkg]
	}
	if p == nil {
		return 0, false
	}
	k, ok := p.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	v, ok := parseInt(k.Val().ExactString())
	return v, ok
}

// selected: selects take the case of the channel in the named field, and the channel is open.
func selected(field string) Asg {
	return func(t *Term) (int64, bool) {
		if t.Op != "extract" || t.S != "0" && t.S != "1" {
			return 0, false
		}
		sel, ok := t.A[0].V.X.(*ssa.Select)
		if !ok {
			return 0, false
		}
		if t.S == "1" {
			return 1, true
		}
		for i, st := range sel.States {
			if l, ok := st.Chan.(*ssa.UnOp); ok && fieldOf(l.X) == field {
				return int64(i), true
			}
		}
		return 0, false
	}
}
