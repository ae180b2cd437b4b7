package main

// Background tasks: dkv/bg.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	tqF := func(f string) string { return "dkv/bg.TaskQueue." + f }
	egGo := "(*golang.org/x/sync/errgroup.Group).Go"

	rule("bg.queue", "C07 C08 C09 C18",
		"tasks of one queue are handed over in the order they are enqueued and run one at a time, each to its end; every task given to a group runs and its error is what waiting reports",
		func(c *Check) {
			g := c.full("(*dkv/bg.AsyncGroup).Enqueue")
			q := c.q("AsyncGroup.Enqueue", g)
			run := call(egGo, "(*dkv/bg.AsyncGroup).Go")
			give := send(tqF("c"))
			g.Inline = noInline("(*dkv/bg.AsyncGroup).Go", g.Inline)
			if len(q.sites(run)) == 0 || len(q.sites(give)) == 0 {
				c.soft(q.name, "not a queue of functions run by an errgroup")
			} else {
				q.mustPass(run, exit, "a task is never run")
				q.mustPass(give, exit, "a task is lost")
				q.precede(give, run, "a task is started before it is queued: tasks enqueued later can run before it")
				q.visits(run, func(x X) {
					for _, w := range q.spawned(x, x.arg(1)) {
						w = w.named("AsyncGroup.Enqueue/task")
						take := recv(tqF("c"))
						do := func(y X) bool {
							cc := y.common()
							return cc != nil && !y.n.After && cc.StaticCallee() == nil && !cc.IsInvoke() && isFnTask(cc.Value)
						}
						w.locked(tqF("mu"), unlocked, "tasks of one queue run at the same time or out of order", func(held int, y X) string {
							if take(y) && held != wlocked {
								return "the next task is taken without holding the queue's mutex"
							}
							if do(y) && held != wlocked {
								return "a task runs without holding the queue's mutex"
							}
							return ""
						})
						w.mustPass(take, exit, "a queued task is never taken")
						w.mustPass(do, exit, "a queued task is never run")
						w.precede(take, do, "a task runs before it is taken from the queue")
						w.named("AsyncGroup.Enqueue/failed task").when(func(t *Term) (int64, bool) {
							cl, ok := t.V.X.(*ssa.Call)
							return 1, ok && t.Op == "call" && isFnTask(cl.Call.Value) && cl.Call.StaticCallee() == nil
						}).neverAfter(do, nilErrExit, "a task's error isn't reported")
					}
				})
			}
			if c.P.lookup("(*dkv/bg.AsyncGroup).Go") != nil {
				h := c.full("(*dkv/bg.AsyncGroup).Go")
				w := c.q("AsyncGroup.Go", h)
				w.mustPass(call(egGo), exit, "a task is never run")
				w.visits(call(egGo), func(x X) {
					if t := x.argT(1); t.Op == "param" {
						c.expect(t.String() == "p1", w.name, x.pos(), "another task is run")
					}
				})
			}
			h := c.full("(*dkv/bg.AsyncGroup).Wait")
			w := c.q("AsyncGroup.Wait", h)
			wait := "(*golang.org/x/sync/errgroup.Group).Wait"
			w.mustPass(call(wait), exit, "running tasks aren't waited for")
			w.named("AsyncGroup.Wait/failed task").when(resVal(wait, 0, 1)).never(nilErrExit, "a failed task goes unnoticed")
			w.named("AsyncGroup.Wait/all done").when(resVal(wait, 0, 0)).never(func(x X) bool {
				if !exit(x) {
					return false
				}
				a, _ := x.g.eval(x.e, x.result(0))
				return a.k == 'x'
			}, "success is reported as a failure")
		})

	rule("bg.task", "C07 C08 C09 C13 C18",
		"a task's results are complete before anyone waiting for it continues, and waiting returns them",
		func(c *Check) {
			fn := c.fn("dkv/bg.Task2")
			g := c.full("dkv/bg.Task2")
			q := c.q("Task2", g)
			isGo := func(x X) bool { _, ok := x.n.I.(*ssa.Go); return ok && !x.n.After }
			if len(q.sites(isGo)) == 0 {
				c.soft(q.name, "the task isn't run by a goroutine")
				return
			}
			q.mustPass(isGo, exit, "the task is never run")
			do := func(y X) bool {
				cc := y.common()
				return cc != nil && !y.n.After && cc.StaticCallee() == nil && !cc.IsInvoke() && isFnTask(cc.Value)
			}
			done := call("builtin.close", "(*sync.WaitGroup).Done")
			q.visits(isGo, func(x X) {
				for _, w := range q.spawned(x, V{x.n.C, x.n.I.(*ssa.Go).Call.Value}) {
					w = w.named("Task2/task")
					w.mustPass(do, exit, "the task's function is never called")
					w.mustPass(done, exit, "whoever waits for the task waits for ever")
					w.precede(do, done, "the task is reported done before it has run")
					set := func(y X) bool {
						s, ok := y.n.I.(*ssa.Store)
						if !ok || y.n.R != nil {
							return false
						}
						addr := wholeVar(s.Addr)
						_, free := addr.(*ssa.FreeVar)
						if al, ok := addr.(*ssa.Alloc); ok {
							free = al.Parent() == fn
						}
						return free
					}
					w.neverAfter(done, set, "the task's results are set after it is reported done: waiting returns none")
					w.precede(set, done, "the task is reported done without its results")
				}
			})
			h := c.lookupAnon(fn, func(f *ssa.Function) bool { return f.Signature.Results().Len() == 2 })
			if h == nil {
				c.soft("Task2/wait", "not a function literal")
				return
			}
			v := c.q("Task2/wait", NewGraph(c.P, h, nil))
			got := func(x X) bool {
				u, ok := x.n.I.(*ssa.UnOp)
				return ok && u.Op.String() == "<-" || call("(*sync.WaitGroup).Wait")(x)
			}
			v.mustPass(got, exit, "waiting returns before the task is done")
			v.precede(got, func(x X) bool {
				u, ok := x.n.I.(*ssa.UnOp)
				if !ok || u.Op.String() != "*" || x.n.C != v.g.Root {
					return false
				}
				fv, ok := wholeVar(u.X).(*ssa.FreeVar)
				return ok && !isChanPtr(fv)
			}, "the results are read before the task is done")
			v.visits(exit, func(x X) {
				for i := 0; i < 2; i++ {
					c.expect(x.t(x.result(i)).Op != "const", v.name, x.pos(), "waiting doesn't return the task's results")
				}
			})
		})
}

func (c *Check) lookupAnon(fn *ssa.Function, p func(*ssa.Function) bool) *ssa.Function {
	for _, f := range fn.AnonFuncs {
		if p(f) {
			return f
		}
	}
	return nil
}

// isFnTask: a function without parameters that may fail.
func isFnTask(v ssa.Value) bool {
	s, ok := v.Type().Underlying().(*types.Signature)
	return ok && s.Params().Len() == 0 && s.Results().Len() > 0 && isErrType(s.Results().At(s.Results().Len()-1).Type())
}

// isChanPtr: a captured variable that holds a channel (or something to wait on) rather than a result.
// wholeVar: the variable an address is of, or of a field of.
func wholeVar(v ssa.Value) ssa.Value {
	for {
		f, ok := v.(*ssa.FieldAddr)
		if !ok {
			return v
		}
		v = f.X
	}
}

func isChanPtr(fv *ssa.FreeVar) bool {
	p, ok := fv.Type().Underlying().(*types.Pointer)
	if !ok {
		return true
	}
	if typeName(fv.Type()) == "sync.WaitGroup" {
		return true
	}
	_, ok = p.Elem().Underlying().(*types.Chan)
	return ok
}
