package main

import (
	"fmt"
	"slices"

	"golang.org/x/tools/go/ssa"
)

// Ordered structures in util/ds, util/iteru, util/sliceu.

// isElem matches an element of a slice and evaluates its index.
func elemIndex(t *Term, asg Asg) (int64, bool) {
	if t.Op != "index" || t.Stale {
		return 0, false
	}
	if t.A[0].Op == "slice" {
		v, ok := evalTerm(t.A[1], asg)
		lo, ok2 := int64(0), true
		if t.A[0].A[1].S != "" {
			lo, ok2 = evalTerm(t.A[0].A[1], asg)
		}
		return v + lo, ok && ok2
	}
	return evalTerm(t.A[1], asg)
}

// elemStore is a store to an element: destination index and the stored term.
func elemStore(x X, asg Asg) (dst int64, src *Term, is, known bool) {
	s, ok := x.n.I.(*ssa.Store)
	if !ok || x.n.R != nil {
		return
	}
	ia, ok := s.Addr.(*ssa.IndexAddr)
	if !ok {
		return
	}
	d, ok := x.val(V{x.n.C, ia.Index}, asg)
	return d, x.t(V{x.n.C, s.Val}), true, ok
}

// heapVals makes the scenario of a heap of n elements with the given values: comparisons of elements.
func heapScenario(n int64, vals map[int64]int64, more Asg) Asg {
	var asg Asg
	asg = func(t *Term) (int64, bool) {
		if more != nil {
			if v, ok := more(t); ok {
				return v, ok
			}
		}
		switch {
		case t.isCall("builtin.len"):
			return lenAsg(func(u *Term) bool { return u.isField("data") }, n)(t)
		case t.Op == "field" && t.S == "assignIndex":
			return 1, true
		case t.Op == "call" && t.S == "" && len(t.A) == 3 && t.A[0].Op == "field" && t.A[0].S == "compare":
			a, ok1 := elemIndex(t.A[1], asg)
			b, ok2 := elemIndex(t.A[2], asg)
			if !ok1 || !ok2 {
				return 0, false
			}
			va, oka := vals[a]
			vb, okb := vals[b]
			if !oka || !okb {
				return 0, false
			}
			return sign(va - vb), true
		}
		return 0, false
	}
	return asg
}

type heapStep struct {
	swaps   [][2]int64
	unknown bool
	next    map[int64]bool
	cmp     map[int64]bool
	assign  map[int64]int64
	nassign int
}

// heapIter walks one iteration of a sift loop in a scenario.
func heapIter(l *Loop, ph *ssa.Phi, i, n int64, vals map[int64]int64) heapStep {
	r := heapStep{next: map[int64]bool{}, cmp: map[int64]bool{}, assign: map[int64]int64{}}
	asg := heapScenario(n, vals, truth(l.isVar(ph), i))
	isCmp := callOf(func(t *Term) bool { return t.Op == "field" && t.S == "compare" })
	isAssign := callOf(func(t *Term) bool { return t.Op == "field" && t.S == "assignIndex" })
	seen := map[N]bool{}
	l.step(asg, func(x X) {
		if !l.within(x) {
			return
		}
		if d, src, is, known := elemStore(x, asg); is && !seen[x.n] {
			seen[x.n] = true
			s, ok := elemIndex(src, asg)
			if !known || !ok {
				r.unknown = true
			} else {
				r.swaps = append(r.swaps, [2]int64{d, s})
			}
		}
		if isCmp(x) {
			for _, a := range x.common().Args {
				if v, ok := elemIndex(x.t(V{x.n.C, a}), asg); ok {
					r.cmp[v] = true
				}
			}
		}
		if isAssign(x) {
			r.nassign++
			at, ok := x.val(V{x.n.C, x.common().Args[1]}, asg)
			if ok {
				org := int64(-1)
				if o, ok := elemIndex(x.t(V{x.n.C, x.common().Args[0]}), asg); ok {
					org = o
				}
				r.assign[at] = org
			}
		}
		if nv, ok := l.nextOf(x, ph, asg); ok {
			if v, ok := x.val(nv, asg); ok {
				r.next[v] = true
			} else {
				r.unknown = true
			}
		}
	})
	return r
}

// within: the point belongs to the loop's body (or a call made from it).
func (l *Loop) within(x X) bool {
	b := x.n.I.Block()
	for c := x.n.C; c != nil; c = c.Parent {
		if c == l.c {
			return l.blocks()[b]
		}
		if c.Site == nil {
			return false
		}
		b = c.Site.(ssa.Instruction).Block()
	}
	return false
}

func (l *Loop) blocks() map[*ssa.BasicBlock]bool {
	m := map[*ssa.BasicBlock]bool{l.head: true}
	var rec func(b *ssa.BasicBlock)
	rec = func(b *ssa.BasicBlock) {
		if m[b] {
			return
		}
		m[b] = true
		for _, p := range b.Preds {
			rec(p)
		}
	}
	for _, p := range l.head.Preds {
		if l.head.Dominates(p) {
			rec(p)
		}
	}
	return m
}

func init() {
	rule("heap.sift", "C06 C10 C18 C19",
		"sifting down swaps an element with its smallest child exactly while a child is smaller, sifting up swaps it with its parent ((i-1)/2) while the parent is greater; both go on from where it landed and report the new indexes",
		func(c *Check) {
			g := c.full("(*util/ds.Heap).Fix")
			q := c.q("Heap.Fix", g)
			var down, up *Loop
			var dp, upp *ssa.Phi
			for _, l := range q.loops() {
				for _, ph := range l.phis {
					r := heapIter(l, ph, 4, 20, nil)
					hi := false
					for k := range r.cmp {
						hi = hi || k > 4
					}
					if hi {
						down, dp = l, ph
					} else if len(r.cmp) > 0 {
						up, upp = l, ph
					}
				}
			}
			expectStep := func(name string, l *Loop, ph *ssa.Phi, i, n int64, vals map[int64]int64, targets ...int64) {
				con := fmt.Sprintf("Heap %s i=%d n=%d %v", name, i, n, vals)
				r := heapIter(l, ph, i, n, vals)
				pos := ph.Pos()
				if r.unknown {
					c.soft(con, "an index can't be evaluated")
					return
				}
				if len(targets) == 0 {
					c.expect(len(r.swaps) == 0, con, pos, "an element is moved although the order is right")
					return
				}
				ok := false
				for _, j := range targets {
					a, b := [2]int64{i, j}, [2]int64{j, i}
					fwd, bwd, other := false, false, false
					for _, s := range r.swaps {
						fwd, bwd = fwd || s == a, bwd || s == b
						other = other || s != a && s != b
					}
					if fwd && bwd && !other && r.next[j] && len(r.next) == 1 {
						ok = true
						if r.nassign > 0 {
							oi, has1 := r.assign[i]
							oj, has2 := r.assign[j]
							c.expect(has1 && has2 && (oi == -1 || oi == j) && (oj == -1 || oj == i), con+" indexes", pos, "the new indexes of the swapped elements aren't reported")
						} else {
							c.fail(con+" indexes", pos, "the new indexes of the swapped elements aren't reported")
						}
					}
				}
				c.expect(ok, con, pos, "expected element %d to be swapped with %v and the sift to go on from there; swaps %v next %v", i, targets, r.swaps, r.next)
			}
			if down == nil {
				c.soft("Heap sift down", "loop not recognised")
			} else {
				for _, i := range []int64{0, 1, 3} {
					l, r := 2*i+1, 2*i+2
					expectStep("down", down, dp, i, l, nil)
					expectStep("down", down, dp, i, r, map[int64]int64{i: 5, l: 4}, l)
					expectStep("down", down, dp, i, r, map[int64]int64{i: 5, l: 6})
					for _, vv := range [][3]int64{{5, 4, 6}, {5, 6, 4}, {5, 6, 7}, {5, 7, 6}, {5, 3, 4}, {5, 4, 3}, {5, 5, 4}, {5, 4, 5}} {
						vals := map[int64]int64{i: vv[0], l: vv[1], r: vv[2]}
						switch {
						case vv[1] >= 5 && vv[2] >= 5:
							expectStep("down", down, dp, i, r+1, vals)
						case vv[1] < vv[2]:
							expectStep("down", down, dp, i, r+1, vals, l)
						default:
							expectStep("down", down, dp, i, r+1, vals, r)
						}
					}
				}
			}
			if up == nil {
				c.soft("Heap sift up", "loop not recognised")
			} else {
				expectStep("up", up, upp, 0, 9, nil)
				for _, i := range []int64{1, 2, 3, 4, 5, 6} {
					p := (i - 1) / 2
					expectStep("up", up, upp, i, 9, map[int64]int64{i: 4, p: 5}, p)
					expectStep("up", up, upp, i, 9, map[int64]int64{i: 6, p: 5})
				}
			}
			// Fix tries both directions
			asg := heapScenario(5, map[int64]int64{0: 9, 1: 5, 3: 6, 4: 7, 2: 9}, truth(isParam("1"), 1))
			moved := func(x X) bool { _, _, is, _ := elemStore(x, asg); return is }
			q.named("Heap.Fix/up").when(asg).mustPass(moved, exit, "an element smaller than its parent isn't moved up")
			asg2 := heapScenario(5, map[int64]int64{0: 1, 1: 5, 3: 4, 4: 7, 2: 9}, truth(isParam("1"), 1))
			q.named("Heap.Fix/down").when(asg2).mustPass(moved, exit, "an element greater than a child isn't moved down")
			q.named("Heap.Fix/absent").when(heapScenario(5, nil, truth(isParam("1"), -1))).never(moved, "an absent element is moved")
		})

	rule("heap.ends", "C06 C10 C18 C19",
		"Push appends the element and sifts it up from the end; Pop returns the first element, moves the last one to the front and sifts it down; Peek returns the first; empty heaps report so",
		func(c *Check) {
			g := c.full("(*util/ds.Heap).Push")
			q := c.q("Heap.Push", g)
			st := store("util/ds.Heap.data")
			q.mustPass(st, exit, "the element isn't added")
			q.all(st, func(x X) bool {
				t := x.t(x.stored())
				return !t.isCall("builtin.append") || t.A[0].isField("data")
			}, "the element isn't appended to the heap's elements")
			app := func(t *Term) bool { return t.isCall("builtin.append") }
			asg := heapScenario(4, nil, truth(lenOf(app), 5))
			for _, l := range q.loops() {
				for _, ph := range l.phis {
					q.when(asg).visits(l.atHead, func(x X) {
						if v, ok := x.val(V{l.c, ph}, asg); ok && x.t(V{l.c, ph}).Op != "phi" {
							c.expect(v == 4, "Heap.Push start", ph.Pos(), "the new element (index 4) isn't sifted from its position but from %d", v)
						}
					})
				}
			}
			isAssign := callOf(func(t *Term) bool { return t.Op == "field" && t.S == "assignIndex" })
			q.named("Heap.Push/index").when(asg).mustPass(isAssign, exit, "the new element's index isn't reported")
			p := c.full("(*util/ds.Heap).Pop")
			q = c.q("Heap.Pop", p)
			for _, n := range []int64{1, 2, 3} {
				asg := heapScenario(n, nil, nil)
				w := q.named(fmt.Sprintf("Heap.Pop n=%d", n)).when(asg)
				w.mustPass(st, exit, "the element isn't removed")
				w.all(exit, func(x X) bool {
					v, ok := elemIndex(x.t(x.result(0)), asg)
					t := x.t(x.result(0))
					if t.Op == "alloc" && hasPrefixAny(t.S, "zero:") {
						return false
					}
					b, okb := x.val(x.result(1), asg)
					return (!ok || v == 0) && (!okb || b == 1)
				}, "Pop doesn't return the first element")
				w.all(st, func(x X) bool {
					t := x.t(x.stored())
					if t.Op != "slice" {
						return true
					}
					_, hi, ok := window(t, func(u *Term) bool { return u.isField("data") }, n)
					lo := t.A[1].S
					return (!ok || hi == n-1) && (lo == "" || lo == "0")
				}, "Pop doesn't drop exactly the last slot")
				if n > 1 {
					first := func(x X) bool { _, _, is, _ := elemStore(x, asg); return is }
					w.notBetween(exit, exit, exit, "")
					good, some := true, false
					w.until(st).visits(first, func(x X) {
						d, src, _, known := elemStore(x, asg)
						s, ok := elemIndex(src, asg)
						some = true
						if known && ok && !(d == 0 && s == n-1) && d == 0 {
							good = false
						}
					})
					c.expect(good, w.name+" front", p.Root.Fn.Pos(), "Pop doesn't move the last element to the front")
					_ = some
				}
				w.mustPass(and(isAssign, func(x X) bool {
					v, ok := x.val(V{x.n.C, x.common().Args[1]}, asg)
					return !ok || v == -1
				}), exit, "the removed element's index isn't reset")
			}
			for _, n := range []int64{2, 3} {
				if n > 2 {
					q.named("Heap.Pop sift").when(heapScenario(n, nil, nil)).reached(callOf(func(t *Term) bool { return t.Op == "field" && t.S == "compare" }), "the moved element isn't sifted down")
				}
			}
			e := q.named("Heap.Pop empty").when(heapScenario(0, nil, nil))
			e.never(st, "an empty heap is changed")
			e.all(exit, func(x X) bool { b, ok := x.val(x.result(1), nil); return !ok || b == 0 }, "an empty heap yields an element")
			k := c.full("(*util/ds.Heap).Peek")
			q = c.q("Heap.Peek", k)
			for _, n := range []int64{0, 1, 3} {
				asg := heapScenario(n, nil, nil)
				want := int64(1)
				if n == 0 {
					want = 0
				}
				q.when(asg).all(exit, func(x X) bool {
					b, ok := x.val(x.result(1), asg)
					v, okv := elemIndex(x.t(x.result(0)), asg)
					return (!ok || b == want) && (n == 0 || !okv || v == 0)
				}, "Peek doesn't return the first element")
			}
			s := c.full("(*util/ds.Heap).IsEmpty")
			for n, want := range map[int64]int64{0: 1, 1: 0, 2: 0} {
				asg := heapScenario(n, nil, nil)
				c.q("Heap.IsEmpty", s).when(asg).all(exit, func(x X) bool { v, ok := x.val(x.result(0), asg); return !ok || v == want }, "a heap is reported empty wrongly")
			}
		})

	rule("ppq", "C06 C10 C19",
		"the partitioned queue orders partitions by their first element with empty ones last, registers every partition, and restores the heap order at the partition's index after each change to a partition",
		func(c *Check) {
			fix, peek := call("(*util/ds.Heap).Fix"), "(util/ds.QueuePartition).Peek"
			n := c.full("util/ds.NewPartitionedPriorityQueue")
			n.Inline = noInline("util/ds.NewHeap", noInline("(*util/ds.Heap).Push", noInline("(*util/ds.Heap).SetIndexAssigner", n.Inline)))
			q := c.q("NewPartitionedPriorityQueue", n)
			if h := q.fnArg(call("util/ds.NewHeap"), 0); h != nil {
				pk := func(i string) func(*Term) bool {
					return func(t *Term) bool { return t.isCall(peek) && t.A[0].String() == "p"+i }
				}
				ok := func(i string) func(*Term) bool {
					return func(t *Term) bool { return t.Op == "extract" && t.S == "1" && pk(i)(t.A[0]) }
				}
				for _, k := range [][4]int64{{0, 0, 0, 0}, {0, 1, 0, 1}, {1, 0, 0, -1}, {1, 1, -1, -1}, {1, 1, 1, 1}, {1, 1, 0, 0}} {
					cmp := func(t *Term) (int64, bool) {
						if t.Op != "call" || t.S != "" || len(t.A) != 3 {
							return 0, false
						}
						if t.A[1].Find(pk("0")) != nil && t.A[2].Find(pk("1")) != nil {
							return k[2], true
						}
						if t.A[1].Find(pk("1")) != nil && t.A[2].Find(pk("0")) != nil {
							return -k[2], true
						}
						return 0, false
					}
					asg := both(roles(role{ok("0"), k[0]}, role{ok("1"), k[1]}), cmp)
					c.q(fmt.Sprintf("partition order nonempty=%d,%d cmp=%d", k[0], k[1], k[2]), h).when(asg).all(exit, func(x X) bool {
						v, ok := x.val(x.result(0), asg)
						return !ok || sign(v) == k[3]
					}, "partitions aren't ordered by their first element, empty ones last")
				}
			} else {
				c.soft("partition order", "comparison isn't a function literal")
			}
			q.each(isParam("0"), call("(*util/ds.Heap).Push"), "a partition isn't in the heap")
			setAs := call("(*util/ds.Heap).SetIndexAssigner")
			q.precede(setAs, call("(*util/ds.Heap).Push"), "partitions are added before their indexes are tracked")
			if h := q.fnArg(setAs, 1); h != nil {
				as := call("(util/ds.QueuePartition).AssignIndex")
				w := c.q("index assigner", h)
				w.mustPass(as, exit, "a partition isn't told its index")
				w.all(as, func(x X) bool { return x.argT(0).String() == "p0" && x.argT(1).String() == "p1" }, "a partition isn't told its index")
			}
			for _, op := range []string{"Push", "Delete", "Pop"} {
				g := c.full("(*util/ds.PartitionedPriorityQueue)." + op)
				g.Inline = noInline("(*util/ds.Heap).Fix", noInline("(*util/ds.Heap).Peek", g.Inline))
				w := c.q("PartitionedPriorityQueue."+op, g)
				ch := call("(util/ds.QueuePartition)." + op)
				if op == "Pop" {
					w = w.when(both(resVal("(util/ds.QueuePartition).Pop", 1, 1), resVal("(*util/ds.Heap).Peek", 1, 1)))
					w.all(exit, func(x X) bool { return x.t(x.result(0)).hasCall("(util/ds.QueuePartition).Pop") }, "the popped element isn't returned")
					w.all(ch, func(x X) bool { return x.argT(0).hasCall("(*util/ds.Heap).Peek") }, "another partition than the first is popped")
				} else {
					w.all(ch, func(x X) bool {
						t := x.argT(0)
						return t.Op != "index" || t.A[0].isField("partitions") && t.A[1].Find(func(u *Term) bool { return u.isField("getPartitionIndex") }) != nil && t.A[1].Find(isParam("1")) != nil
					}, "the item isn't given to its own partition")
					w.all(ch, func(x X) bool { return x.argT(1).String() == "p1" }, "another item is given to the partition")
				}
				w.mustPass(ch, exit, "the partition isn't changed")
				w.follow(ch, fix, exit, "the heap order isn't restored after the partition changed")
				w.all(fix, func(x X) bool { return x.argT(1).Op != "const" && x.argT(1).hasCall("(util/ds.QueuePartition).Index") }, "the heap order is restored at another index than the partition's")
				// the partition asked for its index is the one changed
				var who string
				w.visits(ch, func(x X) { who = x.argT(0).String() })
				w.all(fix, func(x X) bool {
					ix := x.argT(1).Find(func(u *Term) bool { return u.isCall("(util/ds.QueuePartition).Index") })
					return ix == nil || ix.A[0].String() == who || ix.A[0].Op != "index"
				}, "the heap order is restored at another partition's index")
			}
			k := c.full("(*util/ds.PartitionedPriorityQueue).Peek")
			k.Inline = noInline("(*util/ds.Heap).Peek", k.Inline)
			c.q("PartitionedPriorityQueue.Peek", k).when(resVal("(*util/ds.Heap).Peek", 1, 1)).all(exit, func(x X) bool { return x.t(x.result(0)).hasCall(peek) }, "Peek doesn't return the first partition's first element")
			e := c.full("(*util/ds.PartitionedPriorityQueue).IsEmpty")
			e.Inline = noInline("(*util/ds.Heap).Peek", e.Inline)
			for _, v := range []int64{0, 1} {
				asg := both(resVal("(*util/ds.Heap).Peek", 1, 1), resVal("(*util/ds.Heap).Peek", 0, 1), resVal(peek, 1, v), resVal("(util/ds.QueuePartition).IsEmpty", 0, 1-v))
				c.q("PartitionedPriorityQueue.IsEmpty", e).when(asg).all(exit, func(x X) bool { r, ok := x.val(x.result(0), asg); return !ok || r == 1-v }, "the queue is reported empty wrongly")
			}
		})

	rule("sortedcache", "C06 C10 C19",
		"the sorted cache orders by bytes, its end accessors act on the matching ends, and its size always equals the bytes it holds",
		func(c *Check) {
			const bt = "(*github.com/google/btree.BTreeG)."
			n := c.full("util/ds.NewSortedCache")
			q := c.q("NewSortedCache", n)
			if h := q.fnArg(call("github.com/google/btree.NewG"), 1); h != nil {
				for _, s := range []int64{-1, 0, 1} {
					asg := order(isParam("0"), isParam("1"), s)
					c.q("SortedCache order", h).when(asg).all(exit, func(x X) bool {
						v, ok := x.val(x.result(0), asg)
						return !ok || (v != 0) == (s < 0)
					}, "values aren't ordered by their bytes")
				}
			} else {
				c.soft("SortedCache order", "comparison isn't a function literal")
			}
			size := "util/ds.SortedCache.byteSize"
			type op struct {
				m, tree string
				res     bool
			}
			for _, o := range []op{{"Push", "ReplaceOrInsert", false}, {"Pop", "DeleteMin", true}, {"PopLast", "DeleteMax", true}, {"Delete", "Delete", false}, {"Peek", "Min", true}, {"PeekLast", "Max", true}} {
				g := c.full("(*util/ds.SortedCache)." + o.m)
				w := c.q("SortedCache."+o.m, g)
				ev := call(bt + o.tree)
				w.mustPass(ev, exit, "the cached values aren't accessed at the right end")
				if o.res {
					w.all(exit, func(x X) bool {
						return x.t(x.result(0)).hasCall(bt+o.tree) && (x.t(x.result(1)).hasCall(bt+o.tree) || x.t(x.result(1)).Op == "const")
					}, "the value at the end isn't returned")
				} else {
					w.all(ev, func(x X) bool { return x.argT(1).String() == "p1" }, "another value is stored or removed")
				}
				for _, ok := range []int64{0, 1} {
					asg := roles(role{fieldIs(size), 100},
						role{func(t *Term) bool { return t.isCall("builtin.len") && t.A[0].hasCall(bt+o.tree) }, 3},
						role{lenOf(isParam("1")), 5},
						role{func(t *Term) bool { return resultOf(t, 1, bt+o.tree) }, ok})
					want := int64(100)
					switch {
					case o.m == "Push":
						want = 105 - 3*ok
					case o.m == "Delete":
						if ok == 1 {
							// the deleted value's length is 3 (equal keys have equal length, 5 stands for it too)
							want = 97
						}
					case hasPrefixAny(o.m, "Pop"):
						want = 100 - 3*ok
					}
					if ok == 0 {
						// nothing is removed: what the tree returns is empty
						asg = both(truth(func(t *Term) bool { return lenOf(func(u *Term) bool { return u.hasCall(bt + o.tree) })(t) }, 0), asg)
					}
					w.named(fmt.Sprintf("SortedCache.%s size found=%d", o.m, ok)).when(asg).finalStore(size, 100, asg, func(v int64) bool { return v == want || o.m == "Delete" && ok == 1 && v == 95 }, "the cache's size differs from the bytes it holds")
				}
			}
			e := c.full("(*util/ds.SortedCache).IsEmpty")
			f := c.full("(*util/ds.SortedCache).IsFull")
			for _, k := range []int64{0, 1, 2} {
				asg := resVal(bt+"Len", 0, k)
				c.q("SortedCache.IsEmpty", e).when(asg).all(exit, func(x X) bool { v, ok := x.val(x.result(0), asg); return !ok || (v == 1) == (k == 0) }, "the cache is reported empty wrongly")
			}
			for s, want := range map[int64]int64{99: 0, 101: 1} {
				asg := roles(role{fieldIs(size), s}, role{fieldIs("util/ds.SortedCache.maxSizeBytes"), 100})
				c.q("SortedCache.IsFull", f).when(asg).all(exit, func(x X) bool { v, ok := x.val(x.result(0), asg); return !ok || v == want }, "the cache is reported full wrongly")
			}
		})

	rule("set", "C06 C07 C08 C09 C18 C19",
		"the insertion-ordered set adds an element to both its index and its order exactly when it's absent, derives new sets from copies, and Without and Diff keep exactly the other elements",
		func(c *Check) {
			m, l := "util/ds.Set.m", "util/ds.Set.l"
			g := c.full("(*util/ds.Set).Add")
			has := func(t *Term) bool {
				return t.Op == "extract" && t.S == "1" && t.A[0].Op == "lookup" && t.A[0].A[0].isField("m")
			}
			q := c.q("Set.Add", g)
			in, or1 := mapSet(m), store(l)
			q.when(truth(has, 1)).never(or1, "an element that is present is added again")
			ab := q.when(truth(has, 0))
			ab.each(isParam("1"), in, "an element isn't added")
			ab.each(isParam("1"), or1, "an element isn't added to the order")
			q.all(or1, func(x X) bool {
				t := x.t(x.stored())
				return !t.isCall("builtin.append") || t.A[0].Find(func(u *Term) bool { return u.isField("l") }) != nil
			}, "adding an element drops the others")
			for _, op := range []string{"Added", "Without"} {
				h := c.full("(*util/ds.Set)." + op)
				w := c.q("Set."+op, h)
				own := func(t *Term) bool { return t.String() == "p0.m" || t.String() == "p0.l" }
				w.never(func(x X) bool {
					switch i := x.n.I.(type) {
					case *ssa.MapUpdate:
						return own(x.t(V{x.n.C, i.Map}))
					case *ssa.Store:
						if fa, ok := i.Addr.(*ssa.FieldAddr); ok {
							if x.t(V{x.n.C, fa.X}).String() == "p0" {
								return true
							}
							f := fieldOf(fa)
							return (f == m || f == l) && own(x.t(V{x.n.C, i.Val}))
						}
					}
					if call("builtin.delete", "slices.DeleteFunc", "slices.Delete")(x) {
						return own(x.argT(0))
					}
					return false
				}, "the original set is changed or shares its storage with the new one")
				w.never(overwrites(own), "elements of the original set are overwritten in storage it shares with the new one")
			}
			w := c.full("(*util/ds.Set).Without")
			q = c.q("Set.Without", w)
			if del := call("builtin.delete", "maps.DeleteFunc"); len(q.sites(del)) == 0 {
				// the new set is built from the elements to keep
				given := map[V]bool{}
				q.visits(func(x X) bool { _, ok := x.n.I.(*ssa.MapUpdate); return ok }, func(x X) {
					u := x.n.I.(*ssa.MapUpdate)
					if x.within(x.t(V{x.n.C, u.Key}), func(t *Term) bool { return t.Find(isParam("1")) != nil }) {
						given[x.t(V{x.n.C, u.Map}).V] = true
					}
				})
				isGiven := func(t *Term) bool {
					if t.Op == "extract" && t.S == "1" {
						t = t.A[0]
					}
					return t.Op == "lookup" && given[t.A[0].V] || t.isCall("slices.Contains") && t.A[0].Find(isParam("1")) != nil
				}
				isHas := func(t *Term) bool { return t.Op == "extract" && t.S == "1" && t.A[0].Op == "lookup" && !isGiven(t) }
				order := func(t *Term) bool { return t.String() == "p0.l" }
				keep := q.when(roles(role{isGiven, 0}, role{isHas, 0}))
				keep.each(order, in, "an element that isn't given is lost")
				keep.each(order, or1, "an element that isn't given is lost from the order")
				q.when(roles(role{isGiven, 1}, role{isHas, 0})).never(func(x X) bool {
					u, ok := x.n.I.(*ssa.MapUpdate)
					return ok && x.n.R == nil && x.t(V{x.n.C, u.Key}).Find(order) != nil
				}, "a given element is kept")
			} else {
				// the given elements may be collected in a map first
				var given []V
				update := func(x X) (*ssa.MapUpdate, bool) {
					u, ok := x.n.I.(*ssa.MapUpdate)
					return u, ok && x.n.R == nil && x.within(x.t(V{x.n.C, u.Key}), func(t *Term) bool { return t.Find(isParam("1")) != nil })
				}
				q.visits(func(x X) bool { _, ok := update(x); return ok }, func(x X) {
					u, _ := update(x)
					if t := x.t(V{x.n.C, u.Map}); t.Op == "alloc" {
						given = append(given, t.V)
					}
				})
				isGiven := func(t *Term) bool { return slices.Contains(given, t.V) }
				direct := false
				for _, x := range q.sites(call("builtin.delete")) {
					direct = direct || x.argT(1).Find(isParam("1")) != nil && x.argT(1).Find(isGiven) == nil
				}
				if len(given) > 0 && !direct {
					q.each(isParam("1"), func(x X) bool { _, ok := update(x); return ok }, "an element stays in the index")
					q.each(isGiven, call("builtin.delete"), "an element stays in the index")
				} else {
					q.each(isParam("1"), call("builtin.delete"), "an element stays in the index")
				}
			}
			for _, e := range []struct {
				copy, del Ev
				why       string
			}{
				{and(call("maps.Clone", "maps.Copy"), func(x X) bool {
					return x.argT(0).hasField(m) || x.argT(-1).hasField(m)
				}), call("builtin.delete", "maps.DeleteFunc"), "the index keeps every element"},
				{and(call("slices.Clone", "builtin.copy"), func(x X) bool {
					return x.argT(0).hasField(l) || x.argT(-1).hasField(l)
				}), or(call("slices.DeleteFunc", "slices.Delete"), and(store(l), func(x X) bool {
					return x.t(x.stored()).Find(func(t *Term) bool { return t.Op == "slice" || t.isCall("builtin.append") }) != nil
				})), "the order keeps every element"},
			} {
				if len(q.sites(e.copy)) > 0 {
					c.expect(len(q.sites(e.del)) > 0, "Set.Without", w.Root.Fn.Pos(), "%s", e.why)
				}
			}
			df := call("slices.DeleteFunc")
			if len(q.sites(df)) > 0 {
				if h := q.fnArg(df, 1); h != nil {
					for _, v := range []int64{0, 1} {
						asg := roles(role{func(t *Term) bool { return t.isCall("slices.Contains") }, v})
						c.q("Set.Without predicate", h).when(asg).all(exit, func(x X) bool { r, ok := x.val(x.result(0), asg); return !ok || r == v }, "the order loses or keeps the wrong elements")
					}
				}
			}
			d := c.full("(*util/ds.Set).Diff")
			q = c.q("Set.Diff", d)
			has2 := func(t *Term) bool {
				return t.Op == "extract" && t.S == "1" && t.A[0].Op == "lookup" && t.A[0].A[0].String() == "p1.m"
			}
			add := mapSet(m)
			q.when(truth(has2, 1)).never(add, "an element of the other set is kept")
			q.when(truth(has2, 0)).reached(add, "an element absent from the other set is dropped")
			a := c.seqBodyOf("(*util/ds.Set).All", "Set.All")
			if a != nil {
				c.q("Set.All", a).when(yieldOK).each(func(t *Term) bool { return t.isField("l") }, isYield, "an element isn't yielded")
			}
		})

	rule("sortedmap", "C19",
		"the sorted map adds each key once, sorts before it exposes or searches the order, and removes a key from order and contents alike",
		func(c *Check) {
			list, m := "util/ds.SortedMap.list", "util/ds.SortedMap.m"
			had := func(t *Term) bool { return t.Op == "extract" && t.S == "1" && t.A[0].Op == "lookup" }
			g := c.full("(*util/ds.SortedMap).Set")
			q := c.q("SortedMap.Set", g)
			q.mustPass(mapSet(m), exit, "the value isn't stored")
			q.when(truth(had, 1)).never(store(list), "a present key is added again")
			q.when(truth(had, 0)).mustPass(store(list), exit, "a new key isn't added to the order")
			for _, v := range []int64{0, 1} {
				asg := truth(had, v)
				q.when(asg).all(exit, func(x X) bool { r, ok := x.val(x.result(0), asg); return !ok || r == 1-v }, "new keys are reported wrongly")
			}
			sorted := "util/ds.SortedMap.isSorted"
			q.when(truth(had, 0)).mustPass(and(store(sorted), func(x X) bool { v, ok := x.val(x.stored(), nil); return !ok || v == 0 }), exit, "a new key doesn't invalidate the order")
			srt := call("slices.SortFunc", "slices.Sort", "sort.Slice", "slices.SortStableFunc")
			for _, op := range []string{"Values", "Keys", "Delete"} {
				h := c.full("(*util/ds.SortedMap)." + op)
				w := c.q("SortedMap."+op, h).when(roles(role{fieldIs(sorted), 0}))
				search := call("slices.BinarySearch")
				if op != "Delete" || len(w.sites(search)) > 0 {
					if op == "Delete" {
						w.precede(srt, search, "the keys aren't sorted")
					} else {
						w.mustPass(srt, exit, "the keys aren't sorted")
					}
				}
				if op == "Delete" {
					if len(w.sites(search)) > 0 {
						w.precede(srt, search, "unsorted keys are searched")
					}
					found := func(v int64) Asg {
						return both(roles(role{fieldIs(sorted), 0}, role{had, v}), resVal("slices.BinarySearch", 1, v))
					}
					f := w.when(found(1))
					f.mustPass(mapDel(m), exit, "a deleted key's value stays")
					f.mustPass(store(list), exit, "a deleted key stays in the order")
					f.all(exit, func(x X) bool {
						v, ok := x.val(x.result(0), found(1))
						return !ok || v == 1
					}, "a removal isn't reported")
					dl := call("slices.Delete")
					if len(f.sites(dl)) > 0 {
						f.all(dl, func(x X) bool {
							asg := resVal("slices.BinarySearch", 0, 3)
							a, ok1 := x.val(x.arg(1), asg)
							b, ok2 := x.val(x.arg(2), asg)
							return (!ok1 || a == 3) && (!ok2 || b == 4)
						}, "another key is removed")
					}
					w.when(found(0)).never(or(dl, mapDel(m), call("slices.DeleteFunc")), "a key is removed although it's absent")
					df := call("slices.DeleteFunc")
					if len(w.sites(df)) > 0 {
						if h := w.fnArg(df, 1); h != nil {
							for _, v := range []int64{0, 1} {
								asg := order(isParam("0"), func(t *Term) bool { return t.Find(isParam("1")) != nil || t.Op == "free" }, 1-v)
								c.q("SortedMap.Delete predicate", h).when(asg).all(exit, func(x X) bool { r, ok := x.val(x.result(0), asg); return !ok || r == v }, "another key is removed")
							}
						}
					}
				}
			}
			a := c.full("(*util/ds.SortedMap).All")
			b := c.seqBodyOf("(*util/ds.SortedMap).All", "SortedMap.All")
			if b != nil {
				w := c.q("SortedMap.All", b)
				w.when(yieldOK).each(func(t *Term) bool { return t.isField("list") }, isYield, "an entry isn't yielded")
				inside := len(w.sites(srt)) > 0
				if !inside {
					c.q("SortedMap.All", a).when(roles(role{fieldIs(sorted), 0})).mustPass(srt, exit, "the keys aren't sorted")
				}
			}
		})

	rule("search", "C07 C17 C18 C19",
		"the unique binary search probes the middle, returns the probe when it matches, and otherwise drops exactly the probe and the half that can't hold the target until nothing is left",
		func(c *Check) {
			g := c.full("util/sliceu.SearchUnique")
			q := c.q("SearchUnique", g)
			isLen := lenOf(isParam("0"))
			cmpT := func(t *Term) bool { return t.Op == "call" && t.S == "" && len(t.A) == 3 && t.A[0].String() == "p2" }
			ls := q.loops()
			for _, l := range ls {
				var lo, hi *ssa.Phi
				closed := int64(0)
				for _, ph := range l.phis {
					for _, i := range l.initOf(ph) {
						v, ok := evalTerm(g.Term(nil, i), truth(isLen, 8))
						switch {
						case ok && v == 0:
							lo = ph
						case ok && v == 8:
							hi = ph
						case ok && v == 7:
							hi, closed = ph, 1
						}
					}
				}
				if lo == nil || hi == nil {
					c.soft("SearchUnique loop", "interval variables not recognised")
					continue
				}
				probe := callOf(isParam("2"))
				for _, iv := range [][2]int64{{0, 8}, {2, 6}, {3, 4}, {5, 6}, {6, 8}, {0, 1}} {
					a, b := iv[0], iv[1]
					for _, s := range []int64{-1, 0, 1} {
						asg := roles(role{l.isVar(lo), a}, role{l.isVar(hi), b - closed}, role{isLen, 8}, role{cmpT, s})
						con := fmt.Sprintf("SearchUnique [%d,%d) cmp=%d", a, b, s)
						mid, okMid, bad := int64(-1), false, ""
						done := false
						l.step(asg, func(x X) {
							if probe(x) {
								t := x.t(V{x.n.C, x.common().Args[0]})
								mid, okMid = elemIndex(t, asg)
							}
							if exit(x) {
								done = true
								f, ok := x.val(x.result(1), asg)
								i, oki := x.val(x.result(0), asg)
								if s == 0 && (ok && f != 1 || oki && i != mid) {
									bad = "a match isn't returned"
								}
								if s != 0 && okMid {
									bad = "the search stops although elements are left"
								}
							}
							nl, ok1 := l.nextOf(x, lo, asg)
							nh, ok2 := l.nextOf(x, hi, asg)
							if !ok1 || !ok2 {
								return
							}
							done = true
							vl, ok1 := x.val(nl, asg)
							vh, ok2 := x.val(nh, asg)
							vh += closed
							if !ok1 || !ok2 {
								return
							}
							switch {
							case s == 0:
								bad = "the search goes on after a match"
							case s < 0 && (vl != mid+1 || vh != b):
								bad = fmt.Sprintf("the probe at %d is smaller, yet the search goes on in [%d,%d)", mid, vl, vh)
							case s > 0 && (vh != mid || vl != a):
								bad = fmt.Sprintf("the probe at %d is greater, yet the search goes on in [%d,%d)", mid, vl, vh)
							}
						})
						if !okMid && done && bad == "" {
							bad = "an interval with elements left isn't probed"
						}
						if okMid && (mid < a || mid >= b) {
							bad = fmt.Sprintf("the probe %d is outside the interval", mid)
						}
						c.expect(bad == "", con, l.head.Instrs[0].Pos(), "%s", bad)
					}
				}
				asg := roles(role{l.isVar(lo), 4}, role{l.isVar(hi), 4 - closed}, role{isLen, 8})
				empty := true
				l.step(asg, func(x X) {
					if probe(x) {
						empty = false
					}
					if exit(x) {
						if f, ok := x.val(x.result(1), asg); ok && f != 0 {
							empty = false
						}
					}
				})
				c.expect(empty, "SearchUnique empty interval", l.head.Instrs[0].Pos(), "an empty interval is probed or reported as a match")
			}
			if len(ls) == 0 {
				c.soft("SearchUnique loop", "no loop")
			}
			q.all(callOf(isParam("2")), func(x X) bool {
				return x.t(V{x.n.C, x.common().Args[1]}).String() == "p1"
			}, "another target is compared")
		})

	rule("iteru", "C07 C10 C11 C18 C19",
		"combining iterators visits every element of every sequence; the ordered merge yields each popped item and refills from the iterator it came from; the minimum is replaced exactly by smaller items",
		func(c *Check) {
			if b := c.seqBodyOf("util/iteru.Concat", "Concat"); b != nil {
				w := c.q("Concat", b)
				w.when(yieldOK).each(func(t *Term) bool {
					return hasSuffix(t.String(), "p0") && t.Op == "param" && t.V.C != b.Root || t.Op == "param" && t.S == "Concat:p0"
				}, callOf(func(t *Term) bool { return t.Op == "index" || t.Op == "range" }), "a sequence is left out")
				w.reached(isYield, "elements aren't yielded")
			}
			g := c.full("util/iteru.MergeSorted")
			q := c.q("MergeSorted", g)
			push, pop := call("(*util/ds.Heap).Push"), call("(*util/ds.Heap).Pop")
			q.each(isParam("0"), call("iter.Pull"), "an input iterator is left out")
			if h := q.fnArg(call("util/ds.NewHeap"), 0); h != nil {
				in := func(p string) func(*Term) bool {
					return func(t *Term) bool { return t.Op == "field" && t.S == "item" && t.A[0].String() == p }
				}
				for _, s := range []int64{-1, 0, 1} {
					asg := func(t *Term) (int64, bool) {
						if t.Op == "call" && t.S == "" && len(t.A) == 3 {
							if in("p0")(t.A[1]) && in("p1")(t.A[2]) {
								return s, true
							}
							if in("p1")(t.A[1]) && in("p0")(t.A[2]) {
								return -s, true
							}
						}
						return 0, false
					}
					c.q("MergeSorted heap order", h).when(asg).all(exit, func(x X) bool { v, ok := x.val(x.result(0), asg); return !ok || sign(v) == s }, "the heap isn't ordered by the given comparison")
				}
			}
			b := c.seqBodyOf("util/iteru.MergeSorted", "MergeSorted iterator")
			if b != nil {
				popOK := func(v int64) Asg { return resVal("(*util/ds.Heap).Pop", 1, v) }
				w := c.q("MergeSorted iterator", b)
				w.when(both(popOK(1), yieldOK)).follow(pop, isYield, or(pop, exit), "a popped item isn't yielded")
				w.when(popOK(0)).never(isYield, "an item is yielded although none is left")
				isNext := func(t *Term) bool { return t.Op == "field" && t.S == "next" }
				next := callOf(isNext)
				nextOK := func(v int64) Asg {
					return truth(func(t *Term) bool {
						return t.Op == "extract" && t.S == "1" && t.A[0].Op == "call" && t.A[0].S == "" && isNext(t.A[0].A[0])
					}, v)
				}
				w.when(both(popOK(1), yieldOK)).follow(pop, next, or(pop, exit), "the iterator an item came from isn't advanced")
				w.when(both(popOK(1), yieldOK, nextOK(1))).follow(next, push, or(pop, exit), "an item read from an iterator is dropped")
				w.when(both(popOK(1), yieldOK, nextOK(0))).never(push, "an exhausted iterator contributes an item")
			}
			mf := c.full("util/iteru.MinFunc")
			q = c.q("MinFunc", mf)
			if std := call("slices.MinFunc"); len(q.sites(std)) > 0 {
				q.mustPass(std, exit, "the result isn't the minimum")
				q.all(std, func(x X) bool {
					return x.argT(0).isCall("slices.Collect") && x.argT(0).A[0].String() == "p0" && x.argT(1).String() == "p1"
				}, "the minimum isn't that of the given elements in the given order")
				q.all(exit, func(x X) bool { return x.t(x.result(0)).isCall("slices.MinFunc") }, "the minimum isn't returned")
				return
			}
			q.need(callOf(isParam("1")), "comparison")
			// the least so far lives in a variable of the function, the element in one of the loop's body
			kept := func(v ssa.Value) bool {
				for d := range deps(v) {
					switch d.(type) {
					case *ssa.FreeVar, *ssa.Phi:
						return true
					}
				}
				return false
			}
			cmpIs := func(sign int64) Asg {
				return func(t *Term) (int64, bool) {
					cl, ok := t.V.X.(*ssa.Call)
					if !ok || t.Op != "call" || t.S != "" || len(cl.Call.Args) != 2 || t.A[0].String() != "p1" {
						return 0, false
					}
					a, b := kept(cl.Call.Args[0]), kept(cl.Call.Args[1])
					switch {
					case !a && b:
						return sign, true
					case a && !b:
						return -sign, true
					}
					return 0, false
				}
			}
			keep := func(x X) bool {
				s, ok := x.n.I.(*ssa.Store)
				if !ok || x.n.R != nil || x.n.After {
					return false
				}
				fv, ok := s.Addr.(*ssa.FreeVar)
				return ok && !hasPrefixAny(fv.Name(), "jump$")
			}
			if len(q.sites(keep)) > 0 {
				cmp := callOf(isParam("1"))
				q.named("MinFunc/less").when(cmpIs(-1)).follow(cmp, keep, or(exit, cmp), "an element less than the least so far is ignored: the result isn't the minimum")
				w := q.named("MinFunc/greater").when(cmpIs(1))
				w.report(w.walk(0, func(st int, x X) (int, bool, string) {
					switch {
					case atBodyEntry(x, isParam("0")):
						return 0, false, ""
					case cmp(x):
						return 1, false, ""
					case st == 1 && keep(x):
						return st, true, "an element greater than the least so far replaces it: the result isn't the minimum"
					}
					return st, false, ""
				}), "")
				q.named("MinFunc/elements").each(isParam("0"), or(keep, cmp), "an element isn't considered: the result isn't the minimum")
			}
		})

	rule("sliceu", "C05 C07 C16 C19",
		"slice helpers place every element in exactly one group within range, pick exactly the indexed elements, map every element and remove only the given one",
		func(c *Check) {
			g := c.full("util/sliceu.Partition")
			q := c.q("sliceu.Partition", g)
			q.each(isParam("0"), func(x X) bool { _, _, is, _ := elemStore(x, nil); return is }, "an element is put in no group")
			for _, l := range q.loops() {
				for _, ph := range l.phis {
					isIdx := false
					for _, i := range l.initOf(ph) {
						v, ok := evalTerm(g.Term(nil, i), nil)
						isIdx = isIdx || ok && v == 0
					}
					groups := false // it chooses the group
					q.visits(func(x X) bool { _, _, is, _ := elemStore(x, nil); return is }, func(x X) {
						t := x.t(V{x.n.C, x.n.I.(*ssa.Store).Addr.(*ssa.IndexAddr).Index})
						groups = groups || t.Find(l.isVar(ph)) != nil
					})
					if !isIdx || !groups {
						continue
					}
					for v := int64(0); v < 3; v++ {
						asg := roles(role{l.isVar(ph), v}, role{isParam("1"), 3})
						l.step(asg, func(x X) {
							if nv, ok := l.nextOf(x, ph, asg); ok {
								if w, ok := x.val(nv, asg); ok {
									c.expect(w >= 0 && w < 3, fmt.Sprintf("sliceu.Partition group %d of 3", v), ph.Pos(), "the next group is %d", w)
								}
							}
						})
					}
				}
			}
			k := c.full("util/sliceu.Pick")
			picked := func(t *Term) bool {
				return t.Op == "index" && t.A[0].String() == "p0" && t.A[1].Find(isParam("1")) != nil
			}
			c.q("sliceu.Pick", k).each(isParam("1"), or(collects(picked), setsElem(picked)), "an indexed element isn't picked")
			w := c.full("util/sliceu.Without")
			q = c.q("sliceu.Without", w)
			join := and(call("builtin.append"), func(x X) bool { return x.argT(0).Op == "slice" && x.argT(1).Op == "slice" })
			q.when(resVal("slices.Index", 0, -1)).never(or(call("slices.Delete"), join), "an element is removed although the item is absent")
			for _, i := range []int64{0, 2} {
				asg := resVal("slices.Index", 0, i)
				q.when(asg).all(or(call("slices.Delete"), join), func(x X) bool {
					if join(x) {
						l, r := x.argT(0), x.argT(1)
						a, ok1 := evalTerm(l.A[2], asg)
						b, ok2 := evalTerm(r.A[1], asg)
						return (l.A[1].S == "" || l.A[1].S == "0") && r.A[2].S == "" && (!ok1 || a == i) && (!ok2 || b == i+1)
					}
					a, ok1 := x.val(x.arg(1), asg)
					b, ok2 := x.val(x.arg(2), asg)
					return (!ok1 || a == i) && (!ok2 || b == i+1)
				}, "another element is removed")
				q.when(asg).all(exit, func(x X) bool { return x.t(x.result(0)).String() != "p0" }, "the item isn't removed")
			}
			m := c.full("util/sliceu.Map")
			mapped := func(t *Term) bool { return t.Op == "call" && t.S == "" && t.A[0].String() == "p1" }
			c.q("sliceu.Map", m).each(isParam("0"), or(collects(mapped), setsElem(mapped)), "an element isn't mapped")
			u := c.full("util/sliceu.UniqueFunc")
			c.q("sliceu.UniqueFunc", u).each(isParam("0"), callOf(isParam("1")), "an element is left out")
			v := c.full("util/sliceu.Every")
			pr := func(r int64) Asg {
				return truth(func(t *Term) bool { return t.Op == "call" && t.S == "" && t.A[0].String() == "p1" }, r)
			}
			q = c.q("sliceu.Every", v)
			q.when(pr(1)).all(exit, func(x X) bool { r, ok := x.val(x.result(0), nil); return !ok || r == 1 }, "all elements satisfy the predicate yet the answer is no")
			q.when(pr(1)).each(isParam("0"), callOf(isParam("1")), "an element isn't examined")
			q.when(pr(0)).allAfter(callOf(isParam("1")), exit, func(x X) bool { r, ok := x.val(x.result(0), nil); return !ok || r == 0 }, "an element fails the predicate yet the answer is yes")
		})
}

// finalStore: the last value stored to the field on every path (or the one it started with) satisfies good.
func (q *Q) finalStore(field string, init int64, asg Asg, good func(int64) bool, why string) bool {
	const unknown = -1 << 30
	st := store(field)
	return q.report(q.walk(int(init), func(s int, x X) (int, bool, string) {
		if st(x) {
			v, ok := x.val(x.stored(), asg)
			if !ok {
				return unknown, false, ""
			}
			return int(v), false, ""
		}
		if exit(x) && s != unknown && !good(int64(s)) {
			return s, true, fmt.Sprintf("%s ends as %d", field, s)
		}
		return s, false, ""
	}), why)
}

// seqBodyOf is seqBody that records a soft obligation instead of giving up.
func (c *Check) seqBodyOf(root, construct string) *Graph {
	g := c.full(root)
	g.Inline = givesFunc(g.Inline)
	var h *Graph
	c.q(construct, g).visits(exit, func(x X) {
		if r := c.rootAt(g, x.result(0)); r != nil && (h == nil || len(r.Root.Fn.Blocks) > len(h.Root.Fn.Blocks)) {
			h = r
		}
	})
	if h == nil {
		c.soft(construct, "the returned iterator isn't a function literal")
	}
	return h
}
