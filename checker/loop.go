package main

// Loops: the transfer of one iteration, evaluated on a finite set of scenarios of the loop variables.

import (
	"go/types"
	"golang.org/x/tools/go/ssa"
)

// Loop is a loop of one activation in a graph.
type Loop struct {
	q    *Q
	c    *Ctx
	head *ssa.BasicBlock
	phis []*ssa.Phi
	e    *env // what is known of the variables of other functions in every iteration

	scenario func(vals Asg) Asg // more about an iteration whose loop variables are known (unroll)
}

// loops lists the loops reached on the query's paths.
func (q *Q) loops() []*Loop {
	var out []*Loop
	seen := map[*Ctx]map[*ssa.BasicBlock]*Loop{}
	q.walk(0, func(s int, x X) (int, bool, string) {
		b := x.n.I.Block()
		if x.n.I != firstReal(b) || x.n.After || x.n.R != nil {
			return s, false, ""
		}
		if l := seen[x.n.C][b]; l != nil {
			l.e = l.e.meet(x.e)
			return s, false, ""
		}
		back := false
		for _, p := range b.Preds {
			back = back || b.Dominates(p)
		}
		if back {
			if seen[x.n.C] == nil {
				seen[x.n.C] = map[*ssa.BasicBlock]*Loop{}
			}
			l := &Loop{q: q, c: x.n.C, head: b, e: x.e.without(func(k V, a abs) bool {
				_, isCell := k.X.(*cellVal)
				_, isLoad := k.X.(*ssa.UnOp)
				if before(k, x.n.C, b) {
					return a.k != 'a'
				}
				return a.k != 'a' || !isCell && !isLoad || isCell && k.C == x.n.C
			})}
			seen[x.n.C][b] = l
			for _, i := range b.Instrs {
				if ph, ok := i.(*ssa.Phi); ok {
					l.phis = append(l.phis, ph)
				}
			}
			out = append(out, l)
		}
		return s, false, ""
	})
	return out
}

// before: the result of a call made before the loop with this head is entered.
func before(k V, c *Ctx, head *ssa.BasicBlock) bool {
	var b *ssa.BasicBlock
	switch i := k.X.(type) {
	case *ssa.Call:
		b = i.Block()
	case *ssa.Extract:
		b = i.Block()
	default:
		return false
	}
	return k.C == c && b != head && b.Dominates(head)
}

func firstReal(b *ssa.BasicBlock) ssa.Instruction {
	for _, i := range b.Instrs {
		if _, ok := i.(*ssa.Phi); !ok {
			return i
		}
	}
	return b.Instrs[len(b.Instrs)-1]
}

// start is the head of an iteration.
func (l *Loop) start() N { return N{C: l.c, I: firstReal(l.head)} }

func (l *Loop) atHead(x X) bool { return x.n == l.start() }

// isVar matches the value of a loop variable at the head of the iteration.
func (l *Loop) isVar(ph *ssa.Phi) func(*Term) bool {
	return func(t *Term) bool { return t.V.X == ph && t.V.C == l.c }
}

// nextOf is the value the loop variable gets when the path continues with another iteration from x.
func (l *Loop) nextOf(x X, ph *ssa.Phi, asg Asg) (V, bool) {
	b := x.n.I.Block()
	if x.n.C != l.c || x.n.I != b.Instrs[len(b.Instrs)-1] {
		return V{}, false
	}
	for i, p := range l.head.Preds {
		if p != b || !l.head.Dominates(p) {
			continue
		}
		if f, ok := x.n.I.(*ssa.If); ok {
			at := x.g.atomOf(x.e, V{l.c, f.Cond}, b.Succs[0] == l.head)
			qq := *l.q
			qq.asg = asg
			if v, ok := qq.atomVal(x.e, at); ok && !v {
				return V{}, false
			}
		}
		return V{l.c, ph.Edges[i]}, true
	}
	return V{}, false
}

// initOf is the loop variable's value on entry.
func (l *Loop) initOf(ph *ssa.Phi) []V {
	var out []V
	for i, p := range l.head.Preds {
		if !l.head.Dominates(p) {
			out = append(out, V{l.c, ph.Edges[i]})
		}
	}
	return out
}

// step walks one iteration from the head in a scenario: f sees every point; next the values the
// variable takes for the following iteration.
func (l *Loop) step(asg Asg, f func(x X)) {
	q := l.q.when(asg).from(l.start())
	q.startEnv = l.e
	first := true
	q.walk(0, func(s int, x X) (int, bool, string) {
		if l.atHead(x) {
			if !first {
				return s, true, ""
			}
			first = false
		}
		f(x)
		return s, false, ""
	})
}

// indexSet gives the indexes at which site (an element access) happens in the loop when the collection has n
// elements; ok is false when they can't be determined.
func (q *Q) indexSet(site N, index ssa.Value, lenIs func(*Term) bool, n int64) (map[int64]bool, bool) {
	var loop *Loop
	var ph *ssa.Phi
	ls := q.loops()
	for _, l := range ls {
		if l.c != site.C {
			continue
		}
		for _, p := range l.phis {
			if deps(index)[p] {
				loop, ph = l, p
			}
		}
	}
	if loop == nil {
		return nil, false
	}
	out := map[int64]bool{}
	base := lenAsg(lenIs, n)
	if q.asg != nil {
		base = both(base, q.asg)
	}
	var cur []int64
	for _, i := range loop.initOf(ph) {
		v, ok := evalTerm(q.g.Term(nil, i), base)
		if !ok {
			return nil, false
		}
		cur = append(cur, v)
	}
	done := map[int64]bool{}
	for len(cur) > 0 {
		v := cur[0]
		cur = cur[1:]
		if done[v] {
			continue
		}
		done[v] = true
		if len(done) > int(n)*3+8 {
			return nil, false
		}
		asg := both(truth(loop.isVar(ph), v), base)
		bad := false
		loop.step(asg, func(x X) {
			if x.n == site {
				if w, ok := x.val(V{site.C, index}, asg); ok {
					lo, _, ok := window(x.t(containerOf(site)), lenIs, n)
					if !ok {
						bad = true
					}
					out[w+lo] = true
				} else {
					bad = true
				}
			}
			if nv, ok := loop.nextOf(x, ph, asg); ok {
				if w, ok := x.val(nv, asg); ok {
					cur = append(cur, w)
				} else {
					bad = true
				}
			}
		})
		if bad {
			return nil, false
		}
	}
	return out, true
}

// coversAll checks that the loops that read elements of the collection by index read all of them.
func (q *Q) coversAll(coll func(*Term) bool, why string, load ...Ev) bool {
	seen := map[N]bool{}
	good := true
	if len(load) == 0 {
		load = []Ev{elemLoad(coll)}
	}
	sites := q.sites(load[0])
	one := len(sites) > 0
	for _, x := range sites {
		one = one && singleAccess(x)
	}
	if one {
		q.c.fail(q.name, sites[0].pos(), "only one element is visited: %s", why)
		return false
	}
	for _, x := range sites {
		var ix ssa.Value
		switch i := x.n.I.(type) {
		case *ssa.IndexAddr:
			ix = i.Index
		case *ssa.Index:
			ix = i.Index
		default:
			if t := iterTermOf(x); t != nil {
				part := t.Find(func(u *Term) bool {
					if u.Op != "slice" || !coll(unslice(u)) {
						return false
					}
					lo, hi, ok := window(u, coll, 4)
					return ok && (lo != 0 || hi != 4)
				})
				if part != nil {
					q.c.fail(q.name, x.pos(), "only part of the elements (%s) is visited: %s", part, why)
					good = false
				}
			}
			continue
		}
		if seen[x.n] {
			continue
		}
		seen[x.n] = true
		set, ok := q.indexSet(x.n, ix, coll, 4)
		if !ok || len(set) == 0 {
			return true
		}
		if !(set[0] && set[1] && set[2] && set[3]) {
			q.c.fail(q.name, x.pos(), "of 4 elements only those at %v are visited: %s", keysOf(set), why)
			good = false
		}
	}
	return good
}

// singleAccess: an element picked outside any loop, by an index computed there.
func singleAccess(x X) bool {
	var ix ssa.Value
	switch i := x.n.I.(type) {
	case *ssa.IndexAddr:
		ix = i.Index
	case *ssa.Index:
		ix = i.Index
	default:
		return false
	}
	for d := range deps(ix) {
		switch d.(type) {
		case *ssa.Parameter, *ssa.FreeVar:
			if b, ok := d.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				return false // an index handed in
			}
		case *ssa.Phi:
			return false
		case *ssa.UnOp:
			if _, ok := d.(*ssa.UnOp).X.(*ssa.Alloc); ok {
				return false // a variable
			}
		}
	}
	in := x.n.I
	for cx := x.n.C; cx != nil; cx = cx.Parent {
		if cx.CB || loopOf(in) != nil {
			return false
		}
		if cx.Site != nil {
			in = cx.Site.(ssa.Instruction)
		}
	}
	return true
}

func keysOf(m map[int64]bool) []int64 {
	var o []int64
	for i := int64(-2); i < 20; i++ {
		if m[i] {
			o = append(o, i)
		}
	}
	return o
}

// unslice is the collection a (re)slice expression takes its elements from.
func unslice(t *Term) *Term {
	for t.Op == "slice" {
		t = t.A[0]
	}
	return t
}

// window gives the part of the collection a slice expression selects when the collection has n elements.
func window(t *Term, coll func(*Term) bool, n int64) (lo, hi int64, ok bool) {
	return windowIn(t, coll, n, nil)
}

func windowIn(t *Term, coll func(*Term) bool, n int64, more Asg) (lo, hi int64, ok bool) {
	if t.Op != "slice" {
		return 0, n, coll(t)
	}
	l, h, ok := windowIn(t.A[0], coll, n, more)
	if !ok {
		return 0, 0, false
	}
	a := both(lenAsg(coll, n), more)
	lo, hi = l, h
	if t.A[1].S != "" || t.A[1].Op != "const" {
		v, ok := evalTerm(t.A[1], a)
		if !ok {
			return 0, 0, false
		}
		lo = l + v
	}
	if t.A[2].S != "" || t.A[2].Op != "const" {
		v, ok := evalTerm(t.A[2], a)
		if !ok {
			return 0, 0, false
		}
		hi = l + v
	}
	return lo, hi, true
}

// lenAsg: the collection has n elements (and its slices accordingly fewer).
func lenAsg(coll func(*Term) bool, n int64) Asg {
	return func(t *Term) (int64, bool) {
		if !t.isCall("builtin.len") {
			return 0, false
		}
		if coll(t.A[0]) {
			return n, true
		}
		if t.A[0].Op == "slice" && coll(unslice(t.A[0])) {
			lo, hi, ok := window(t.A[0], coll, n)
			return hi - lo, ok
		}
		return 0, false
	}
}

func containerOf(n N) V {
	switch i := n.I.(type) {
	case *ssa.IndexAddr:
		return V{n.C, i.X}
	case *ssa.Index:
		return V{n.C, i.X}
	}
	return V{}
}

func iterTermOf(x X) *Term {
	switch i := x.n.I.(type) {
	case *ssa.Next:
		return x.t(V{x.n.C, i.Iter.(*ssa.Range).X})
	}
	if x.n.C.CB {
		return iterTerm(x)
	}
	return nil
}

// unroll follows the loop iteration by iteration in a scenario, starting from the loop variables' values on entry. visit sees
// the points of iteration k (and what follows the loop when it is left). It gives the number of iterations that come back to
// the head; ok is false when an iteration can't be decided.
func (l *Loop) unroll(asg Asg, max int, visit func(k int, vals Asg, x X)) (trips int, ok bool) {
	vals := map[*ssa.Phi]int64{}
	bad, entered := false, false
	l.q.when(asg).until(func(x X) bool {
		if !l.atHead(x) {
			return false
		}
		entered = true
		for _, ph := range l.phis {
			t := x.t(V{l.c, ph})
			if t.Op == "phi" {
				continue
			}
			if v, ok := evalTerm(t, asg); ok {
				if old, had := vals[ph]; had && old != v {
					bad = true
				}
				vals[ph] = v
			}
		}
		return true
	}).walk(0, func(s int, x X) (int, bool, string) { return s, false, "" })
	if bad {
		return 0, false
	}
	if !entered {
		return 0, true
	}
	for k := 0; k <= max; k++ {
		cur := vals
		here := both(func(t *Term) (int64, bool) {
			if t.V.C != l.c {
				return 0, false
			}
			if ph, ok := t.V.X.(*ssa.Phi); ok && (t.Op == "phi" || t.Op == "unknown") {
				v, ok := cur[ph]
				return v, ok
			}
			return 0, false
		}, asg)
		for ph, v := range cur {
			here = both(truth(l.isVar(ph), v), here)
		}
		if l.scenario != nil {
			here = l.scenario(here)
		}
		next := map[*ssa.Phi]int64{}
		unknown := map[*ssa.Phi]bool{}
		back, left := false, false
		l.step(here, func(x X) {
			if visit != nil {
				visit(k, here, x)
			}
			if exit(x) {
				left = true
			}
			cont := false
			for _, ph := range l.phis {
				nv, ok := l.nextOf(x, ph, here)
				if !ok {
					continue
				}
				cont = true
				w, ok := x.val(nv, here)
				if !ok {
					unknown[ph] = true
				} else if o, had := next[ph]; had && o != w {
					unknown[ph] = true
				} else {
					next[ph] = w
				}
			}
			back = back || cont
		})
		for ph := range unknown {
			delete(next, ph)
		}
		if !back {
			return k, true
		}
		if left || len(next) == 0 {
			return k, false
		}
		vals = next
	}
	return max + 1, false
}
