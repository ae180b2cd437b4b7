package main

// Helpers shared by the rules: closures as roots, loops over collections, locks, comparisons.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// soft records that an obligation's construct has a shape the rule can't read. It is reported in the
// evidence as not discharged; it isn't a violation.
func (c *Check) soft(construct, why string) {
	c.Obs = append(c.Obs, Ob{Rule: c.Rule.ID, Construct: construct, Soft: true, Reason: why})
}

// rootAt makes a graph whose root is the function value v seen from graph g (a closure, method value or function).
func (c *Check) rootAt(g *Graph, v V, pkgs ...string) *Graph {
	var fn *ssa.Function
	for _, s := range g.Sources(v) {
		switch x := s.X.(type) {
		case *ssa.MakeClosure:
			fn = x.Fn.(*ssa.Function)
		case *ssa.Function:
			fn = x
		default:
			return nil
		}
	}
	if fn == nil || len(fn.Blocks) == 0 {
		return nil
	}
	if fn.Synthetic != "" && strings.HasSuffix(fn.Name(), "$bound") {
		// a method value: its method, whose further parameters the wrapper passes on
		var m *ssa.Function
		for _, i := range fn.Blocks[0].Instrs {
			if cl, ok := i.(*ssa.Call); ok {
				m = cl.Call.StaticCallee()
			}
		}
		if m == nil || len(m.Blocks) == 0 {
			return nil
		}
		fn = m
	}
	rp := pkgOf(g.Root.Fn)
	h := NewGraph(c.P, fn, func(_ *Ctx, f *ssa.Function) bool {
		k := pkgOf(f)
		return k == rp || k == pkgOf(fn) || in(k, pkgs)
	})
	h.Callback = g.Callback
	h.TrackAll = true
	return h
}

// seqBody is the graph of the iterator function a function returns.
func (c *Check) seqBody(root string, pkgs ...string) *Graph {
	g := c.full(root, pkgs...)
	g.Inline = givesFunc(g.Inline)
	var v V
	c.q(root, g).visits(exit, func(x X) { v = x.result(0) })
	if v.X == nil {
		c.undecided(root, "no return")
	}
	h := c.rootAt(g, v, pkgs...)
	if h == nil {
		c.undecided(root, "the returned iterator isn't a function literal")
	}
	return h
}

// givesFunc restricts inlining to functions that make a function value.
func givesFunc(base func(*Ctx, *ssa.Function) bool) func(*Ctx, *ssa.Function) bool {
	return func(c *Ctx, f *ssa.Function) bool {
		if f.Parent() != nil || !base(c, f) {
			return false
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			if _, ok := f.Signature.Results().At(i).Type().Underlying().(*types.Signature); ok {
				return true
			}
		}
		return false
	}
}

// isYield matches a call of the root's function parameter (the yield of an iterator).
func isYield(x X) bool {
	cc := x.common()
	if cc == nil || cc.IsInvoke() || cc.StaticCallee() != nil {
		return false
	}
	for _, s := range x.g.Sources(V{x.n.C, cc.Value}) {
		if p, ok := s.X.(*ssa.Parameter); ok && s.C == x.g.Root {
			_, ok := p.Type().Underlying().(*types.Signature)
			return ok
		}
	}
	return false
}

// yieldArg is the i'th yielded value.
func (x X) yieldArg(i int) *Term {
	a := x.common().Args
	if i >= len(a) {
		return &Term{Op: "const", S: "_"}
	}
	return x.t(V{x.n.C, a[i]})
}

// extractOf matches term "result i of a call of name".
func extractOf(t *Term, i string, names ...string) bool {
	return t.Op == "extract" && t.S == i && t.A[0].isCall(names...)
}

// resultOf matches result i of a call whether or not it is the only one.
func resultOf(t *Term, i int, names ...string) bool {
	if t.Op == "extract" {
		return t.S == string(rune('0'+i)) && t.A[0].isCall(names...)
	}
	return i == 0 && t.isCall(names...)
}

// errCase is the scenario in which result i of calls of name is nil (0) or the given marker; globals maps
// sentinel errors to markers.
func errCase(name string, i int, val int64, sentinels map[string]int64) Asg {
	return func(t *Term) (int64, bool) {
		if resultOf(t, i, name) {
			return val, true
		}
		if t.Op == "global" {
			v, ok := sentinels[t.S]
			return v, ok
		}
		if t.isCall("errors.Is") {
			f := errCase(name, i, val, sentinels)
			a, ok1 := evalTerm(t.A[0], f)
			b, ok2 := evalTerm(t.A[1], f)
			if ok1 && ok2 {
				if a == b {
					return 1, true
				}
				return 0, true
			}
		}
		return 0, false
	}
}

// callVal is the scenario in which calls of name give val (0/1 for booleans).
func callVal(name string, val int64) Asg {
	return func(t *Term) (int64, bool) {
		if resultOf(t, 0, name) {
			return val, true
		}
		return 0, false
	}
}

func both(as ...Asg) Asg {
	return func(t *Term) (int64, bool) {
		for _, a := range as {
			if a == nil {
				continue
			}
			if v, ok := a(t); ok {
				return v, true
			}
		}
		return 0, false
	}
}

// order is the scenario in which every comparison of a term matching isA with one matching isB
// comes out as sign (a<b: -1). It decides bytes.Compare, bytes.Equal, cmp.Compare, strings.Compare.
func order(isA, isB func(*Term) bool, sign int64) Asg {
	return func(t *Term) (int64, bool) {
		if t.Op != "call" || len(t.A) != 2 {
			return 0, false
		}
		s := int64(0)
		if isA(t.A[0]) && isB(t.A[1]) {
			s = sign
		} else if isB(t.A[0]) && isA(t.A[1]) {
			s = -sign
		} else {
			return 0, false
		}
		switch t.S {
		case "bytes.Compare", "strings.Compare", "cmp.Compare":
			return s, true
		case "bytes.Equal":
			if s == 0 {
				return 1, true
			}
			return 0, true
		}
		return 0, false
	}
}

// termIn matches a term made of leaves satisfying p anywhere inside.
func containing(p func(*Term) bool) func(*Term) bool {
	return func(t *Term) bool { return t.Find(p) != nil }
}

// ---- locks ----

var lockOps = map[string]string{
	"(*sync.Mutex).Lock": "L", "(*sync.Mutex).Unlock": "U",
	"(*sync.RWMutex).Lock": "L", "(*sync.RWMutex).Unlock": "U",
	"(*sync.RWMutex).RLock": "R", "(*sync.RWMutex).RUnlock": "U",
	"(sync.Locker).Lock": "L", "(sync.Locker).Unlock": "U",
}

// lockOp gives the operation performed on the mutex held in the named field: L, R, U or "".
func (x X) lockOp(field string) string {
	c := x.common()
	if c == nil {
		return ""
	}
	op := lockOps[callName(c)]
	if op == "" {
		return ""
	}
	t := x.argT(0)
	if t.fullField() == field || t.hasField(field) {
		return op
	}
	return ""
}

const (
	unlocked = 0
	rlocked  = 1
	wlocked  = 2
)

// locked walks with the state of one mutex; f reports a reason for a violation.
func (q *Q) locked(field string, start int, why string, f func(held int, x X) string) bool {
	return q.report(q.walk(start, func(s int, x X) (int, bool, string) {
		switch x.lockOp(field) {
		case "L":
			return wlocked, false, ""
		case "R":
			return rlocked, false, ""
		case "U":
			return unlocked, false, ""
		}
		return s, false, f(s, x)
	}), why)
}

// oneSection: on every path where both happen, a and b happen in the same critical section of the mutex.
func (q *Q) oneSection(field string, a, b Ev, why string) bool {
	const held, aDone, bDone, lost = 1, 2, 4, 8
	return q.report(q.walk(0, func(s int, x X) (int, bool, string) {
		switch x.lockOp(field) {
		case "L", "R":
			return s | held, false, ""
		case "U":
			s &^= held
			if s&(aDone|bDone) != 0 {
				if s&(aDone|bDone) == aDone|bDone {
					return 0, false, ""
				}
				s |= lost
			}
			return s, false, ""
		}
		ia, ib := a(x), b(x)
		if ia || ib {
			if s&held == 0 {
				return s, true, "outside the critical section"
			}
			if s&lost != 0 && (ia && s&bDone != 0 || ib && s&aDone != 0) {
				return s, true, "the lock is released in between"
			}
			if s&lost != 0 {
				s &^= lost | aDone | bDone
			}
			if ia {
				s |= aDone
			}
			if ib {
				s |= bDone
			}
		}
		return s, false, ""
	}), why)
}

// currentIn: argument i of ev is loaded in the critical section that ev is in.
func (q *Q) currentIn(field string, ev Ev, i int, why string) bool {
	loads := map[V]bool{}
	q.visits(ev, func(x X) {
		for _, s := range x.g.Sources(x.arg(i)) {
			loads[s] = true
		}
	})
	return q.report(q.walk(0, func(s int, x X) (int, bool, string) {
		switch x.lockOp(field) {
		case "L", "R", "U":
			return 0, false, ""
		}
		if v, ok := x.n.I.(ssa.Value); ok && loads[V{x.n.C, v}] {
			return 1, false, ""
		}
		if ev(x) && s == 0 {
			return s, true, why
		}
		return s, false, ""
	}), "")
}

// ---- loops ----

// elemLoad matches the load of an element of a collection term (index or range), or the entry of a
// loop body fed by an iterator over it.
func elemLoad(coll func(*Term) bool) Ev {
	return func(x X) bool {
		switch i := x.n.I.(type) {
		case *ssa.IndexAddr:
			if _, isConst := i.Index.(*ssa.Const); isConst {
				return false
			}
			return coll(unslice(x.t(V{x.n.C, i.X})))
		case *ssa.Index:
			if _, isConst := i.Index.(*ssa.Const); isConst {
				return false
			}
			return coll(unslice(x.t(V{x.n.C, i.X})))
		case *ssa.Next:
			return coll(x.t(V{x.n.C, i.Iter.(*ssa.Range).X}))
		}
		return atBodyEntry(x, coll)
	}
}

// atBodyEntry: the first instruction of a callback activated by a call whose callee or arguments
// derive from the collection.
func atBodyEntry(x X, coll func(*Term) bool) bool {
	if !x.n.C.CB || x.n.C == x.g.Root || x.n.After || x.n.R != nil || x.n.I != x.n.C.Fn.Blocks[0].Instrs[0] {
		return false
	}
	switch callName(x.n.C.Site.Common()) {
	case "slices.BinarySearchFunc", "slices.SortFunc", "slices.SortStableFunc", "slices.SortedFunc", "sort.Slice", "sort.Search", "sort.SliceStable", "util/sliceu.SearchUnique":
		return false // a comparison, not a visit
	}
	t := iterTerm(x)
	return t != nil && findColl(t, coll)
}

// findColl looks for the collection itself in an iterator expression, not for one of its elements.
func findColl(t *Term, coll func(*Term) bool) bool {
	if coll(t) {
		return true
	}
	if t.Op == "index" || t.Op == "lookup" || t.Op == "range" {
		return false
	}
	for _, a := range t.A {
		if findColl(a, coll) {
			return true
		}
	}
	return false
}

// iterTerm is the iterator (or collection) that feeds the callback x is in.
func iterTerm(x X) *Term {
	cc := x.n.C.Site.Common()
	px := X{x.g, N{C: x.n.C.Parent, I: x.n.C.Site.(ssa.Instruction)}, x.e}
	t := &Term{Op: "call", S: callName(cc)}
	t.A = append(t.A, px.t(V{x.n.C.Parent, cc.Value}))
	for _, a := range cc.Args {
		if _, ok := a.Type().Underlying().(*types.Signature); !ok {
			t.A = append(t.A, px.t(V{x.n.C.Parent, a}))
		}
	}
	return t
}

// covers: every element loaded from the collection passes ev before the next element or a
// successful exit, and a successful exit isn't reached by leaving the loop early.
func (q *Q) each(coll func(*Term) bool, ev Ev, why string) bool {
	load := q.relevant(coll, ev)
	if !q.coversAll(coll, why, load) {
		return false
	}
	if len(q.sites(load)) == 0 {
		q.c.soft(q.name, "no loop over the collection recognised: "+why)
		return true
	}
	lx := newLoopExits(load)
	q = q.when(both(q.asg, yieldOK))
	// states: bit 0 an element is pending, bit 1 an iteration was left before the last element, bit 2
	// the element of this iteration is read, the rest the loop whose last branch wasn't a test for the
	// end of the collection
	return q.report(q.walk(0, func(s int, x X) (int, bool, string) {
		if s>>3 != 0 {
			if lx.left(s>>3, x) {
				s |= 2
			}
			s &= 7
		}
		if lx.stops(x) {
			s |= 2
		}
		if s&1 == 1 && ev(x) {
			return s &^ 1, false, ""
		}
		if load(x) {
			if k, ok := home(x); ok && s&4 == 4 && lx.homes[k] {
				return s, false, "" // once more in the same iteration
			}
			iterates := lx.saw(x)
			if s&1 == 1 {
				return s, true, "an element is skipped"
			}
			if _, isNext := x.n.I.(*ssa.Next); isNext {
				// the iterator's next call: the element pending so far must be done
				return s, false, ""
			}
			if iterates {
				s |= 4
			}
			return s | 1, false, ""
		}
		if lx.iterated(x) {
			s &^= 4
		}
		if s&3 != 0 && okExit(x) {
			if s&1 == 1 {
				return s, true, "an element is skipped"
			}
			return s, true, "the elements after the one the loop stops at are skipped"
		}
		return s | lx.branch(x)<<3, false, ""
	}), why)
}

// relevant restricts the element loads of a collection to the loops ev happens in, if there are any: a
// loop that only checks the elements or computes something from them is none of them.
func (q *Q) relevant(coll func(*Term) bool, ev Ev) Ev {
	load := elemLoad(coll)
	in := map[loopKey]bool{}
	outside := false
	for _, x := range q.sites(ev) {
		found := false
		var i ssa.Instruction = x.n.I
		for c := x.n.C; c != nil; c = c.Parent {
			for h := i.Block(); h != nil; h = h.Idom() {
				if naturalLoop(h)[i.Block()] && isLoopHead(h) {
					in[loopKey{c, h}] = true
					found = true
				}
			}
			if c.CB {
				in[loopKey{c, nil}] = true
				found = true
			}
			if c.Site == nil {
				break
			}
			i = c.Site.(ssa.Instruction)
		}
		outside = outside || !found
	}
	within := func(x X) bool {
		if x.n.C.CB && atBodyEntry(x, coll) {
			return in[loopKey{x.n.C, nil}]
		}
		var i ssa.Instruction = x.n.I
		for c := x.n.C; c != nil; c = c.Parent {
			if h := loopOf(i); h != nil {
				return in[loopKey{c, h}]
			}
			if c.CB {
				return in[loopKey{c, nil}]
			}
			if c.Site == nil {
				break
			}
			i = c.Site.(ssa.Instruction)
		}
		return outside
	}
	for _, x := range q.sites(load) {
		if within(x) {
			return func(x X) bool { return load(x) && within(x) }
		}
	}
	return load
}

func isLoopHead(h *ssa.BasicBlock) bool {
	for _, p := range h.Preds {
		if h.Dominates(p) {
			return true
		}
	}
	return false
}

// loopExits recognises that a loop over a collection is left other than by running out of elements.
type loopExits struct {
	load  Ev
	ids   map[loopKey]int
	loops []loopKey
	body  map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	seen  map[*Ctx][]*ssa.BasicBlock
	cbs   map[*Ctx]bool
	homes map[loopKey]bool
}

type loopKey struct {
	c    *Ctx
	head *ssa.BasicBlock
}

func newLoopExits(load Ev) *loopExits {
	return &loopExits{load, map[loopKey]int{}, nil, map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, map[*Ctx][]*ssa.BasicBlock{}, map[*Ctx]bool{}, map[loopKey]bool{}}
}

// home is the loop whose iterations read the elements.
func home(x X) (loopKey, bool) {
	i := x.n.I
	for c := x.n.C; c != nil; c = c.Parent {
		if h := loopOf(i); h != nil {
			return loopKey{c, h}, true
		}
		if c.CB || c.Site == nil {
			break
		}
		i = c.Site.(ssa.Instruction)
	}
	return loopKey{}, false
}

// iterated: a loop that reads elements ends an iteration.
func (l *loopExits) iterated(x X) bool {
	if len(l.homes) == 0 || x.n.After || x.n.R != nil {
		return false
	}
	b := x.n.I.Block()
	if b == nil || x.n.I != b.Instrs[len(b.Instrs)-1] {
		return false
	}
	for k := range l.homes {
		if k.c != x.n.C {
			continue
		}
		for _, s := range b.Succs {
			if s == k.head && s.Dominates(b) {
				return true
			}
		}
	}
	return false
}

// saw records the loop an element is read in, and tells whether it is one whose iterations are known.
func (l *loopExits) saw(x X) bool {
	k, ok := home(x)
	if ok {
		l.homes[k] = true
	}
	l.note(x)
	return ok
}

func (l *loopExits) note(x X) {
	if x.n.C.CB && x.n.C != x.g.Root && x.n.I == x.n.C.Fn.Blocks[0].Instrs[0] && atBodyEntry(x, func(*Term) bool { return true }) {
		if strings.HasPrefix(x.n.C.Fn.Synthetic, "range-over-func") {
			l.cbs[x.n.C] = true
		}
		return
	}
	h := loopOf(x.n.I)
	if h == nil {
		return
	}
	for _, b := range l.seen[x.n.C] {
		if b == h {
			return
		}
	}
	l.seen[x.n.C] = append(l.seen[x.n.C], h)
	l.body[h] = naturalLoop(h)
}

// stops: the body of an iterator loop asks for no more elements.
func (l *loopExits) stops(x X) bool {
	r, ok := x.n.I.(*ssa.Return)
	if !ok || !l.cbs[x.n.C] || len(r.Results) != 1 {
		return false
	}
	a, _ := x.g.eval(x.e, V{x.n.C, r.Results[0]})
	return a.k == 'f'
}

// branch: the id of the loop (0: none) in which x is a branch that isn't a test for the end of the collection.
func (l *loopExits) branch(x X) int {
	f, ok := x.n.I.(*ssa.If)
	if !ok || x.n.After || x.n.R != nil {
		return 0
	}
	for _, h := range l.seen[x.n.C] {
		body := l.body[h]
		if !body[f.Block()] || body[f.Block().Succs[0]] && body[f.Block().Succs[1]] {
			continue
		}
		if boundsTest(f.Cond, h) {
			return 0
		}
		k := loopKey{x.n.C, h}
		if l.ids[k] == 0 {
			l.loops = append(l.loops, k)
			l.ids[k] = len(l.loops)
		}
		return l.ids[k]
	}
	return 0
}

// left: the branch taken led out of the loop.
func (l *loopExits) left(id int, x X) bool {
	k := l.loops[id-1]
	return x.n.C == k.c && !l.body[k.head][x.n.I.Block()]
}

// boundsTest: a comparison of values that read no element (or the iterator's own end), depending on
// the loop's variables.
func boundsTest(v ssa.Value, head *ssa.BasicBlock) bool {
	onVar := false
	for d := range deps(v) {
		switch d := d.(type) {
		case *ssa.Phi:
			onVar = onVar || d.Block() == head
		case *ssa.Next:
			return true
		case *ssa.IndexAddr, *ssa.Index, *ssa.Lookup:
			if naturalLoop(head)[d.(ssa.Instruction).Block()] {
				return false
			}
		}
	}
	return onVar
}

// loopOf is the head of the innermost loop an element access belongs to: the loop its index varies in,
// if it does.
// inLoop: the point, or a call it is under, is in a loop.
func inLoop(x X) bool {
	i := x.n.I
	for c := x.n.C; c != nil; c = c.Parent {
		for h := i.Block(); h != nil; h = h.Idom() {
			if isLoopHead(h) && naturalLoop(h)[i.Block()] {
				return true
			}
		}
		if c.CB {
			return true
		}
		if c.Site == nil {
			break
		}
		i = c.Site.(ssa.Instruction)
	}
	return false
}

func loopOf(in ssa.Instruction) *ssa.BasicBlock {
	var ix ssa.Value
	switch i := in.(type) {
	case *ssa.IndexAddr:
		ix = i.Index
	case *ssa.Index:
		ix = i.Index
	}
	var best *ssa.BasicBlock
	for h := in.Block(); h != nil; h = h.Idom() {
		back := false
		for _, p := range h.Preds {
			back = back || h.Dominates(p)
		}
		if !back || !naturalLoop(h)[in.Block()] {
			continue
		}
		if ix != nil {
			for d := range deps(ix) {
				if ph, ok := d.(*ssa.Phi); ok && ph.Block() == h {
					return h
				}
			}
		}
		if best == nil {
			best = h
		}
	}
	return best
}

// naturalLoop lists the blocks of the loop with this head.
func naturalLoop(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	m := map[*ssa.BasicBlock]bool{h: true}
	var work []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) && !m[p] {
			m[p] = true
			work = append(work, p)
		}
	}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		for _, p := range b.Preds {
			if !m[p] {
				m[p] = true
				work = append(work, p)
			}
		}
	}
	return m
}

// loopPhi finds the loop variable an index expression is built on and the sign of its dependence.
func direction(v ssa.Value, depth int) (int, *ssa.Phi) {
	if depth > 10 {
		return 0, nil
	}
	switch x := v.(type) {
	case *ssa.Phi:
		// step of the back edge
		for i, e := range x.Edges {
			if !x.Block().Dominates(x.Block().Preds[i]) {
				continue
			}
			if b, ok := e.(*ssa.BinOp); ok && (b.X == x || b.Y == x) {
				if c, ok := constInt(b.Y); ok && b.X == x {
					if b.Op == token.SUB {
						c = -c
					}
					if b.Op == token.ADD || b.Op == token.SUB {
						if c > 0 {
							return 1, x
						}
						if c < 0 {
							return -1, x
						}
					}
				}
			}
		}
		return 0, nil
	case *ssa.BinOp:
		dx, px := direction(x.X, depth+1)
		dy, py := direction(x.Y, depth+1)
		switch x.Op {
		case token.ADD:
			if px != nil && py == nil {
				return dx, px
			}
			if py != nil && px == nil {
				return dy, py
			}
		case token.SUB:
			if px != nil && py == nil {
				return dx, px
			}
			if py != nil && px == nil {
				return -dy, py
			}
		}
	case *ssa.Convert:
		return direction(x.X, depth+1)
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			// a loop variable captured per iteration
			for _, r := range *al.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == al {
					if d, p := direction(s.Val, depth+1); p != nil {
						return d, p
					}
				}
			}
		}
	}
	return 0, nil
}

// visitOrder tells in which order the elements of a slice flow into v: +1 ascending, -1 descending, 0 unknown.
func (g *Graph) visitOrder(e *env, v V) int {
	t := g.Term(e, v)
	for t != nil {
		switch t.Op {
		case "index":
			switch x := t.V.X.(type) {
			case *ssa.IndexAddr:
				d, _ := direction(x.Index, 0)
				return d * reversed(t.A[0])
			case *ssa.UnOp:
				if ia, ok := x.X.(*ssa.IndexAddr); ok {
					d, _ := direction(ia.Index, 0)
					return d * reversed(t.A[0])
				}
			case *ssa.Index:
				d, _ := direction(x.Index, 0)
				return d * reversed(t.A[0])
			}
			return 0
		case "param":
			// element of an iterator loop
			p, ok := t.V.X.(*ssa.Parameter)
			if !ok || !t.V.C.CB {
				return 0
			}
			_ = p
			it := iterTerm(X{g, N{C: t.V.C, I: t.V.C.Fn.Blocks[0].Instrs[0]}, e})
			if u := it.Find(func(u *Term) bool { return u.isCall("slices.Backward") }); u != nil {
				return -reversed(u.A[0])
			}
			if u := it.Find(func(u *Term) bool { return u.isCall("slices.Values", "slices.All") }); u != nil {
				return reversed(u.A[0])
			}
			return 0
		}
		return 0
	}
	return 0
}

// reversed is -1 when the slice is a copy that is reversed in place.
func reversed(t *Term) int {
	if t.V.X == nil || t.Op != "call" || t.V.X.Referrers() == nil {
		return 1
	}
	d := 1
	for _, r := range *t.V.X.Referrers() {
		if call, ok := r.(*ssa.Call); ok && callName(&call.Call) == "slices.Reverse" {
			d = -d
		}
	}
	return d
}

func hasPrefixAny(s string, ps ...string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

// loadedFrom: the value was read from the named field (whatever its content then).
func (x X) loadedFrom(v V, field string) bool {
	ss := x.g.Sources(v)
	for _, s := range ss {
		switch l := s.X.(type) {
		case *ssa.UnOp:
			if l.Op != token.MUL || fieldOf(l.X) != field {
				return false
			}
		case *ssa.Field:
			if fieldOf(l) != field {
				return false
			}
		default:
			return false
		}
	}
	return len(ss) > 0
}

// fnArg makes a graph rooted at the function passed as argument i of the (single) call matching ev in q.
func (q *Q) fnArg(ev Ev, i int, pkgs ...string) *Graph {
	var h *Graph
	q.visits(ev, func(x X) {
		if h == nil {
			h = q.c.rootAt(q.g, x.arg(i), pkgs...)
		}
	})
	return h
}

// signTable: the root returns a comparison result; for every pair of ranks its sign is the expected one.
// a and b give the leaf compared for the root's first and second operand.
func (c *Check) signTable(construct string, g *Graph, a, b func(*Term) bool, why string, more ...Asg) {
	for _, s := range []int64{-1, 0, 1} {
		q := c.q(construct+" "+[]string{"<", "=", ">"}[s+1], g).when(both(append(more, order(a, b, s), roles(role{a, s}, role{b, 0}))...))
		q.all(exit, func(x X) bool {
			v, ok := x.val(x.result(0), q.asg)
			if !ok {
				return true
			}
			return sign(v) == s
		}, why)
	}
}

func sign(v int64) int64 {
	if v < 0 {
		return -1
	}
	if v > 0 {
		return 1
	}
	return 0
}

// methodOn matches a call of a method (by short name) or a field read of that name, on a term matching p.
func attr(p func(*Term) bool, method, field string) func(*Term) bool {
	return func(t *Term) bool {
		if t.Op == "call" && len(t.A) >= 1 && hasSuffix(t.S, ")."+method) {
			return p(t.A[0])
		}
		return t.Op == "field" && t.S == field && p(t.A[0])
	}
}

// dyn matches calls of a function value read from the root's parameter i (directly or captured).
func dyn(i int) func(*Term) bool {
	return func(t *Term) bool {
		return t.Op == "call" && t.S == "" && len(t.A) > 0 && t.A[0].Op == "param" && hasSuffix(t.A[0].S, "p"+string(rune('0'+i)))
	}
}

// callOf matches executed calls whose callee value's term satisfies p (function values).
func callOf(p func(*Term) bool) Ev {
	return func(x X) bool {
		c := x.common()
		if c == nil || c.IsInvoke() || c.StaticCallee() != nil {
			return false
		}
		if _, ok := c.Value.(*ssa.Builtin); ok {
			return false
		}
		return p(x.t(V{x.n.C, c.Value}))
	}
}

// truth gives a scenario value for terms satisfying p.
func truth(p func(*Term) bool, v int64) Asg { return roles(role{p, v}) }

type (
	ssaStore    = ssa.Store
	ssaFunction = ssa.Function
)

func parseInt(s string) (int64, bool) {
	return evalTerm(&Term{Op: "const", S: s}, nil)
}

// yieldOK: the consumer of an iterator wants more.
func yieldOK(t *Term) (int64, bool) {
	if t.Op != "call" || t.S != "" || len(t.A) == 0 || t.A[0].Op != "param" {
		return 0, false
	}
	if t.A[0].S == "p0" {
		return 1, true
	}
	// an iterator written as a method
	if p, ok := t.A[0].V.X.(*ssa.Parameter); ok {
		if f := p.Parent(); f.Signature.Results().Len() == 0 && f.Signature.Recv() != nil && len(f.Params) == 2 && f.Params[1] == p {
			return 1, true
		}
	}
	return 0, false
}

// stopFlag: a local flag that only becomes true once the consumer of an iterator wants no more.
func stopFlag(t *Term) bool {
	u, ok := t.V.X.(*ssa.UnOp)
	if !ok {
		return false
	}
	al, ok := u.X.(*ssa.Alloc)
	if !ok || !isBoolV(t.V) {
		return false
	}
	set := 0
	var uses func(cell ssa.Value) bool
	uses = func(cell ssa.Value) bool {
		for _, r := range *cell.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if c, ok := r.Val.(*ssa.Const); ok && c.Value != nil && c.Value.String() == "false" && r.Addr == cell {
					continue
				}
				if r.Addr != cell || !afterNo(r) {
					return false
				}
				set++
			case *ssa.MakeClosure:
				for i, b := range r.Bindings {
					if b == cell && !uses(r.Fn.(*ssa.Function).FreeVars[i]) {
						return false
					}
				}
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	}
	return uses(al) && set > 0
}

// afterNo: the store keeps the negated answer of a consumer, or happens after it answered no.
func afterNo(st *ssa.Store) bool {
	answer := func(v ssa.Value) bool {
		cl, ok := v.(*ssa.Call)
		return ok && !cl.Call.IsInvoke() && cl.Call.StaticCallee() == nil && isYieldTerm(&Term{Op: "call", V: V{nil, cl}})
	}
	if u, ok := st.Val.(*ssa.UnOp); ok && u.Op == token.NOT && answer(u.X) {
		return true
	}
	for b := st.Block(); len(b.Preds) == 1; b = b.Preds[0] {
		p := b.Preds[0]
		f, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if ok {
			return answer(f.Cond) && p.Succs[1] == b
		}
	}
	return false
}

// isYieldTerm: the answer of the consumer, also where a closure asks it.
func isYieldTerm(t *Term) bool {
	if _, ok := yieldOK(t); ok {
		return true
	}
	cl, ok := t.V.X.(*ssa.Call)
	if !ok || t.Op != "call" || cl.Call.IsInvoke() || cl.Call.StaticCallee() != nil || !isBoolV(t.V) {
		return false
	}
	v := cl.Call.Value
	if u, ok := v.(*ssa.UnOp); ok {
		v = u.X
	}
	_, ok = v.(*ssa.FreeVar)
	return ok
}

// within finds a subterm, looking also into the variadic arguments of calls.
func (x X) within(t *Term, pred func(*Term) bool) bool {
	seen := map[V]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		return t.Find(func(u *Term) bool {
			if pred(u) {
				return true
			}
			al, ok := u.V.X.(*ssa.Alloc)
			if !ok || u.Op != "alloc" || seen[u.V] {
				return false
			}
			seen[u.V] = true
			for _, r := range *al.Referrers() {
				ia, ok := r.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				for _, s := range *ia.Referrers() {
					if st, ok := s.(*ssa.Store); ok && st.Addr == ia && rec(x.t(V{u.V.C, st.Val})) {
						return true
					}
				}
			}
			return false
		}) != nil
	}
	return rec(t)
}
