package main

// The interprocedural graph: instructions of the root function with the callees that the policy
// admits inlined per call string, and path exploration over it.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ctx is one inlined activation of a function.
type Ctx struct {
	Fn     *ssa.Function
	Parent *Ctx
	Site   ssa.CallInstruction // call in Parent
	Clo    V                   // the closure value activated, when Fn has free variables
	CB     bool                // activated as a callback of an external synchronous callee
	Once   bool                // a callback that runs exactly once
	depth  int
	id     int
}

// V is an SSA value in an activation.
type V struct {
	C *Ctx
	X ssa.Value
}

// N is a program point: an instruction in an activation. D marks the execution (at R) of a
// deferred call; After marks the point just after an inlined call returned.
type N struct {
	C     *Ctx
	I     ssa.Instruction
	R     *ssa.RunDefers
	After bool
}

type Graph struct {
	scenario    func(e *env, v V) (int64, bool) // the scenario of the walk in progress
	concrete    bool                            // loop variables the scenario determines keep their values
	ints        map[int64]*ssa.Const
	inField     map[V]bool // localField in progress
	P           *Prog
	Root        *Ctx
	Inline      func(caller *Ctx, callee *ssa.Function) bool
	ctxs        map[ctxKey]*Ctx
	nctx        int
	rel         map[*ssa.Function]map[ssa.Value]bool
	Budget      int
	home        *Ctx                   // names the parameters of this activation like the root's
	GoSync      bool                   // follow `go f()` as a synchronous call only: what is spawned runs eventually
	AsyncInline bool                   // follow `go f()` as if called synchronously (for reachability only)
	TrackAll    bool                   // follow every phi and local variable on paths, not only booleans and references
	Callback    func(name string) bool // further callees that run their function arguments
	cells       map[*ssa.Alloc]bool
}

type ctxKey struct {
	parent *Ctx
	site   ssa.Instruction
	fn     *ssa.Function
	clo    ssa.Value
	cloC   *Ctx
}

const maxDepth = 14

func NewGraph(p *Prog, root *ssa.Function, inline func(*Ctx, *ssa.Function) bool) *Graph {
	g := &Graph{P: p, Inline: inline, ctxs: map[ctxKey]*Ctx{}, rel: map[*ssa.Function]map[ssa.Value]bool{}, Budget: 400000}
	if inline == nil {
		rp := pkgOf(root)
		g.Inline = func(_ *Ctx, f *ssa.Function) bool { return pkgOf(f) == rp || plainHelper(f) }
	}
	g.Root = &Ctx{Fn: root}
	if mc := p.closCache[root]; mc != nil {
		// a closure analysed as a root: its free variables belong to its parent's root activation
		g.Root.Clo = V{&Ctx{Fn: root.Parent(), id: -1}, mc}
	}
	return g
}

// plainHelper: the small functions over slices that every package may use instead of a loop.
func plainHelper(f *ssa.Function) bool {
	switch fname(f) {
	case "util/sliceu.Last", "util/sliceu.Map", "util/sliceu.Every":
		return true
	}
	return false
}

func pkgOf(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		return strings.TrimPrefix(f.Pkg.Pkg.Path(), modPath+"/")
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return strings.TrimPrefix(f.Object().Pkg().Path(), modPath+"/")
	}
	return ""
}

// fname is the resolved full name of a function, with the module path removed:
// "(*dkv.DB).Get", "dkv/sst.NewLevelList", "bytes.Compare", "(*sync.Mutex).Lock".
func fname(f *ssa.Function) string {
	if f == nil {
		return ""
	}
	if f.Parent() != nil {
		return fname(f.Parent()) + "$" + f.Name()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if obj, ok := f.Object().(*types.Func); ok {
		return objName(obj)
	}
	return pkgOf(f) + "." + f.Name()
}

func objName(obj *types.Func) string {
	obj = obj.Origin()
	sig := obj.Type().(*types.Signature)
	pk := ""
	if obj.Pkg() != nil {
		pk = strings.TrimPrefix(obj.Pkg().Path(), modPath+"/")
	}
	if r := sig.Recv(); r != nil {
		t := r.Type()
		star := ""
		if pt, ok := types.Unalias(t).(*types.Pointer); ok {
			star, t = "*", pt.Elem()
		}
		if nt, ok := types.Unalias(t).(*types.Named); ok {
			return "(" + star + pk + "." + nt.Obj().Name() + ")." + obj.Name()
		}
		return "(" + star + pk + ".?)." + obj.Name()
	}
	return pk + "." + obj.Name()
}

// callName names what a call instruction calls: a static callee, an interface method, a builtin or "".
func callName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return objName(c.Method)
	}
	if f := c.StaticCallee(); f != nil {
		return fname(f)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	return ""
}

func (g *Graph) ctx(parent *Ctx, site ssa.CallInstruction, fn *ssa.Function, clo V, cb bool) *Ctx {
	k := ctxKey{parent, site.(ssa.Instruction), fn, clo.X, clo.C}
	if c := g.ctxs[k]; c != nil {
		return c
	}
	g.nctx++
	c := &Ctx{Fn: fn, Parent: parent, Site: site, Clo: clo, depth: parent.depth + 1, id: g.nctx, CB: cb}
	g.ctxs[k] = c
	return c
}

func (g *Graph) canInline(c *Ctx, f *ssa.Function) bool {
	if f == nil || len(f.Blocks) == 0 || c.depth >= maxDepth || !g.P.inRepo(f) {
		return false
	}
	for x := c; x != nil; x = x.Parent {
		if x.Fn == f {
			return false
		}
	}
	// closures and synthetic wrappers belong to the function that creates them
	if f.Parent() != nil || f.Synthetic != "" && f.Origin() == nil {
		return true
	}
	return g.Inline(c, f)
}

// syncCallback names external functions that call their function arguments synchronously.
func syncCallback(name string) bool {
	return strings.HasPrefix(name, "slices.") || strings.HasPrefix(name, "sort.") || strings.HasPrefix(name, "maps.") ||
		strings.HasPrefix(name, "iter.") || name == "(*sync.Once).Do" || strings.HasPrefix(name, "strings.") || strings.HasPrefix(name, "bytes.")
}

type target struct {
	fn  *ssa.Function
	clo V
}

// Callees resolves the functions a call may run, in activation c.
func (g *Graph) Callees(c *Ctx, call *ssa.CallCommon) []target {
	if call.IsInvoke() {
		// concrete type known locally
		var out []target
		for _, s := range g.Sources(V{c, call.Value}) {
			mi, ok := s.X.(*ssa.MakeInterface)
			if !ok {
				return nil
			}
			m := g.P.SSA.LookupMethod(mi.X.Type(), call.Method.Pkg(), call.Method.Name())
			if m == nil {
				return nil
			}
			out = append(out, target{fn: m})
		}
		return out
	}
	if f := call.StaticCallee(); f != nil {
		if mc, ok := call.Value.(*ssa.MakeClosure); ok {
			return []target{{f, V{c, mc}}}
		}
		return []target{{fn: f}}
	}
	if _, ok := call.Value.(*ssa.Builtin); ok {
		return nil
	}
	var out []target
	for _, s := range g.Sources(V{c, call.Value}) {
		switch x := s.X.(type) {
		case *ssa.Function:
			out = append(out, target{fn: x})
		case *ssa.MakeClosure:
			out = append(out, target{x.Fn.(*ssa.Function), s})
		default:
			return nil
		}
	}
	return out
}

// Edge leads to To; when it leaves an If, Cond/Pol say which condition holds.
type Edge struct {
	To    N
	Cond  V
	Pol   bool
	HasC  bool
	PredB *ssa.BasicBlock // block left, for phis
}

func next(n N) (N, bool) {
	b := n.I.Block()
	for i, ins := range b.Instrs {
		if ins == n.I && i+1 < len(b.Instrs) {
			return N{C: n.C, I: b.Instrs[i+1]}, true
		}
	}
	return N{}, false
}

func entry(c *Ctx) N { return N{C: c, I: c.Fn.Blocks[0].Instrs[0]} }

// IsExit reports a return from the root.
func (g *Graph) IsExit(n N) bool {
	_, ok := n.I.(*ssa.Return)
	return ok && n.C == g.Root
}

func deferredOf(f *ssa.Function) []*ssa.Defer {
	var out []*ssa.Defer
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if d, ok := i.(*ssa.Defer); ok {
				out = append(out, d)
			}
		}
	}
	return out
}

// blockReaches reports a CFG path from a to b (possibly a==b).
func blockReaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var w func(x *ssa.BasicBlock) bool
	w = func(x *ssa.BasicBlock) bool {
		if x == b {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, s := range x.Succs {
			if w(s) {
				return true
			}
		}
		return false
	}
	return w(a)
}

func (g *Graph) runDefersFrom(c *Ctx, r *ssa.RunDefers, ds []*ssa.Defer, i int) []N {
	// ds[i] downto ds[0] still to run
	var out []N
	for ; i >= 0; i-- {
		if !blockReaches(ds[i].Block(), r.Block()) {
			continue
		}
		out = append(out, N{C: c, I: ds[i], R: r})
		if ds[i].Block().Dominates(r.Block()) {
			return out
		}
	}
	nx, _ := next(N{C: c, I: r})
	return append(out, nx)
}

// Succ enumerates the successors of a point.
func (g *Graph) Succ(n N) []Edge {
	plain := func(ns ...N) []Edge {
		var es []Edge
		for _, x := range ns {
			es = append(es, Edge{To: x})
		}
		return es
	}
	after := func() []Edge {
		if n.R != nil {
			ds := deferredOf(n.C.Fn)
			for i, d := range ds {
				if d == n.I {
					return plain(g.runDefersFrom(n.C, n.R, ds, i-1)...)
				}
			}
			return nil
		}
		if nx, ok := next(n); ok {
			return plain(nx)
		}
		return nil
	}
	if n.After {
		return after()
	}
	switch i := n.I.(type) {
	case *ssa.If:
		b := i.Block()
		return []Edge{
			{To: N{C: n.C, I: b.Succs[0].Instrs[0]}, Cond: V{n.C, i.Cond}, Pol: true, HasC: true, PredB: b},
			{To: N{C: n.C, I: b.Succs[1].Instrs[0]}, Cond: V{n.C, i.Cond}, Pol: false, HasC: true, PredB: b},
		}
	case *ssa.Jump:
		b := i.Block()
		return []Edge{{To: N{C: n.C, I: b.Succs[0].Instrs[0]}, PredB: b}}
	case *ssa.Panic:
		return nil
	case *ssa.Return:
		if n.C == g.Root || n.C.Parent == nil {
			return nil
		}
		call := n.C.Site.(ssa.Instruction)
		ret := N{C: n.C.Parent, I: call, After: true}
		if _, isDefer := call.(*ssa.Defer); isDefer {
			// return of a deferred call: R is recovered from the context map
			ret.R = g.deferSite(n.C)
		}
		es := plain(ret)
		if n.C.CB && !n.C.Once {
			es = append(es, Edge{To: entry(n.C)})
		}
		return es
	case *ssa.RunDefers:
		ds := deferredOf(n.C.Fn)
		return plain(g.runDefersFrom(n.C, i, ds, len(ds)-1)...)
	case *ssa.Defer:
		if n.R == nil {
			nx, _ := next(n)
			return plain(nx)
		}
		return g.callSucc(n, i, after)
	case *ssa.Go:
		if g.GoSync {
			return g.callSucc(n, i, after)
		}
		if g.AsyncInline {
			return append(g.callSucc(n, i, after), after()...)
		}
		return after()
	case *ssa.Call:
		return g.callSucc(n, i, after)
	}
	return after()
}

var deferSites = map[*Ctx]*ssa.RunDefers{}

func (g *Graph) deferSite(c *Ctx) *ssa.RunDefers { return deferSites[c] }

func (g *Graph) callSucc(n N, ci ssa.CallInstruction, after func() []Edge) (es []Edge) {
	c := ci.Common()
	if noReturn(c) {
		return nil
	}
	ts := g.Callees(n.C, c)
	opaque := len(ts) == 0
	for _, t := range ts {
		if g.canInline(n.C, t.fn) {
			cc := g.ctx(n.C, ci, t.fn, t.clo, false)
			if n.R != nil {
				deferSites[cc] = n.R
			}
			es = append(es, Edge{To: entry(cc)})
		} else {
			opaque = true
		}
	}
	if opaque {
		name := callName(c)
		once := g.Callback != nil && g.Callback(name)
		isCB := name == "" || syncCallback(name) || once
		ran := false
		defer func() {
			if !(once && ran) {
				es = append(es, after()...)
			}
		}()
		if isCB {
			for _, a := range c.Args {
				if _, ok := a.Type().Underlying().(*types.Signature); !ok {
					continue
				}
				for _, s := range g.Sources(V{n.C, a}) {
					var f *ssa.Function
					var clo V
					switch x := s.X.(type) {
					case *ssa.MakeClosure:
						f, clo = x.Fn.(*ssa.Function), s
					case *ssa.Function:
						f = x
					}
					if f != nil && g.canInline(n.C, f) {
						cc := g.ctx(n.C, ci, f, clo, true)
						cc.Once, ran = once, true
						es = append(es, Edge{To: entry(cc)})
					}
				}
			}
		}
	}
	return es
}

func noReturn(c *ssa.CallCommon) bool {
	switch callName(c) {
	case "os.Exit", "runtime.Goexit", "log.Fatal", "log.Fatalf", "log.Panic", "log.Panicf":
		return true
	}
	return false
}

// ---- path exploration with a small amount of path-sensitivity ----

// abs is what is known about a value on a path.
type abs struct {
	k byte // 't','f' booleans; 'n' nil, 'x' non-nil; 'a' alias
	a V    // 'a': what it is an alias of; 'x': the same where known
}

// alias: what a stands for, if it says that.
func (a abs) alias() bool { return a.a.X != nil && (a.k == 'a' || a.k == 'x') }

// of is a with the value it is known to be.
func (a abs) of(w, self V) abs {
	if a.k == 'x' && w != self && w.X != nil {
		a.a = w
	}
	return a
}

// dropAliases drops what the entries that stand for something f selects say about it.
func (e *env) dropAliases(f func(V) bool) *env {
	return e.dropAliasesAt(func(_ V, a abs) bool { return f(a.a) })
}

func (e *env) dropAliasesAt(f func(V, abs) bool) *env {
	var ks []V
	if e == nil {
		return nil
	}
	for k, x := range e.m {
		if x.k == 'x' && x.alias() && f(k, x) {
			ks = append(ks, k)
		}
	}
	for _, k := range ks {
		e = e.with(k, abs{k: 'x'})
	}
	return e
}

type env struct {
	m map[V]abs
}

func (e *env) get(v V) (abs, bool) {
	if e == nil {
		return abs{}, false
	}
	a, ok := e.m[v]
	return a, ok
}

func (e *env) with(v V, a abs) *env {
	m := map[V]abs{}
	if e != nil {
		for k, x := range e.m {
			m[k] = x
		}
	}
	m[v] = a
	return &env{m}
}

func (e *env) without(f func(V, abs) bool) *env {
	if e == nil {
		return nil
	}
	hit := false
	for k, x := range e.m {
		if f(k, x) {
			hit = true
			break
		}
	}
	if !hit {
		return e
	}
	m := map[V]abs{}
	for k, x := range e.m {
		if !f(k, x) {
			m[k] = x
		}
	}
	return &env{m}
}

// meet keeps what both know.
func (e *env) meet(o *env) *env {
	if o != nil {
		e = e.dropAliasesAt(func(k V, a abs) bool {
			b, ok := o.get(k)
			return ok && b.k == 'x' && b.a != a.a
		})
		o = o.dropAliasesAt(func(k V, a abs) bool {
			b, ok := e.get(k)
			return ok && b.k == 'x' && b.a != a.a
		})
	}
	return e.without(func(k V, a abs) bool {
		b, ok := o.get(k)
		return !ok || a != b
	})
}

func (e *env) key() string {
	if e == nil || len(e.m) == 0 {
		return ""
	}
	ks := make([]string, 0, len(e.m))
	for v, a := range e.m {
		s := fmt.Sprintf("%d/%p=%c", v.C.id, v.X, a.k)
		if a.alias() {
			s += fmt.Sprintf("%d/%p", a.a.C.id, a.a.X)
		}
		ks = append(ks, s)
	}
	sortStrings(ks)
	return strings.Join(ks, ",")
}

func trackable(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.Bool || u.Kind() == types.UntypedBool
	case *types.Interface, *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

// relevant: values of fn whose truth or nilness can decide a branch here or in the caller.
func (g *Graph) relevant(fn *ssa.Function) map[ssa.Value]bool {
	if r, ok := g.rel[fn]; ok {
		return r
	}
	r := map[ssa.Value]bool{}
	g.rel[fn] = r
	var add func(v ssa.Value)
	add = func(v ssa.Value) {
		if r[v] || !trackable(v.Type()) {
			return
		}
		r[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				add(e)
			}
		case *ssa.UnOp:
			if x.Op == token.NOT {
				add(x.X)
			}
			if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL { // a local variable: what it may hold
				for _, u := range *al.Referrers() {
					if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
						add(st.Val)
					}
				}
			}
		case *ssa.BinOp:
			if x.Op == token.EQL || x.Op == token.NEQ {
				if isNilConst(x.X) {
					add(x.Y)
				} else if isNilConst(x.Y) {
					add(x.X)
				} else if isBoolConst(x.X) {
					add(x.Y)
				} else if isBoolConst(x.Y) {
					add(x.X)
				} else if _, ok := x.Y.(*ssa.Const); ok {
					if ld, ok := x.X.(*ssa.UnOp); ok && ld.Op == token.MUL {
						r[ld] = true // flags of range-over-func loops
					}
				}
			}
		case *ssa.ChangeInterface:
			add(x.X)
		case *ssa.ChangeType:
			add(x.X)
		case *ssa.Extract:
			if cl, ok := x.Tuple.(*ssa.Call); ok {
				addArgs(add, cl)
			}
		case *ssa.Call:
			addArgs(add, x)
		}
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.If:
				add(x.Cond)
			case *ssa.Return:
				for _, v := range x.Results {
					add(v)
				}
			}
		}
	}
	return r
}

// addArgs: the errors given to a function of the program, which may return them.
func addArgs(add func(ssa.Value), cl *ssa.Call) {
	if f := cl.Call.StaticCallee(); f == nil || len(f.Blocks) == 0 {
		return
	}
	for _, a := range cl.Call.Args {
		if isErrType(a.Type()) {
			add(a)
		}
	}
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}
func isBoolConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.Kind() == constant.Bool
}

// eval gives what is known of a value on the path: t/f/n/x or alias-resolved unknown.
func (g *Graph) eval(e *env, v V) (abs, V) {
	notNil := false
	a, w := g.evalTo(e, v, &notNil)
	if a.k == 0 && notNil {
		return abs{k: 'x'}, w
	}
	a.a = V{}
	return a, w
}

func (g *Graph) evalTo(e *env, v V, notNil *bool) (abs, V) {
	for i := 0; i < 20; i++ {
		if a, ok := e.get(v); ok {
			if a.alias() {
				*notNil = *notNil || a.k == 'x'
				v = a.a
				continue
			}
			if a.k == 'u' {
				return abs{}, v
			}
			return a, v
		}
		switch x := v.X.(type) {
		case *ssa.Const:
			if x.Value == nil {
				if trackable(x.Type()) {
					return abs{k: 'n'}, v
				}
				return abs{}, v
			}
			if x.Value.Kind() == constant.Bool {
				if constant.BoolVal(x.Value) {
					return abs{k: 't'}, v
				}
				return abs{k: 'f'}, v
			}
			return abs{}, v
		case *ssa.UnOp:
			if x.Op == token.NOT {
				a, _ := g.eval(e, V{v.C, x.X})
				switch a.k {
				case 't':
					return abs{k: 'f'}, v
				case 'f':
					return abs{k: 't'}, v
				}
			}
			if sentinel(v) != nil {
				return abs{k: 'x'}, v
			}
			return abs{}, v
		case *ssa.BinOp:
			if x.Op == token.EQL || x.Op == token.NEQ {
				ax, vx := g.eval(e, V{v.C, x.X})
				ay, vy := g.eval(e, V{v.C, x.Y})
				r := byte(0)
				if ax.k != 0 && ay.k != 0 && ax.k != 'a' && ay.k != 'a' {
					if ax.k == ay.k && ax.k != 'x' {
						r = 't'
					} else if ax.k != ay.k {
						r = 'f'
					}
				}
				cx, ok1 := vx.X.(*ssa.Const)
				cy, ok2 := vy.X.(*ssa.Const)
				if gx := sentinel(vx); r == 0 && gx != nil && gx == sentinel(vy) {
					r = 't'
				}
				if r == 0 && (foreignError(vx, vy) || foreignError(vy, vx)) {
					r = 'f'
				}
				if r == 0 && ok1 && ok2 && cx.Value != nil && cy.Value != nil {
					if constant.Compare(cx.Value, token.EQL, cy.Value) {
						r = 't'
					} else {
						r = 'f'
					}
				}
				if r != 0 {
					if x.Op == token.NEQ {
						r = map[byte]byte{'t': 'f', 'f': 't'}[r]
					}
					return abs{k: r}, v
				}
			}
			return abs{}, v
		case *ssa.MakeInterface, *ssa.Alloc, *ssa.MakeClosure, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeSlice, *ssa.Function, *ssa.FieldAddr, *ssa.IndexAddr:
			return abs{k: 'x'}, v
		case *ssa.Parameter:
			if v.C.Parent != nil && v.C.Site != nil && !v.C.CB {
				if a, ok := argFor(v.C, x); ok {
					v = a
					continue
				}
			}
			return abs{}, v
		case *ssa.ChangeInterface:
			v = V{v.C, x.X}
			continue
		case *ssa.ChangeType:
			v = V{v.C, x.X}
			continue
		case *ssa.Call:
			switch callName(x.Common()) {
			case "fmt.Errorf", "errors.New":
				return abs{k: 'x'}, v
			case "errors.Is":
				ax, vx := g.eval(e, V{v.C, x.Call.Args[0]})
				_, vy := g.eval(e, V{v.C, x.Call.Args[1]})
				if gy := sentinel(vy); gy != nil {
					if ax.k == 'n' {
						return abs{k: 'f'}, v
					}
					if gy == sentinel(vx) {
						return abs{k: 't'}, v
					}
					if foreignError(vx, vy) {
						return abs{k: 'f'}, v
					}
				}
			}
			return abs{}, v
		default:
			return abs{}, v
		}
	}
	return abs{}, v
}

// foreignError: v is the result of a function of another package than that of the private error variable s, so it isn't s.
func foreignError(v, s V) bool {
	gl := sentinel(s)
	if gl == nil || gl.Pkg == nil || token.IsExported(gl.Name()) {
		return false
	}
	x := v.X
	if ex, ok := x.(*ssa.Extract); ok {
		x = ex.Tuple
	}
	call, ok := x.(*ssa.Call)
	if !ok {
		return false
	}
	f := call.Call.StaticCallee()
	if f == nil {
		return call.Call.IsInvoke() && call.Call.Method.Pkg() != gl.Pkg.Pkg
	}
	return f.Pkg != nil && f.Pkg != gl.Pkg && callName(&call.Call) != "fmt.Errorf" && callName(&call.Call) != "errors.Join"
}

// sentinel is the package-level error variable that v loads.
func sentinel(v V) *ssa.Global {
	ld, ok := v.X.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL || !types.Identical(ld.Type(), types.Universe.Lookup("error").Type()) {
		return nil
	}
	gl, _ := ld.X.(*ssa.Global)
	return gl
}

func argFor(c *Ctx, p *ssa.Parameter) (V, bool) {
	for i, q := range c.Fn.Params {
		if q != p {
			continue
		}
		cc := c.Site.Common()
		args := cc.Args
		if cc.IsInvoke() {
			if i == 0 {
				return V{c.Parent, cc.Value}, true
			}
			i--
		}
		if i < len(args) {
			return V{c.Parent, args[i]}, true
		}
	}
	return V{}, false
}

// Atom is one comparison known to hold on an edge: Op over X,Y; or Op "true"/"false" over X.
type Atom struct {
	Op   token.Token // EQL NEQ LSS LEQ GTR GEQ, or ILLEGAL for a plain boolean
	X, Y V
	Val  bool // for plain booleans
}

func negate(op token.Token) token.Token {
	switch op {
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	case token.LSS:
		return token.GEQ
	case token.GEQ:
		return token.LSS
	case token.GTR:
		return token.LEQ
	case token.LEQ:
		return token.GTR
	}
	return op
}

func flip(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

// atomOf decomposes a condition holding with polarity pol on a path.
func mirror(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func (g *Graph) atomOf(e *env, v V, pol bool) Atom {
	for {
		_, w := g.eval(e, v)
		v = w
		switch x := v.X.(type) {
		case *ssa.UnOp:
			if x.Op == token.NOT {
				v, pol = V{v.C, x.X}, !pol
				continue
			}
		case *ssa.BinOp:
			switch x.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				if x.Op == token.EQL || x.Op == token.NEQ {
					if c, ok := x.Y.(*ssa.Const); ok && isBoolConst(c) {
						v = V{v.C, x.X}
						pol = pol == ((x.Op == token.EQL) == constant.BoolVal(c.Value))
						continue
					}
				}
				op := x.Op
				if !pol {
					op = negate(op)
				}
				_, vx := g.eval(e, V{v.C, x.X})
				_, vy := g.eval(e, V{v.C, x.Y})
				if _, ok := vx.X.(*ssa.Const); ok { // constants to the right
					if _, ok := vy.X.(*ssa.Const); !ok {
						vx, vy = vy, vx
						op = mirror(op)
					}
				}
				return Atom{Op: op, X: vx, Y: vy}
			}
		}
		return Atom{X: v, Val: pol}
	}
}

// Step callbacks of an exploration. Q is the automaton state.
type Walker struct {
	// Node is called when a point is reached in state q (before its effect); it returns the new
	// state, whether to stop this path here, and a non-empty reason to report a violation.
	Node func(q int, n N, e *env) (int, bool, string)
	// Edge is called for branch edges with the atom that holds.
	Edge func(q int, a Atom, e *env) (int, bool)
	// Keep says whether a branch edge is possible in the walk's scenario.
	Keep func(a Atom, e *env) bool
	// PanicIsExit: call Node for panics (always called; here for documentation)
}

type pstate struct {
	n    N
	q    int
	st   *wstate
	prev *pstate
}

type Finding struct {
	Reason string
	At     N
	Path   []N
}

var errBudget = fmt.Errorf("exploration budget exceeded")

// Walk explores all paths from the root's entry.
func (g *Graph) Walk(q0 int, w Walker) ([]Finding, int, error) {
	return g.WalkFrom(entry(g.Root), q0, w)
}

func (g *Graph) WalkFrom(start N, q0 int, w Walker) ([]Finding, int, error) {
	return g.walkEnv(start, nil, q0, w, nil)
}

// explored keeps the states found by walks of one scenario for the next ones.
type explored struct {
	states map[stateKey]*wstate
}

type stateKey struct {
	n N
	e string
}

type wstate struct {
	e    *env // on arrival, then after the instruction
	succ []wsucc
	ran  bool // e is after the instruction
	full bool // succ is known
}

type wsucc struct {
	to   *wstate
	n    N
	pred *ssa.BasicBlock
	at   Atom
	hasC bool
	keep int8 // 0 unknown, 1 possible in the scenario, 2 not
}

func (x *explored) state(n N, e *env) *wstate {
	k := stateKey{n, e.key()}
	st := x.states[k]
	if st == nil {
		st = &wstate{e: e}
		x.states[k] = st
	}
	return st
}

// walkEnv explores from a point where some facts are known.
func (g *Graph) walkEnv(start N, e0 *env, q0 int, w Walker, ex *explored) ([]Finding, int, error) {
	type key struct {
		st *wstate
		q  int
	}
	if ex == nil {
		ex = &explored{states: map[stateKey]*wstate{}}
	}
	seen := map[key]bool{}
	var finds []Finding
	found := map[N]bool{}
	stack := []*pstate{{n: start, q: q0, st: ex.state(start, e0)}}
	steps := 0
	for len(stack) > 0 {
		s := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		k := key{s.st, s.q}
		if seen[k] {
			continue
		}
		seen[k] = true
		steps++
		if steps > g.Budget {
			return finds, steps, errBudget
		}
		if !s.st.ran {
			s.st.ran = true
			s.st.e = g.redefine(s.st.e, s.n)
			if !s.n.After && s.n.R == nil {
				s.st.e = g.cellEffect(s.st.e, s.n)
			}
		}
		q := s.q
		if !s.n.After {
			nq, stop, reason := w.Node(q, s.n, s.st.e)
			if reason != "" && !found[s.n] {
				found[s.n] = true
				f := Finding{Reason: reason, At: s.n}
				for x := s; x != nil; x = x.prev {
					f.Path = append(f.Path, x.n)
				}
				finds = append(finds, f)
			}
			if stop || reason != "" {
				continue
			}
			q = nq
		}
		if !s.st.full {
			g.expand(s.n, s.st)
		}
		for i := range s.st.succ {
			su := &s.st.succ[i]
			q2 := q
			if su.hasC {
				if w.Keep != nil {
					if su.keep == 0 {
						su.keep = 2
						if w.Keep(su.at, s.st.e) {
							su.keep = 1
						}
					}
					if su.keep == 2 {
						continue
					}
				}
				if w.Edge != nil {
					nq, stop := w.Edge(q, su.at, s.st.e)
					if stop {
						continue
					}
					q2 = nq
				}
			}
			if su.to == nil {
				g.arrive(s.n, s.st, su, ex)
			}
			stack = append(stack, &pstate{n: su.n, q: q2, st: su.to, prev: s})
		}
	}
	return finds, steps, nil
}

// redefine forgets what was known of the value the instruction computes anew.
func (g *Graph) redefine(e *env, n N) *env {
	def, ok := n.I.(ssa.Value)
	if !ok || n.After || n.R != nil {
		return e
	}
	if _, isPhi := def.(*ssa.Phi); isPhi {
		return e
	}
	if ex, isEx := def.(*ssa.Extract); isEx {
		if _, isEx = ex.Tuple.(*ssa.Call); isEx {
			return e
		}
	}
	hit := func(v V) bool {
		if v.C != n.C {
			return false
		}
		if v.X == def {
			return true
		}
		x, ok := v.X.(*ssa.Extract)
		return ok && x.Tuple == def
	}
	stale := func(a abs) bool { return a.k == 'a' && a.a.C == n.C && (hit(a.a) || deps(a.a.X)[def]) }
	e = e.dropAliases(func(w V) bool { return stale(abs{k: 'a', a: w}) })
	e = e.forgetHeap(func(k V, a abs) bool { return stale(a) })
	return e.without(func(k V, a abs) bool { return hit(k) || stale(a) })
}

// expand finds the feasible successors of a state.
func (g *Graph) expand(n N, st *wstate) {
	st.full = true
	e := st.e
	only, onlyC := g.knownCallee(e, n)
	for _, ed := range g.Succ(n) {
		if only != nil && ed.To.C.Parent == n.C && ed.To.C.Site == n.I && !ed.To.C.CB && (ed.To.C.Fn != only || ed.To.C.Clo.C != onlyC) {
			continue // another function than the one the value is on this path
		}
		su := wsucc{n: ed.To, pred: ed.PredB}
		if r, ok := n.I.(*ssa.Return); ok && n.C.CB && ed.To == entry(n.C) && len(r.Results) == 1 {
			a, _ := g.eval(e, V{n.C, r.Results[0]})
			if a.k == 'f' {
				continue // the loop body said stop
			}
			if b, ok := r.Results[0].Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 && a.k != 't' {
				su.at, su.hasC = g.atomOf(e, V{n.C, r.Results[0]}, true), true
			}
		}
		if ed.HasC {
			a, _ := g.eval(e, ed.Cond)
			if a.k == 't' && !ed.Pol || a.k == 'f' && ed.Pol {
				continue // infeasible
			}
			su.at, su.hasC = g.atomOf(e, ed.Cond, ed.Pol), true
		}
		st.succ = append(st.succ, su)
	}
}

// arrive finds what is known when a successor is reached.
func (g *Graph) arrive(n N, st *wstate, su *wsucc, ex *explored) {
	e := st.e
	if su.hasC {
		e = g.learn(e, su.at)
	}
	if su.pred != nil {
		e = g.phis(e, n.C, su.pred, su.n.I.Block())
	}
	if r, ok := n.I.(*ssa.Return); ok && !n.After && n.C != g.Root && n.C.Parent != nil {
		e = g.bindReturn(e, n.C, r)
	}
	su.to = ex.state(su.n, e)
}

// knownCallee is the function a called function value is on this path.
func (g *Graph) knownCallee(e *env, n N) (*ssa.Function, *Ctx) {
	call, ok := n.I.(*ssa.Call)
	if !ok || !g.TrackAll || n.After || call.Call.IsInvoke() || call.Call.StaticCallee() != nil {
		return nil, nil
	}
	_, w := g.eval(e, V{n.C, call.Call.Value})
	switch x := w.X.(type) {
	case *ssa.Function:
		return x, nil
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function), w.C
	}
	return nil, nil
}

func (g *Graph) learn(e *env, at Atom) *env {
	set := func(v V, k byte) {
		if v.X == nil {
			return
		}
		if _, isC := v.X.(*ssa.Const); isC {
			return
		}
		fn := v.X.Parent()
		if fn == nil || !g.relevant(fn)[v.X] {
			return
		}
		if refs := v.X.Referrers(); refs != nil && len(*refs) < 2 && !g.TrackAll {
			return
		}
		e = e.with(v, abs{k: k})
	}
	if at.Op == token.ILLEGAL {
		if at.Val {
			set(at.X, 't')
			if call, ok := at.X.X.(*ssa.Call); ok && callName(&call.Call) == "errors.Is" {
				if _, w := g.eval(e, V{at.X.C, call.Call.Args[1]}); sentinel(w) != nil {
					set(V{at.X.C, call.Call.Args[0]}, 'x')
				}
			}
		} else {
			set(at.X, 'f')
		}
		return e
	}
	if at.Op == token.EQL || at.Op == token.NEQ {
		k := byte('n')
		if at.Op == token.NEQ {
			k = 'x'
		}
		if isNilConst(at.Y.X) {
			set(at.X, k)
		} else if isNilConst(at.X.X) {
			set(at.Y, k)
		}
	}
	return e
}

func (g *Graph) phis(e *env, c *Ctx, from, to *ssa.BasicBlock) *env {
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	if idx < 0 {
		return e
	}
	rel := g.relevant(c.Fn)
	type upd struct {
		v  V
		a  abs
		ok bool
	}
	var us []upd
	for _, ins := range to.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		pv := V{c, ph}
		if !rel[ph] && !g.TrackAll {
			continue
		}
		a, w := g.eval(e, V{c, ph.Edges[idx]})
		if a.k == 0 {
			a = g.decide(e, V{c, ph.Edges[idx]})
		}
		if g.concrete && a.k == 0 && g.scenario != nil && isInt(ph.Type()) {
			if n, ok := g.scenario(e, V{c, ph.Edges[idx]}); ok && n >= -1 && n <= 6 {
				us = append(us, upd{pv, abs{k: 'a', a: V{c, g.intConst(n)}}, true})
				continue
			}
		}
		if a.k == 0 && g.dependsOnPhi(w, c, to) {
			us = append(us, upd{pv, abs{}, false})
		} else if a.k != 0 {
			if g.TrackAll && !g.dependsOnPhi(w, c, to) {
				a = a.of(w, pv)
			}
			us = append(us, upd{pv, a, true})
		} else if w != pv {
			us = append(us, upd{pv, abs{k: 'a', a: w}, true})
		} else {
			us = append(us, upd{pv, abs{}, false})
		}
	}
	for _, u := range us {
		e = e.dropAliases(func(w V) bool { return w.C == c && deps(w.X)[u.v.X] })
		e = e.forgetHeap(func(k V, a abs) bool { return a.k == 'a' && a.a.C == c && deps(a.a.X)[u.v.X] })
		e = e.without(func(k V, a abs) bool {
			return k == u.v || a.k == 'a' && a.a.C == c && deps(a.a.X)[u.v.X]
		})
	}
	for _, u := range us {
		if u.ok && !(u.a.k == 'a' && u.a.a == u.v) {
			e = e.with(u.v, u.a)
		}
	}
	return e
}

func (g *Graph) intConst(n int64) *ssa.Const {
	if g.ints == nil {
		g.ints = map[int64]*ssa.Const{}
	}
	if g.ints[n] == nil {
		g.ints[n] = ssa.NewConst(constant.MakeInt64(n), types.Typ[types.Int])
	}
	return g.ints[n]
}

// decide evaluates a boolean in the walk's scenario.
func (g *Graph) decide(e *env, v V) abs {
	if g.scenario == nil || !isBoolV(v) {
		return abs{}
	}
	if r, ok := g.scenario(e, v); ok {
		if r != 0 {
			return abs{k: 't'}
		}
		return abs{k: 'f'}
	}
	return abs{}
}

// bindReturn records, in the caller, what the call returned and forgets the callee's facts.
func (g *Graph) bindReturn(e *env, c *Ctx, r *ssa.Return) *env {
	type bind struct {
		v V
		a abs
	}
	var bs []bind
	if call, ok := c.Site.(*ssa.Call); ok && !c.CB {
		rel := g.relevant(c.Parent.Fn)
		add := func(dst ssa.Value, src ssa.Value) {
			if !rel[dst] && !g.TrackAll {
				return
			}
			a, w := g.eval(e, V{c, src})
			if a.k == 0 {
				a = g.decide(e, V{c, src})
			}
			if a.k != 0 {
				if g.TrackAll {
					a = a.of(w, V{c.Parent, dst})
				}
				bs = append(bs, bind{V{c.Parent, dst}, a})
			} else {
				bs = append(bs, bind{V{c.Parent, dst}, abs{k: 'a', a: w}})
			}
		}
		if len(r.Results) == 1 {
			add(call, r.Results[0])
		} else if refs := call.Referrers(); refs != nil {
			for _, u := range *refs {
				if ex, ok := u.(*ssa.Extract); ok && ex.Index < len(r.Results) {
					add(ex, r.Results[ex.Index])
				}
			}
		}
	}
	// what the result is made of in the callee stays known
	keep := map[V]bool{}
	if g.TrackAll {
		for _, res := range r.Results {
			_, w := g.eval(e, V{c, res})
			if w.X == nil || w.C == c.Parent {
				continue
			}
			g.keepDeps(e, w, c, keep)
		}
	}
	e = e.without(func(k V, a abs) bool {
		if a.alias() && keep[k] {
			return false
		}
		for x := k.C; x != nil; x = x.Parent {
			if x == c {
				return true
			}
		}
		return false
	})
	for _, b := range bs {
		e = e.with(b.v, b.a)
	}
	return e
}

// ---- local variables on paths ----

// cellVal stands for the content of a local variable.
type cellVal struct{ *ssa.Alloc }

var cellVals = map[*ssa.Alloc]*cellVal{}

func cellKey(c V) V {
	al := c.X.(*ssa.Alloc)
	cv := cellVals[al]
	if cv == nil {
		cv = &cellVal{al}
		cellVals[al] = cv
	}
	return V{c.C, cv}
}

// trackedCell resolves an address to a local variable whose content can be followed on paths: only
// loaded and stored, here and in closures that are called directly or passed to calls.
func (g *Graph) trackedCell(addr V) (V, bool) {
	cell, ok := g.cellOf(addr)
	if !ok {
		return V{}, false
	}
	al := cell.X.(*ssa.Alloc)
	if g.cells == nil {
		g.cells = map[*ssa.Alloc]bool{}
	}
	t, known := g.cells[al]
	if !known {
		t = true
		if _, isStruct := al.Type().(*types.Pointer).Elem().Underlying().(*types.Struct); isStruct {
			t = false
		}
		if t {
			t = simpleCell(al, 0)
		}
		g.cells[al] = t
	}
	return cell, t
}

func simpleCell(addr ssa.Value, depth int) bool {
	refs := addr.Referrers()
	if refs == nil || depth > 6 {
		return false
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr != addr {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			fn := x.Fn.(*ssa.Function)
			writes := false
			for i, b := range x.Bindings {
				if b == addr {
					if !simpleCell(fn.FreeVars[i], depth+1) {
						return false
					}
					writes = writes || hasStore(fn.FreeVars[i], 0)
				}
			}
			if writes {
				for _, u := range *x.Referrers() {
					switch u.(type) {
					case *ssa.Call, *ssa.Defer, *ssa.DebugRef:
					default:
						return false
					}
				}
			}
		default:
			return false
		}
	}
	return true
}

func hasStore(addr ssa.Value, depth int) bool {
	if addr.Referrers() == nil || depth > 6 {
		return true
	}
	for _, r := range *addr.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			return true
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if b == addr && hasStore(x.Fn.(*ssa.Function).FreeVars[i], depth+1) {
					return true
				}
			}
		}
	}
	return false
}

// cellEffect records what an instruction does to local variables.
func (g *Graph) cellEffect(e *env, n N) *env {
	switch x := n.I.(type) {
	case *ssa.Alloc:
		if g.TrackAll {
			e = e.without(func(k V, _ abs) bool {
				h, ok := k.X.(*heapVal)
				return ok && h.alloc == V{n.C, x}
			})
		}
		cell, ok := g.trackedCell(V{n.C, x})
		if !ok {
			return e
		}
		k := cellKey(cell)
		el := x.Type().(*types.Pointer).Elem()
		e = e.without(func(v V, _ abs) bool { return v == k })
		if b, ok := el.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			return e.with(k, abs{k: 'f'})
		}
		if trackable(el) {
			return e.with(k, abs{k: 'n'})
		}
		return e.with(k, abs{k: 'a', a: V{n.C, zeroConst(el)}})
	case *ssa.UnOp:
		// a load keeps the content of this moment
		if x.Op == token.MUL && g.TrackAll {
			if k, ok := g.heapKey(e, V{n.C, x.X}); ok {
				if a, ok := e.get(k); ok {
					return e.with(V{n.C, x}, a)
				}
				return e
			}
		}
		if x.Op != token.MUL || !g.TrackAll && !g.relevant(n.C.Fn)[x] {
			return e
		}
		if cell, ok := g.trackedCell(V{n.C, x.X}); ok {
			if a, ok := e.get(cellKey(cell)); ok {
				return e.with(V{n.C, x}, a)
			}
		} else if al, ok := x.X.(*ssa.Alloc); ok && isErrType(x.Type()) && g.TrackAll {
			// an error variable others can write to: unknown, but the same until something can change it
			k := errCell(V{n.C, al})
			if a, ok := e.get(k); ok && a.k != 'u' {
				return e.with(V{n.C, x}, a)
			}
			return e.with(k, abs{k: 'a', a: V{n.C, x}})
		}
		return e
	case *ssa.Call:
		if g.TrackAll {
			if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
				e = e.forgetHeap(isErrCell)
			}
			return g.heapCall(e, n, &x.Call)
		}
		return e
	case *ssa.Store:
		if g.TrackAll {
			if isErrType(x.Val.Type()) {
				e = e.forgetHeap(isErrCell)
			}
			if k, ok := g.heapKey(e, V{n.C, x.Addr}); ok {
				return g.heapStore(e, k, V{n.C, x.Val})
			}
			if al, ok := x.Addr.(*ssa.Alloc); ok && changedCopy(al) {
				// its fields come with the copy
				for _, r := range *al.Referrers() {
					fa, ok := r.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					if k, ok := g.heapKey(e, V{n.C, fa}); ok {
						e = g.heapStore(e, k, V{n.C, copiedField(x.Val, fa.Field)})
					}
				}
				return e
			}
		}
		cell, ok := g.trackedCell(V{n.C, x.Addr})
		if !ok {
			return e
		}
		k := cellKey(cell)
		a, w := g.eval(e, V{n.C, x.Val})
		e = e.without(func(v V, _ abs) bool { return v == k })
		if a.k != 0 {
			if g.TrackAll {
				a = a.of(w, k)
			}
			return e.with(k, a)
		}
		return e.with(k, abs{k: 'a', a: w})
	}
	return e
}

var zeroConsts = map[types.Type]*ssa.Const{}

func zeroConst(t types.Type) *ssa.Const {
	if c := zeroConsts[t]; c != nil {
		return c
	}
	c := ssa.NewConst(nil, t)
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsNumeric != 0:
			c = ssa.NewConst(constant.MakeInt64(0), t)
		case b.Info()&types.IsString != 0:
			c = ssa.NewConst(constant.MakeString(""), t)
		}
	}
	zeroConsts[t] = c
	return c
}

// deps lists the values the expression of x is built from (stopping at, but including, phis).
var depCache = map[ssa.Value]map[ssa.Value]bool{}

func deps(x ssa.Value) map[ssa.Value]bool {
	if m, ok := depCache[x]; ok {
		return m
	}
	m := map[ssa.Value]bool{}
	depCache[x] = m
	var rec func(x ssa.Value)
	rec = func(x ssa.Value) {
		if x == nil || m[x] {
			return
		}
		m[x] = true
		if _, ok := x.(*ssa.Phi); ok {
			return
		}
		in, ok := x.(ssa.Instruction)
		if !ok {
			return
		}
		if _, ok := x.(*ssa.Alloc); ok {
			return
		}
		for _, o := range in.Operands(nil) {
			if *o != nil {
				rec(*o)
			}
		}
	}
	rec(x)
	return m
}

// keepDeps collects what value v is made of, in activation c and those it called.
func (g *Graph) keepDeps(e *env, v V, c *Ctx, keep map[V]bool) {
	if v.X == nil || keep[v] {
		return
	}
	inside := false
	for x := v.C; x != nil && !inside; x = x.Parent {
		inside = x == c
	}
	if !inside {
		return
	}
	for d := range deps(v.X) {
		k := V{v.C, d}
		keep[k] = true
		todo := []V{k}
		if al, isAlloc := d.(*ssa.Alloc); isAlloc {
			ck := cellKey(k)
			keep[ck] = true
			todo = append(todo, ck)
			if al.Comment == "varargs" {
				for _, u := range *al.Referrers() {
					ia, ok := u.(*ssa.IndexAddr)
					if !ok {
						continue
					}
					for _, r := range *ia.Referrers() {
						if st, ok := r.(*ssa.Store); ok && st.Addr == ia {
							g.keepDeps(e, V{v.C, st.Val}, c, keep)
						}
					}
				}
			}
		}
		for _, k := range todo {
			if a, ok := e.get(k); ok && a.alias() && a.a != v {
				g.keepDeps(e, a.a, c, keep)
			}
		}
	}
}

func (g *Graph) dependsOnPhi(v V, c *Ctx, to *ssa.BasicBlock) bool {
	if v.C != c {
		return false
	}
	for d := range deps(v.X) {
		if ph, ok := d.(*ssa.Phi); ok && ph.Block() == to {
			return true
		}
	}
	return false
}

// ---- fields of objects on paths (TrackAll) ----

// heapVal stands for the content of a field or element, identified by the term of its address.
type heapVal struct {
	*ssa.Alloc // never set; makes it an ssa.Value
	place      string
	full       string // type.field, or "[]" for elements
	alloc      V      // the struct built here whose field it is
}

var heapVals = map[string]*heapVal{}

// errCell stands for the content of an error variable whose address is passed on.
func errCell(al V) V {
	k := fmt.Sprintf("errcell@%p:%p", al.C, al.X)
	h := heapVals[k]
	if h == nil {
		h = &heapVal{place: k, full: "errcell"}
		heapVals[k] = h
	}
	return V{al.C, h}
}

func isErrCell(v V, _ abs) bool {
	h, ok := v.X.(*heapVal)
	return ok && h.full == "errcell"
}

func (g *Graph) heapKey(e *env, addr V) (V, bool) {
	full := ""
	switch x := addr.X.(type) {
	case *ssa.FieldAddr:
		full = fieldOf(x)
		// fields of structs built here are resolved by localField
		srcs := g.Sources(V{addr.C, x.X})
		for _, s := range srcs {
			if _, ok := s.X.(*ssa.Alloc); ok {
				// unless a number is updated in place: then the last update on the path counts
				if len(srcs) != 1 {
					return V{}, false
				}
				if !changedCopy(s.X.(*ssa.Alloc)) {
					b, num := x.Type().(*types.Pointer).Elem().Underlying().(*types.Basic)
					if !num || b.Info()&types.IsNumeric == 0 {
						return V{}, false
					}
					if w, ok := g.localField(addr.C, x); !ok || len(w) < 2 {
						return V{}, false
					}
				}
				k := fmt.Sprintf("%s@local:%p:%p", full, s.C, s.X)
				h := heapVals[k]
				if h == nil {
					h = &heapVal{place: k, full: full, alloc: s}
					heapVals[k] = h
				}
				return V{g.Root, h}, true
			}
		}
	case *ssa.IndexAddr:
		full = "[]" + short(x.Type())
	default:
		return V{}, false
	}
	p := g.Term(e, addr).String()
	k := full + "@" + p
	h := heapVals[k]
	if h == nil {
		h = &heapVal{place: p, full: full}
		heapVals[k] = h
	}
	return V{g.Root, h}, true
}

func (g *Graph) heapStore(e *env, k V, val V) *env {
	h := k.X.(*heapVal)
	a, w := g.eval(e, val)
	// another place of the same field may be the same object
	e = e.forgetHeap(func(v V, _ abs) bool {
		o, ok := v.X.(*heapVal)
		return ok && o != h && o.full == h.full
	})
	if a.k == 0 || a.k == 'a' {
		a = abs{k: 'a', a: w}
	}
	return e.with(k, a)
}

// heapCall forgets what a call that is not followed may change.
func (g *Graph) heapCall(e *env, n N, c *ssa.CallCommon) *env {
	if e == nil {
		return e
	}
	any := false
	for k := range e.m {
		if _, ok := k.X.(*heapVal); ok {
			any = true
			break
		}
	}
	if !any {
		return e
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return e
	}
	for _, t := range g.Callees(n.C, c) {
		if !g.canInline(n.C, t.fn) {
			if g.P.inRepo(t.fn) {
				mods := g.P.modSet(t.fn)
				e = e.forgetHeap(func(v V, _ abs) bool {
					h, ok := v.X.(*heapVal)
					return ok && mods[h.full]
				})
			}
		}
	}
	return e
}

// forgetHeap makes heap contents unknown.
func (e *env) forgetHeap(f func(V, abs) bool) *env {
	if e == nil {
		return nil
	}
	var ks []V
	for k, x := range e.m {
		switch k.X.(type) {
		case *heapVal, *cellVal:
			if x.k != 'u' && f(k, x) {
				ks = append(ks, k)
			}
		}
	}
	for _, k := range ks {
		e = e.with(k, abs{k: 'u'})
	}
	return e
}

// modSet lists the fields a function may store to, directly or through static callees.
func (p *Prog) modSet(f *ssa.Function) map[string]bool {
	if p.mods == nil {
		p.mods = map[*ssa.Function]map[string]bool{}
	}
	if m, ok := p.mods[f]; ok {
		return m
	}
	m := map[string]bool{}
	p.mods[f] = m
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Store:
					if s := fieldOf(x.Addr); s != "" {
						m[s] = true
					} else if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
						m["[]"+short(ia.Type())] = true
					}
				case *ssa.MakeClosure:
					rec(x.Fn.(*ssa.Function))
				}
				if ci, ok := i.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil {
						rec(g)
					}
				}
			}
		}
	}
	rec(f)
	return m
}
