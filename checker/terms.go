package main

// Value provenance: leaf sources of a value, and canonical terms.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func sortStrings(s []string) { sort.Strings(s) }

// cellOf resolves an address to a local variable (Alloc) in the activation that owns it.
func (g *Graph) cellOf(v V) (V, bool) {
	for i := 0; i < 20; i++ {
		switch x := v.X.(type) {
		case *ssa.Alloc:
			return v, true
		case *ssa.FreeVar:
			w, ok := g.freeVar(v.C, x)
			if !ok {
				return V{}, false
			}
			v = w
		default:
			return V{}, false
		}
	}
	return V{}, false
}

func (g *Graph) freeVar(c *Ctx, x *ssa.FreeVar) (V, bool) {
	for i, fv := range c.Fn.FreeVars {
		if fv == x {
			if c.Clo.X != nil {
				mc := c.Clo.X.(*ssa.MakeClosure)
				return V{c.Clo.C, mc.Bindings[i]}, true
			}
			return V{}, false
		}
	}
	return V{}, false
}

// storesTo lists every store into a local variable, in its function and in closures capturing it.
// Stores in closures are attributed to activation nil-context of the closure (see note).
func (g *Graph) storesTo(cell V) ([]V, bool) {
	al := cell.X.(*ssa.Alloc)
	var out []V
	ok := true
	var scan func(addr ssa.Value, c *Ctx, depth int)
	scan = func(addr ssa.Value, c *Ctx, depth int) {
		refs := addr.Referrers()
		if refs == nil {
			return
		}
		for _, r := range *refs {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr == addr {
					out = append(out, V{c, x.Val})
				} else {
					ok = false // address stored away
				}
			case *ssa.MakeClosure:
				fn := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == addr && depth < 6 {
						cc := g.someCtx(fn, V{c, x})
						scan(fn.FreeVars[i], cc, depth+1)
					}
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.FieldAddr, *ssa.IndexAddr:
				// partial writes: handled by callers
			case ssa.CallInstruction:
				ok = false // passed by address
			default:
				ok = false
			}
		}
	}
	scan(al, cell.C, 0)
	return out, ok
}

// someCtx finds an existing activation of closure clo, or makes a detached one.
func (g *Graph) someCtx(fn *ssa.Function, clo V) *Ctx {
	var best *Ctx
	for _, c := range g.ctxs {
		if c.Fn == fn && c.Clo == clo && (best == nil || c.id < best.id) {
			best = c
		}
	}
	if best != nil {
		return best
	}
	k := ctxKey{nil, nil, fn, clo.X, clo.C}
	if c := g.ctxs[k]; c != nil {
		return c
	}
	g.nctx++
	c := &Ctx{Fn: fn, Clo: clo, id: g.nctx, depth: clo.C.depth + 1}
	g.ctxs[k] = c
	return c
}

// Sources resolves a value to the leaves it may come from (through phis, locals, parameters,
// closures, returns of inlinable callees, conversions between interfaces).
func (g *Graph) Sources(v V) []V {
	seen := map[V]bool{}
	var out []V
	var rec func(v V, d int)
	rec = func(v V, d int) {
		if seen[v] {
			return
		}
		seen[v] = true
		if d > 40 {
			out = append(out, v)
			return
		}
		switch x := v.X.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				rec(V{v.C, e}, d+1)
			}
			return
		case *ssa.ChangeInterface:
			rec(V{v.C, x.X}, d+1)
			return
		case *ssa.ChangeType:
			rec(V{v.C, x.X}, d+1)
			return
		case *ssa.Parameter:
			if v.C != nil && v.C.Site != nil && !v.C.CB {
				if a, ok := argFor(v.C, x); ok {
					rec(a, d+1)
					return
				}
			}
		case *ssa.FreeVar:
			if w, ok := g.freeVar(v.C, x); ok {
				rec(w, d+1)
				return
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if cell, ok := g.cellOf(V{v.C, x.X}); ok {
					if _, isStruct := cell.X.Type().(*types.Pointer).Elem().Underlying().(*types.Struct); !isStruct {
						st, whole := g.storesTo(cell)
						if whole && len(st) > 0 {
							for _, s := range st {
								rec(s, d+1)
							}
							return
						}
					}
				}
				if w, ok := g.localField(v.C, x.X); ok {
					for _, s := range w {
						rec(s, d+1)
					}
					return
				}
			}
		case *ssa.Call:
			if rs, ok := g.returnsOf(v.C, x, 0); ok && x.Call.Signature().Results().Len() == 1 {
				for _, r := range rs {
					rec(r, d+1)
				}
				return
			}
		case *ssa.Extract:
			if call, ok := x.Tuple.(*ssa.Call); ok {
				if rs, ok := g.returnsOf(v.C, call, x.Index); ok {
					for _, r := range rs {
						rec(r, d+1)
					}
					return
				}
			}
		}
		out = append(out, v)
	}
	rec(v, 0)
	return out
}

// localField resolves a load of a field of a struct built locally (composite literal): the values
// stored to that field, when the struct has no other way to change it in view.
func (g *Graph) localField(c *Ctx, addr ssa.Value) ([]V, bool) {
	fa, ok := addr.(*ssa.FieldAddr)
	if !ok {
		return nil, false
	}
	base := V{c, fa.X}
	if g.inField[base] {
		return nil, false
	}
	if g.inField == nil {
		g.inField = map[V]bool{}
	}
	g.inField[base] = true
	defer delete(g.inField, base)
	var cells []V
	for _, s := range g.Sources(base) {
		if _, ok := s.X.(*ssa.Alloc); !ok {
			return nil, false
		}
		cells = append(cells, s)
	}
	var out []V
	for _, cell := range cells {
		w, ok := fieldValues(cell, fa.Field, 0)
		if !ok {
			return nil, false
		}
		out = append(out, w...)
	}
	return out, len(out) > 0
}

// fieldValues lists what is stored to a field of a local struct, or comes with a struct copied to it.
func fieldValues(cell V, field, depth int) (out []V, ok bool) {
	refs := cell.X.Referrers()
	if refs == nil {
		return nil, false
	}
	var copies []*ssa.Store
	for _, r := range *refs {
		switch f2 := r.(type) {
		case *ssa.Store:
			if f2.Addr == cell.X {
				copies = append(copies, f2)
			}
		case *ssa.FieldAddr:
			if f2.Field != field {
				continue
			}
			for _, u := range *f2.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == f2 {
					out = append(out, V{cell.C, st.Val})
				}
			}
		}
	}
	if al, ok := cell.X.(*ssa.Alloc); !ok || !changedCopy(al) {
		return out, true
	}
	for _, st := range copies {
		if l, ok := st.Val.(*ssa.UnOp); ok && depth < 3 {
			if lit, ok := l.X.(*ssa.Alloc); ok {
				if w, ok := fieldValues(V{cell.C, lit}, field, depth+1); ok && len(w) > 0 {
					out = append(out, w...)
					continue
				}
			}
		}
		out = append(out, V{cell.C, copiedField(st.Val, field)})
	}
	return out, true
}

// fieldVal is a field of a struct value that is copied.
type fieldVal struct {
	*ssa.Field
	typ types.Type
}

func (f *fieldVal) Type() types.Type              { return f.typ }
func (f *fieldVal) Parent() *ssa.Function         { return f.X.Parent() }
func (f *fieldVal) Referrers() *[]ssa.Instruction { return nil }
func (f *fieldVal) Name() string {
	return f.X.Name() + "." + structT(f.X.Type()).Field(f.Field.Field).Name()
}
func (f *fieldVal) String() string { return f.Name() }

var fieldVals = map[ssa.Value]map[int]*fieldVal{}

func copiedField(w ssa.Value, field int) *fieldVal {
	m := fieldVals[w]
	if m == nil {
		m = map[int]*fieldVal{}
		fieldVals[w] = m
	}
	if m[field] == nil {
		m[field] = &fieldVal{&ssa.Field{X: w, Field: field}, structT(w.Type()).Field(field).Type()}
	}
	return m[field]
}

func structT(t types.Type) *types.Struct {
	s, _ := t.Underlying().(*types.Struct)
	return s
}

var changedCopies = map[*ssa.Alloc]bool{}

// changedCopy: a struct variable that gets a copy of a struct and whose fields are then changed.
func changedCopy(al *ssa.Alloc) bool {
	r, ok := changedCopies[al]
	if ok {
		return r
	}
	if structT(al.Type().Underlying().(*types.Pointer).Elem()) != nil && al.Referrers() != nil {
		copied, changed, plain := false, false, true
		for _, r := range *al.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr != al {
					plain = false
				} else if _, isC := x.Val.(*ssa.Const); !isC {
					copied = true
				}
			case *ssa.FieldAddr:
				for _, u := range *x.Referrers() {
					st, ok := u.(*ssa.Store)
					changed = changed || ok && st.Addr == x
				}
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				plain = false
			}
		}
		r = copied && changed && plain
	}
	changedCopies[al] = r
	return r
}

// returnsOf lists what an inlinable call may return at result idx.
func (g *Graph) returnsOf(c *Ctx, call *ssa.Call, idx int) ([]V, bool) {
	if _, isB := call.Call.Value.(*ssa.Builtin); isB {
		return nil, false
	}
	ts := g.Callees(c, &call.Call)
	if len(ts) == 0 {
		return nil, false
	}
	var out []V
	for _, t := range ts {
		if !g.canInline(c, t.fn) {
			return nil, false
		}
		cc := g.ctx(c, call, t.fn, t.clo, false)
		for _, b := range t.fn.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
				out = append(out, V{cc, r.Results[idx]})
			}
		}
	}
	return out, len(out) > 0
}

// Term is a canonical expression.
type Term struct {
	Op    string // const param global field index lookup call bin un phi alloc conv assert slice extract closure func
	S     string
	A     []*Term
	L     []*Term // elements of a variadic argument list
	V     V
	s     string
	Stale bool // a place whose content was changed on the path to something unknown
}

func (t *Term) String() string {
	if t.s != "" {
		return t.s
	}
	arg := func(i int) string { return t.A[i].String() }
	args := func(from int) string {
		var ss []string
		for _, a := range t.A[from:] {
			ss = append(ss, a.String())
		}
		return strings.Join(ss, ", ")
	}
	switch t.Op {
	case "const", "param", "global", "func", "alloc":
		t.s = t.S
	case "field":
		t.s = arg(0) + "." + t.S
	case "index":
		t.s = arg(0) + "[" + arg(1) + "]"
	case "lookup":
		t.s = arg(0) + "[" + arg(1) + "]"
	case "call":
		t.s = t.S + "(" + args(0) + ")"
	case "bin":
		t.s = "(" + arg(0) + " " + t.S + " " + arg(1) + ")"
	case "un":
		t.s = t.S + arg(0)
	case "conv":
		t.s = t.S + "(" + arg(0) + ")"
	case "assert":
		t.s = arg(0) + ".(" + t.S + ")"
	case "slice":
		t.s = arg(0) + "[" + arg(1) + ":" + arg(2) + "]"
	case "extract":
		t.s = arg(0) + "#" + t.S
	case "phi", "set":
		ss := []string{}
		for _, a := range t.A {
			ss = append(ss, a.String())
		}
		sort.Strings(ss)
		t.s = t.Op + t.S + "{" + strings.Join(ss, "|") + "}"
	case "closure":
		t.s = "closure:" + t.S
	default:
		t.s = t.Op + t.S + "(" + args(0) + ")"
	}
	return t.s
}

func (t *Term) Find(pred func(*Term) bool) *Term {
	if pred(t) {
		return t
	}
	for _, a := range t.A {
		if r := a.Find(pred); r != nil {
			return r
		}
	}
	return nil
}

func short(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return strings.TrimPrefix(p.Path(), modPath+"/") })
}

// inlinedResult: v is the result of an inlined call with several returns.
func (g *Graph) inlinedResult(v V) bool {
	var rs []V
	ok := false
	switch x := v.X.(type) {
	case *ssa.Call:
		if x.Call.Signature().Results().Len() == 1 {
			rs, ok = g.returnsOf(v.C, x, 0)
		}
	case *ssa.Extract:
		if call, is := x.Tuple.(*ssa.Call); is {
			rs, ok = g.returnsOf(v.C, call, x.Index)
		}
	case *ssa.ChangeType:
		return g.inlinedResult(V{v.C, x.X})
	}
	return ok && (len(rs) > 1 || len(rs) == 1 && g.inlinedResult(rs[0]))
}

// Term builds the canonical expression of a value on a path with facts e (nil: no path).
func (g *Graph) Term(e *env, v V) *Term { return g.term(e, v, map[V]bool{}, 0) }

func (g *Graph) term(e *env, v V, busy map[V]bool, d int) *Term {
	if v.X == nil {
		return &Term{Op: "const", S: "_", V: v}
	}
	for i := 0; i < 20 && e != nil; i++ {
		a, ok := e.get(v)
		if !ok {
			break
		}
		if a.alias() {
			v = a.a
			continue
		}
		if a.k == 'u' {
			ev := e
			t := *g.term(ev.without(func(k V, _ abs) bool { return k == v }), v, busy, d+1)
			t.Stale = true
			return &t
		}
		if _, isLoad := v.X.(*ssa.UnOp); isLoad || isBoolV(v) || a.k == 'n' && g.inlinedResult(v) {
			switch a.k {
			case 'n':
				return &Term{Op: "const", S: "nil", V: v}
			case 't':
				return &Term{Op: "const", S: "true", V: v}
			case 'f':
				return &Term{Op: "const", S: "false", V: v}
			}
		}
		break
	}
	if busy[v] || d > 60 {
		return &Term{Op: "alloc", S: "↺" + v.X.Name(), V: v}
	}
	busy[v] = true
	defer delete(busy, v)
	sub := func(w V) *Term { return g.term(e, w, busy, d+1) }
	in := func(x ssa.Value) *Term { return sub(V{v.C, x}) }
	switch x := v.X.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if _, ok := x.Type().Underlying().(*types.Struct); ok {
				return &Term{Op: "const", S: "zero", V: v}
			}
			return &Term{Op: "const", S: "nil", V: v}
		}
		if x.Value.Kind() == constant.String {
			return &Term{Op: "const", S: fmt.Sprintf("%q", constant.StringVal(x.Value)), V: v}
		}
		return &Term{Op: "const", S: x.Value.ExactString(), V: v}
	case *ssa.Parameter:
		if v.C != nil && v.C.Site != nil && !v.C.CB {
			if a, ok := argFor(v.C, x); ok {
				return sub(a)
			}
		}
		if v.C == nil {
			return &Term{Op: "param", S: x.Parent().Name() + ":" + x.Name(), V: v}
		}
		for i, p := range v.C.Fn.Params {
			if p == x {
				pre := ""
				if v.C != g.Root && v.C != g.home {
					pre = v.C.Fn.Name() + ":"
				}
				return &Term{Op: "param", S: fmt.Sprintf("%sp%d", pre, i), V: v}
			}
		}
	case *ssa.FreeVar:
		if w, ok := g.freeVar(v.C, x); ok {
			return sub(w)
		}
		return &Term{Op: "alloc", S: "free:" + x.Name(), V: v}
	case *ssa.Global:
		return &Term{Op: "global", S: strings.TrimPrefix(x.Pkg.Pkg.Path(), modPath+"/") + "." + x.Name(), V: v}
	case *ssa.Function:
		return &Term{Op: "func", S: fname(x), V: v}
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		if fn.Synthetic != "" && strings.HasSuffix(fn.Name(), "$bound") && len(x.Bindings) == 1 {
			return &Term{Op: "bound", S: objName(fn.Object().(*types.Func)), A: []*Term{in(x.Bindings[0])}, V: v}
		}
		return &Term{Op: "closure", S: fname(fn), V: v}
	case *ssa.Alloc:
		if w := structCopy(x); w != nil {
			return in(w)
		}
		return &Term{Op: "alloc", S: "&" + x.Comment + "@" + x.Name(), V: v}
	case *ssa.FieldAddr:
		st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		return &Term{Op: "field", S: st.Field(x.Field).Name(), A: []*Term{in(x.X)}, V: v}
	case *ssa.Field:
		st := x.X.Type().Underlying().(*types.Struct)
		return &Term{Op: "field", S: st.Field(x.Field).Name(), A: []*Term{in(x.X)}, V: v}
	case *fieldVal:
		return &Term{Op: "field", S: structT(x.X.Type()).Field(x.Field.Field).Name(), A: []*Term{in(x.X)}, V: v}
	case *ssa.IndexAddr:
		t := &Term{Op: "index", A: []*Term{in(x.X), in(x.Index)}, V: v}
		if w, ok := varargElem(t); ok {
			return sub(w)
		}
		return t
	case *ssa.Index:
		return &Term{Op: "index", A: []*Term{in(x.X), in(x.Index)}, V: v}
	case *ssa.Lookup:
		return &Term{Op: "lookup", A: []*Term{in(x.X), in(x.Index)}, V: v}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			if cell, ok := g.cellOf(V{v.C, x.X}); ok {
				st, whole := g.storesTo(cell)
				if changedCopy(cell.X.(*ssa.Alloc)) {
					return sub(cell)
				}
				if whole && len(st) == 1 {
					return sub(st[0])
				}
				if whole && len(st) > 1 {
					t := &Term{Op: "set", V: v}
					for _, s := range st {
						t.A = append(t.A, sub(s))
					}
					return dedupe(t)
				}
				if len(st) == 0 && whole {
					return &Term{Op: "alloc", S: "zero:" + short(x.Type()), V: v}
				}
			}
			if w, ok := g.localField(v.C, x.X); ok {
				if len(w) == 1 {
					return sub(w[0])
				}
				t := &Term{Op: "set", V: v}
				for _, s := range w {
					t.A = append(t.A, sub(s))
				}
				return dedupe(t)
			}
			return in(x.X) // a load reads as the place it loads from
		case token.ARROW:
			return &Term{Op: "un", S: "<-", A: []*Term{in(x.X)}, V: v}
		}
		return &Term{Op: "un", S: x.Op.String(), A: []*Term{in(x.X)}, V: v}
	case *ssa.BinOp:
		a, b := in(x.X), in(x.Y)
		op := x.Op
		switch op {
		case token.ADD, token.MUL, token.AND, token.OR, token.XOR, token.EQL, token.NEQ:
			bt, isB := x.X.Type().Underlying().(*types.Basic)
			if !(isB && bt.Info()&types.IsString != 0 && op == token.ADD) && b.String() < a.String() {
				a, b = b, a
			}
		case token.GTR, token.GEQ:
			a, b, op = b, a, flip(op)
		}
		return &Term{Op: "bin", S: op.String(), A: []*Term{a, b}, V: v}
	case *ssa.Phi:
		loop := false
		for i, ed := range x.Edges {
			if x.Block().Dominates(x.Block().Preds[i]) {
				loop = true
			}
			_ = ed
		}
		if loop {
			t := &Term{Op: "phi", S: "loop@" + x.Name(), V: v}
			for i, ed := range x.Edges {
				if !x.Block().Dominates(x.Block().Preds[i]) {
					t.A = append(t.A, in(ed))
				}
			}
			return t
		}
		t := &Term{Op: "set", V: v}
		for _, ed := range x.Edges {
			t.A = append(t.A, in(ed))
		}
		return dedupe(t)
	case *ssa.ChangeType:
		return in(x.X)
	case *ssa.ChangeInterface:
		return in(x.X)
	case *ssa.MakeInterface:
		return in(x.X)
	case *ssa.Convert:
		return &Term{Op: "conv", S: short(x.Type()), A: []*Term{in(x.X)}, V: v}
	case *ssa.MultiConvert:
		return &Term{Op: "conv", S: short(x.Type()), A: []*Term{in(x.X)}, V: v}
	case *ssa.SliceToArrayPointer:
		return in(x.X)
	case *ssa.TypeAssert:
		return &Term{Op: "assert", S: short(x.AssertedType), A: []*Term{in(x.X)}, V: v}
	case *ssa.Slice:
		lo, hi := &Term{Op: "const", S: ""}, &Term{Op: "const", S: ""}
		if x.Low != nil {
			lo = in(x.Low)
		}
		if x.High != nil {
			hi = in(x.High)
		}
		t := &Term{Op: "slice", A: []*Term{in(x.X), lo, hi}, V: v}
		if n, al, ok := varargs(t); ok {
			for i := int64(0); i < n; i++ {
				el := &Term{Op: "alloc", S: "?"}
				if w, ok := varargAt(al, i); ok {
					el = sub(w)
				}
				t.L = append(t.L, el)
			}
		}
		return t
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			if rs, ok := g.returnsOf(v.C, call, x.Index); ok {
				if len(rs) == 1 {
					return sub(rs[0])
				}
				t := &Term{Op: "set", V: v}
				for _, r := range rs {
					t.A = append(t.A, sub(r))
				}
				return dedupe(t)
			}
		}
		if nx, ok := x.Tuple.(*ssa.Next); ok {
			return &Term{Op: "range", S: fmt.Sprint(x.Index), A: []*Term{in(nx.Iter.(*ssa.Range).X)}, V: v}
		}
		if sel, ok := x.Tuple.(*ssa.Select); ok && x.Index >= 2 {
			n := x.Index - 2
			for _, st := range sel.States {
				if st.Dir == types.RecvOnly {
					if n == 0 {
						return &Term{Op: "un", S: "<-", A: []*Term{in(st.Chan)}, V: v}
					}
					n--
				}
			}
		}
		return &Term{Op: "extract", S: fmt.Sprint(x.Index), A: []*Term{in(x.Tuple)}, V: v}
	case *ssa.Select:
		return &Term{Op: "alloc", S: "select@" + x.Name(), V: v}
	case *ssa.Call:
		if rs, ok := g.returnsOf(v.C, x, 0); ok && x.Call.Signature().Results().Len() == 1 {
			if len(rs) == 1 {
				return sub(rs[0])
			}
			t := &Term{Op: "set", V: v}
			for _, r := range rs {
				t.A = append(t.A, sub(r))
			}
			return dedupe(t)
		}
		t := &Term{Op: "call", S: callName(&x.Call), V: v}
		if x.Call.IsInvoke() || t.S == "" {
			t.A = append(t.A, in(x.Call.Value))
		}
		for _, a := range x.Call.Args {
			t.A = append(t.A, in(a))
		}
		if t.S == "builtin.len" {
			if n, _, ok := varargs(t.A[0]); ok {
				return &Term{Op: "const", S: fmt.Sprint(n), V: v}
			}
			if a := t.A[0]; a.Op == "const" && a.S == "nil" {
				return &Term{Op: "const", S: "0", V: v}
			}
		}
		return t
	case *ssa.MakeSlice:
		return &Term{Op: "make", S: "[]", A: []*Term{in(x.Len)}, V: v}
	case *ssa.MakeMap:
		return &Term{Op: "alloc", S: "map@" + x.Name(), V: v}
	case *ssa.MakeChan:
		return &Term{Op: "make", S: "chan", A: []*Term{in(x.Size)}, V: v}
	}
	return &Term{Op: "alloc", S: fmt.Sprintf("%T:%s", v.X, v.X.Name()), V: v}
}

func dedupe(t *Term) *Term {
	m := map[string]bool{}
	var a []*Term
	for _, x := range t.A {
		if !m[x.String()] {
			m[x.String()] = true
			a = append(a, x)
		}
	}
	t.A = a
	if len(a) == 1 {
		return a[0]
	}
	return t
}

// AtomString prints a canonical comparison.
func (g *Graph) AtomString(e *env, a Atom) string {
	if a.Op == token.ILLEGAL {
		s := g.Term(e, a.X).String()
		if !a.Val {
			return "!" + s
		}
		return s
	}
	x, y, op := g.Term(e, a.X), g.Term(e, a.Y), a.Op
	if op == token.GTR || op == token.GEQ {
		x, y, op = y, x, flip(op)
	} else if (op == token.EQL || op == token.NEQ) && y.String() < x.String() {
		x, y = y, x
	}
	return x.String() + " " + op.String() + " " + y.String()
}

func isBoolV(v V) bool {
	b, ok := v.X.Type().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// varargs recognises the arguments of a variadic call: the array made for them, unsliced.
func varargs(t *Term) (n int64, al V, ok bool) {
	if t.Op != "slice" || t.A[0].Op != "alloc" || t.A[1].S != "" || t.A[2].S != "" {
		return 0, V{}, false
	}
	a, isA := t.A[0].V.X.(*ssa.Alloc)
	if !isA || a.Comment != "varargs" && a.Comment != "slicelit" {
		return 0, V{}, false
	}
	ar, isA := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !isA {
		return 0, V{}, false
	}
	return ar.Len(), t.A[0].V, true
}

// varargElem is the value of a variadic argument read by constant index.
func varargElem(t *Term) (V, bool) {
	_, al, ok := varargs(t.A[0])
	if !ok || t.A[1].Op != "const" {
		return V{}, false
	}
	i, err := strconv.ParseInt(t.A[1].S, 10, 64)
	if err != nil {
		return V{}, false
	}
	return varargAt(al, i)
}

// varargAt is the i'th variadic argument stored in the array al.
func varargAt(al V, i int64) (V, bool) {
	var out V
	n := 0
	for _, r := range *al.X.(*ssa.Alloc).Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		if c, ok := constInt(ia.Index); !ok || c != i {
			continue
		}
		for _, u := range *ia.Referrers() {
			if st, ok := u.(*ssa.Store); ok {
				out = V{al.C, st.Val}
				n++
			}
		}
	}
	return out, n == 1
}

// structCopy is the value a local struct variable is a copy of: stored whole once, its fields only read.
func structCopy(al *ssa.Alloc) ssa.Value {
	if _, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); !ok {
		return nil
	}
	var w ssa.Value
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr != al || w != nil {
				return nil
			}
			w = x.Val
		default:
			if !readOnly(r, al) {
				return nil
			}
		}
	}
	if _, ok := w.(*ssa.Const); ok {
		return nil
	}
	return w
}

// readOnly reports whether the use of the struct variable at addr only reads it (or its fields).
func readOnly(r ssa.Instruction, addr ssa.Value) bool {
	switch x := r.(type) {
	case *ssa.FieldAddr:
		for _, u := range *x.Referrers() {
			if l, ok := u.(*ssa.UnOp); !ok || l.Op != token.MUL {
				return false
			}
		}
		return true
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			if b != addr {
				continue
			}
			for _, u := range *fn.FreeVars[i].Referrers() {
				if !readOnly(u, fn.FreeVars[i]) {
					return false
				}
			}
		}
		return true
	case *ssa.UnOp, *ssa.DebugRef:
		return true
	}
	return false
}
