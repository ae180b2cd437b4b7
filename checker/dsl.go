package main

// The vocabulary of the rules: events, facts about terms, and path queries.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/bits"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// X is a point on a path.
type X struct {
	g *Graph
	n N
	e *env
}

type Ev func(x X) bool

// common is the call executed at this point, if any.
func (x X) common() *ssa.CallCommon {
	switch i := x.n.I.(type) {
	case *ssa.Call:
		return &i.Call
	case *ssa.Go:
		return &i.Call
	case *ssa.Defer:
		if x.n.R != nil {
			return &i.Call
		}
	}
	return nil
}

// arg is the i'th argument of the call; the receiver is argument 0.
func (x X) arg(i int) V {
	c := x.common()
	if c == nil {
		return V{}
	}
	if i < 0 { // from the end
		if i += len(c.Args); i < 0 {
			return V{}
		}
		return V{x.n.C, c.Args[i]}
	}
	if c.IsInvoke() {
		if i == 0 {
			return V{x.n.C, c.Value}
		}
		i--
	}
	if i < len(c.Args) {
		return V{x.n.C, c.Args[i]}
	}
	return V{}
}

func (x X) t(v V) *Term      { return x.g.Term(x.e, v) }
func (x X) argT(i int) *Term { return x.t(x.arg(i)) }

func (x X) pos() token.Pos {
	if p := x.n.I.Pos(); p.IsValid() {
		return p
	}
	b := x.n.I.Block()
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	return x.n.C.Fn.Pos()
}

// call matches an executed call of one of the named functions or interface methods.
func call(names ...string) Ev {
	return func(x X) bool {
		c := x.common()
		if c == nil {
			return false
		}
		n := callName(c)
		for _, m := range names {
			if n == m {
				return true
			}
		}
		if n == "" {
			// a function value: resolve it
			for _, t := range x.g.Callees(x.n.C, c) {
				n := calleeName(t.fn)
				for _, m := range names {
					if n == m {
						return true
					}
				}
			}
		}
		return false
	}
}

func calleeName(f *ssa.Function) string {
	if strings.HasSuffix(f.Name(), "$bound") || strings.HasSuffix(f.Name(), "$thunk") {
		if o, ok := f.Object().(*types.Func); ok {
			return objName(o)
		}
	}
	return fname(f)
}

func or(es ...Ev) Ev {
	return func(x X) bool {
		for _, e := range es {
			if e(x) {
				return true
			}
		}
		return false
	}
}

func and(es ...Ev) Ev {
	return func(x X) bool {
		for _, e := range es {
			if !e(x) {
				return false
			}
		}
		return true
	}
}

func not(e Ev) Ev { return func(x X) bool { return !e(x) } }

// fieldOf names the field an address or field value denotes: "dkv.DB.wal".
func fieldOf(v ssa.Value) string {
	var t types.Type
	var i int
	switch x := v.(type) {
	case *ssa.FieldAddr:
		t, i = x.X.Type().Underlying().(*types.Pointer).Elem(), x.Field
	case *ssa.Field:
		t, i = x.X.Type(), x.Field
	default:
		return ""
	}
	return typeName(t) + "." + structOf(t).Field(i).Name()
}

func structOf(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func typeName(t types.Type) string {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		n = n.Origin()
		pk := ""
		if n.Obj().Pkg() != nil {
			pk = strings.TrimPrefix(n.Obj().Pkg().Path(), modPath+"/") + "."
		}
		return pk + n.Obj().Name()
	}
	return short(t)
}

func in(s string, set []string) bool {
	for _, m := range set {
		if s == m {
			return true
		}
	}
	return false
}

// store matches a store to one of the named fields.
func store(fields ...string) Ev {
	return func(x X) bool {
		s, ok := x.n.I.(*ssa.Store)
		return ok && x.n.R == nil && in(fieldOf(s.Addr), fields)
	}
}

func (x X) stored() V {
	switch s := x.n.I.(type) {
	case *ssa.Store:
		return V{x.n.C, s.Val}
	case *ssa.MapUpdate:
		return V{x.n.C, s.Value}
	case *ssa.Send:
		return V{x.n.C, s.X}
	}
	return V{}
}

// load matches a read of one of the named fields.
func load(fields ...string) Ev {
	return func(x X) bool {
		switch s := x.n.I.(type) {
		case *ssa.UnOp:
			return s.Op == token.MUL && in(fieldOf(s.X), fields)
		case *ssa.Field:
			return in(fieldOf(s), fields)
		}
		return false
	}
}

// containerField names the field a map, slice or channel operand was read from.
func (x X) containerField(v ssa.Value) string {
	if l, ok := v.(*ssa.UnOp); ok && l.Op == token.MUL {
		if f := fieldOf(l.X); f != "" {
			return f
		}
	}
	for _, s := range x.g.Sources(V{x.n.C, v}) {
		switch l := s.X.(type) {
		case *ssa.UnOp:
			if l.Op == token.MUL {
				if f := fieldOf(l.X); f != "" {
					return f
				}
			}
		case *ssa.Field:
			return fieldOf(l)
		}
	}
	return ""
}

// mapSet matches m[k] = v where m is one of the named fields.
func mapSet(fields ...string) Ev {
	return func(x X) bool {
		s, ok := x.n.I.(*ssa.MapUpdate)
		return ok && in(x.containerField(s.Map), fields)
	}
}

// mapDel matches delete(m, k).
func mapDel(fields ...string) Ev {
	b := call("builtin.delete")
	return func(x X) bool { return b(x) && in(x.containerField(x.arg(0).X), fields) }
}

// send matches a send on a channel field (including as a select case).
func send(fields ...string) Ev {
	return func(x X) bool {
		switch s := x.n.I.(type) {
		case *ssa.Send:
			return in(x.containerField(s.Chan), fields)
		case *ssa.Select:
			for _, st := range s.States {
				if st.Dir == types.SendOnly && in(x.containerField(st.Chan), fields) {
					return true
				}
			}
		}
		return false
	}
}

func recv(fields ...string) Ev {
	return func(x X) bool {
		switch s := x.n.I.(type) {
		case *ssa.UnOp:
			return s.Op == token.ARROW && in(x.containerField(s.X), fields)
		case *ssa.Select:
			for _, st := range s.States {
				if st.Dir == types.RecvOnly && in(x.containerField(st.Chan), fields) {
					return true
				}
			}
		}
		return false
	}
}

// exit matches a return of the root.
func exit(x X) bool { return x.g.IsExit(x.n) }

// result evaluates result i of a root return; i < 0 counts from the end.
func (x X) result(i int) V {
	r, ok := x.n.I.(*ssa.Return)
	if !ok {
		return V{}
	}
	if i < 0 {
		i += len(r.Results)
	}
	if i < 0 || i >= len(r.Results) {
		return V{}
	}
	return V{x.n.C, r.Results[i]}
}

func isErrType(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// okExit matches a root return that may report success (its error result is not known to be non-nil).
func okExit(x X) bool {
	if !exit(x) {
		return false
	}
	v := x.result(-1)
	if v.X == nil || !isErrType(v.X.Type()) {
		return true
	}
	a, _ := x.g.eval(x.e, v)
	return a.k != 'x'
}

// nilErrExit matches a root return whose error result is definitely nil.
func nilErrExit(x X) bool {
	if !exit(x) {
		return false
	}
	v := x.result(-1)
	if v.X == nil || !isErrType(v.X.Type()) {
		return true
	}
	a, _ := x.g.eval(x.e, v)
	return a.k == 'n'
}

// ---- evaluation of terms over a finite assignment ----

// Asg gives the value of a leaf term in a scenario.
type Asg func(t *Term) (int64, bool)

func evalTerm(t *Term, asg Asg) (int64, bool) {
	if t.Stale {
		return 0, false
	}
	if asg != nil {
		if v, ok := asg(t); ok {
			return v, true
		}
	}
	v, ok := evalOp(t, asg)
	if ok && t.V.X != nil && (t.Op == "bin" || t.Op == "conv" || t.Op == "un" || t.Op == "call") {
		v = wrap(v, t.V.X.Type())
	}
	return v, ok
}

// wrap reduces a value to the width of an integer type.
func wrap(v int64, ty types.Type) int64 {
	b, ok := ty.Underlying().(*types.Basic)
	if !ok {
		return v
	}
	switch b.Kind() {
	case types.Uint8:
		return int64(uint8(v))
	case types.Uint16:
		return int64(uint16(v))
	case types.Uint32:
		return int64(uint32(v))
	case types.Int8:
		return int64(int8(v))
	case types.Int16:
		return int64(int16(v))
	case types.Int32:
		return int64(int32(v))
	}
	return v
}

func evalOp(t *Term, asg Asg) (int64, bool) {
	two := func() (int64, int64, bool) {
		a, ok1 := evalTerm(t.A[0], asg)
		b, ok2 := evalTerm(t.A[1], asg)
		return a, b, ok1 && ok2
	}
	b2i := func(b bool) int64 {
		if b {
			return 1
		}
		return 0
	}
	cmp := func(a, b int64) int64 {
		if a < b {
			return -1
		}
		return b2i(a > b)
	}
	if t.isCall("errors.Is", "errors.As") && len(t.A) == 2 {
		if a, ok := evalTerm(t.A[0], asg); ok && a == 0 {
			return 0, true
		}
		if t.S == "errors.As" {
			return 0, false
		}
		a, b, ok := two()
		return b2i(a == b && a != 0), ok
	}
	switch t.Op {
	case "const":
		switch t.S {
		case "nil", "false":
			return 0, true
		case "true":
			return 1, true
		}
		if n, err := strconv.ParseInt(t.S, 10, 64); err == nil {
			return n, true
		}
		if strings.HasPrefix(t.S, "\"") {
			return 0, false
		}
		if n, err := strconv.ParseUint(t.S, 10, 64); err == nil {
			return int64(n), true
		}
	case "alloc":
		if strings.HasPrefix(t.S, "zero:") {
			return 0, true
		}
	case "conv":
		return evalTerm(t.A[0], asg)
	case "set":
		// several possible values: decided only if they agree
		var v int64
		for i, a := range t.A {
			w, ok := evalTerm(a, asg)
			if !ok || i > 0 && w != v {
				return 0, false
			}
			v = w
		}
		return v, len(t.A) > 0
	case "un":
		a, ok := evalTerm(t.A[0], asg)
		if !ok {
			return 0, false
		}
		switch t.S {
		case "!":
			return 1 - a, true
		case "-":
			return -a, true
		}
	case "bin":
		a, b, ok := two()
		if !ok {
			if t.S == "==" || t.S == "!=" {
				if full, known := nonEmpty(t, asg); known && full {
					return b2i(t.S == "!="), true
				}
			}
			return 0, false
		}
		switch t.S {
		case "+":
			return a + b, true
		case "-":
			return a - b, true
		case "*":
			return a * b, true
		case "/":
			if b == 0 {
				return 0, false
			}
			return a / b, true
		case "%":
			if b == 0 {
				return 0, false
			}
			return a % b, true
		case ">>":
			if b < 0 {
				return 0, false
			}
			if t.V.X != nil {
				if k, ok := t.V.X.Type().Underlying().(*types.Basic); ok && (k.Kind() == types.Uint64 || k.Kind() == types.Uint) {
					return int64(uint64(a) >> uint(b)), true
				}
			}
			return a >> uint(b), true
		case "<<":
			if b < 0 {
				return 0, false
			}
			return a << uint(b), true
		case "&":
			return a & b, true
		case "|":
			return a | b, true
		case "^":
			return a ^ b, true
		case "&^":
			return a &^ b, true
		case "==":
			return b2i(a == b), true
		case "!=":
			return b2i(a != b), true
		case "<":
			return b2i(a < b), true
		case "<=":
			return b2i(a <= b), true
		case ">":
			return b2i(a > b), true
		case ">=":
			return b2i(a >= b), true
		}
	case "call":
		switch t.S {
		case "builtin.len":
			return evalLen(t.A[0], asg)
		case "cmp.Or", "errors.Join":
			// the first (any) that isn't zero
			known := true
			for _, a := range t.A {
				for _, e := range a.L {
					v, ok := evalTerm(e, asg)
					if ok && v != 0 && (known || t.V.X == nil || isErrType(t.V.X.Type())) {
						return v, true
					}
					known = known && ok
				}
				if len(a.L) == 0 {
					known = false
				}
			}
			return 0, known
		case "bytes.Compare", "strings.Compare", "cmp.Compare", "(time.Time).Compare":
			if a, b, ok := two(); ok {
				return cmp(a, b), true
			}
		case "cmp.Less", "(time.Time).Before":
			if a, b, ok := two(); ok {
				return b2i(a < b), true
			}
		case "(time.Time).After":
			if a, b, ok := two(); ok {
				return b2i(a > b), true
			}
		case "bytes.Equal", "(time.Time).Equal":
			if a, b, ok := two(); ok {
				return b2i(a == b), true
			}
		case "(time.Time).Add":
			if a, b, ok := two(); ok {
				return a + b, true
			}
		case "(time.Time).Sub":
			if a, b, ok := two(); ok {
				return a - b, true
			}
		case "(time.Time).UnixNano", "(time.Time).UTC", "(time.Duration).Nanoseconds":
			if len(t.A) == 1 {
				return evalTerm(t.A[0], asg)
			}
		case "math/bits.RotateLeft32":
			if a, b, ok := two(); ok {
				return int64(bits.RotateLeft32(uint32(a), int(b))), true
			}
		case "math/bits.RotateLeft64", "math/bits.RotateLeft":
			if a, b, ok := two(); ok {
				return int64(bits.RotateLeft64(uint64(a), int(b))), true
			}
		case "builtin.min", "builtin.max":
			var v int64
			for i, a := range t.A {
				w, ok := evalTerm(a, asg)
				if !ok {
					return 0, false
				}
				if i == 0 || t.S == "builtin.min" && w < v || t.S == "builtin.max" && w > v {
					v = w
				}
			}
			return v, len(t.A) > 0
		}
	}
	return 0, false
}

// evalLen is the length of a slice built from others.
func evalLen(s *Term, asg Asg) (int64, bool) {
	length := func(u *Term) (int64, bool) {
		return evalTerm(&Term{Op: "call", S: "builtin.len", A: []*Term{u}}, asg)
	}
	switch {
	case s.Stale:
	case s.Op == "slice" && s.L != nil:
		return int64(len(s.L)), true
	case s.Op == "slice":
		lo, ok := int64(0), true
		if !noBound(s, 1) {
			if lo, ok = evalTerm(s.A[1], asg); !ok {
				return 0, false
			}
		}
		var hi int64
		if noBound(s, 2) {
			hi, ok = length(s.A[0])
		} else {
			hi, ok = evalTerm(s.A[2], asg)
		}
		return hi - lo, ok && lo <= hi
	case s.Op == "make" && s.S == "[]":
		return evalTerm(s.A[0], asg)
	case s.isCall("builtin.append") && len(s.A) == 2:
		a, ok1 := length(s.A[0])
		b, ok2 := length(s.A[1])
		return a + b, ok1 && ok2
	case s.isCall("slices.Clone", "bytes.Clone", "slices.Clip"):
		return length(s.A[0])
	case s.Op == "const" && s.S == "nil":
		return 0, true
	}
	return 0, false
}

// ---- path queries ----

// Q is a query over the paths of a graph, optionally from a point inside it and restricted to a
// scenario (assignment of leaf terms).
type Q struct {
	seen     *explored // by walks of this scenario
	c        *Check
	name     string
	g        *Graph
	start    *N
	startEnv *env
	asg      Asg
	prune    func(q int, x X, a Atom) bool // edge is not followed
	stop     Ev                            // path ends here without being an exit
	mark     func(s int, x X, a Atom) int  // state change on an edge
	concrete bool                          // loop variables the scenario determines keep their values
}

func (c *Check) q(name string, g *Graph) *Q {
	return &Q{c: c, name: name, g: g, seen: &explored{states: map[stateKey]*wstate{}}}
}

func (q *Q) when(a Asg) *Q {
	r := *q
	r.asg, r.seen = a, &explored{states: map[stateKey]*wstate{}}
	return &r
}

// concretely: integer loop variables whose values the scenario determines keep them (up to a few iterations).
func (q *Q) concretely() *Q {
	r := *q
	r.concrete, r.seen = true, &explored{states: map[stateKey]*wstate{}}
	return &r
}
func (q *Q) from(n N) *Q       { r := *q; r.start = &n; return &r }
func (q *Q) until(e Ev) *Q     { r := *q; r.stop = e; return &r }
func (q *Q) named(n string) *Q { r := *q; r.name = n; return &r }
func (q *Q) without(f func(x X, a Atom) bool) *Q {
	r := *q
	r.prune = func(_ int, x X, a Atom) bool { return f(x, a) }
	return &r
}

func (q *Q) walk(q0 int, node func(q int, x X) (int, bool, string)) []Finding {
	w := Walker{Node: func(s int, n N, e *env) (int, bool, string) {
		x := X{q.g, n, e}
		if q.stop != nil && q.stop(x) {
			return s, true, ""
		}
		return node(s, x)
	}}
	w.Keep = func(a Atom, e *env) bool {
		v, ok := q.atomVal(e, a)
		return !ok || v
	}
	if q.prune != nil || q.mark != nil {
		w.Edge = func(s int, a Atom, e *env) (int, bool) {
			if q.prune != nil && q.prune(s, X{g: q.g, e: e}, a) {
				return s, true
			}
			if q.mark != nil {
				s = q.mark(s, X{g: q.g, e: e}, a)
			}
			return s, false
		}
	}
	old := q.g.scenario
	defer func() { q.g.scenario, q.g.concrete = old, false }()
	q.g.scenario, q.g.concrete = nil, q.concrete
	if q.asg != nil {
		q.g.scenario = func(e *env, v V) (int64, bool) { return evalTerm(q.g.Term(e, v), q.asg) }
	}
	st := entry(q.g.Root)
	if q.start != nil {
		st = *q.start
	}
	fs, steps, err := q.g.walkEnv(st, q.startEnv, q0, w, q.seen)
	q.c.Steps += steps
	if err != nil {
		q.c.undecided(q.name, "%v", err)
	}
	return fs
}

// atomVal decides an atom under the scenario.
func (q *Q) atomVal(e *env, a Atom) (bool, bool) {
	if a.Op == token.ILLEGAL {
		v, ok := evalTerm(q.g.Term(e, a.X), q.asg)
		return (v != 0) == a.Val, ok
	}
	tx, ty := q.g.Term(e, a.X), q.g.Term(e, a.Y)
	x, ok1 := evalTerm(tx, q.asg)
	y, ok2 := evalTerm(ty, q.asg)
	if !ok1 || !ok2 {
		if q.asg != nil && (a.Op == token.EQL || a.Op == token.NEQ) {
			if full, ok := nonEmpty(&Term{Op: "bin", A: []*Term{tx, ty}}, q.asg); ok && full {
				return a.Op == token.NEQ, true
			}
		}
		return false, false
	}
	switch a.Op {
	case token.EQL:
		return x == y, true
	case token.NEQ:
		return x != y, true
	case token.LSS:
		return x < y, true
	case token.LEQ:
		return x <= y, true
	case token.GTR:
		return x > y, true
	case token.GEQ:
		return x >= y, true
	}
	return false, false
}

// sites lists the points matching ev on the surviving paths.
func (q *Q) sites(ev Ev) []X {
	var out []X
	seen := map[N]bool{}
	q.walk(0, func(s int, x X) (int, bool, string) {
		if ev(x) && !seen[x.n] {
			seen[x.n] = true
			out = append(out, x)
		}
		return s, false, ""
	})
	q.c.Sites += len(out)
	return out
}

// visits calls f for every (point, path state) matching ev.
func (q *Q) visits(ev Ev, f func(x X)) int {
	k := 0
	q.walk(0, func(s int, x X) (int, bool, string) {
		if ev(x) {
			k++
			f(x)
		}
		return s, false, ""
	})
	q.c.Sites += k
	return k
}

func (q *Q) report(fs []Finding, why string) bool {
	for _, f := range fs {
		x := X{q.g, f.At, nil}
		ob := Ob{Rule: q.c.Rule.ID, Construct: q.name, Reason: why, Pos: q.c.pos(x.pos()), Path: q.c.pathStrings(f.Path)}
		if f.Reason != "" && f.Reason != "x" {
			ob.Reason = f.Reason
			if why != "" {
				ob.Reason += ": " + why
			}
		}
		q.c.Obs = append(q.c.Obs, ob)
		return false // one report per obligation
	}
	q.c.ok(q.name)
	return true
}

// need fails when ev matches nowhere in the graph.
func (q *Q) need(ev Ev, what string) []X {
	s := q.sites(ev)
	if len(s) == 0 {
		q.c.fail(q.name, q.g.Root.Fn.Pos(), "no %s in %s", what, fname(q.g.Root.Fn))
		panic(abortRule{})
	}
	return s
}

type abortRule struct{}

// mustPass: every path to an exit passes ev.
func (q *Q) mustPass(ev, exits Ev, why string) bool {
	return q.report(q.walk(0, func(s int, x X) (int, bool, string) {
		if ev(x) {
			return 1, true, ""
		}
		if exits(x) {
			return s, true, "x"
		}
		return s, false, ""
	}), why)
}

// precede: on every path, b happens only after a.
func (q *Q) precede(a, b Ev, why string) bool {
	if len(q.sites(b)) == 0 {
		q.c.fail(q.name, q.g.Root.Fn.Pos(), "no site to check in %s: %s", fname(q.g.Root.Fn), why)
		return false
	}
	return q.report(q.walk(0, func(s int, x X) (int, bool, string) {
		if b(x) {
			return s, true, "x"
		}
		if a(x) {
			return 1, true, ""
		}
		return s, false, ""
	}), why)
}

// follow: after every a, every path to an exit passes b.
func (q *Q) follow(a, b, exits Ev, why string) bool {
	if len(q.sites(a)) == 0 {
		q.c.fail(q.name, q.g.Root.Fn.Pos(), "no site to check in %s: %s", fname(q.g.Root.Fn), why)
		return false
	}
	return q.report(q.walk(0, func(s int, x X) (int, bool, string) {
		if s == 1 && b(x) {
			return 0, false, ""
		}
		if a(x) {
			return 1, false, ""
		}
		if s == 1 && exits(x) {
			return s, true, "x"
		}
		return s, false, ""
	}), why)
}

// neverAfter: b never happens on a path after a (a happening again does not reset).
func (q *Q) neverAfter(a, b Ev, why string) bool {
	return q.report(q.walk(0, func(s int, x X) (int, bool, string) {
		if s == 1 && b(x) {
			return s, true, "x"
		}
		if a(x) {
			return 1, false, ""
		}
		return s, false, ""
	}), why)
}

// notBetween: no bad point between a and b.
func (q *Q) notBetween(a, bad, b Ev, why string) bool {
	return q.report(q.walk(0, func(s int, x X) (int, bool, string) {
		if s == 1 && b(x) {
			return 0, false, ""
		}
		if s == 1 && bad(x) {
			return s, true, "x"
		}
		if a(x) {
			return 1, false, ""
		}
		return s, false, ""
	}), why)
}

// never: no surviving path reaches ev.
func (q *Q) never(ev Ev, why string) bool {
	return q.report(q.walk(0, func(s int, x X) (int, bool, string) {
		if ev(x) {
			return s, true, "x"
		}
		return s, false, ""
	}), why)
}

// all: pred holds at every point matching ev; there is at least one.
func (q *Q) all(ev Ev, pred func(x X) bool, why string) bool {
	n := 0
	ok := q.report(q.walk(0, func(s int, x X) (int, bool, string) {
		if ev(x) {
			n++
			if !pred(x) {
				return s, true, "x"
			}
		}
		return s, false, ""
	}), why)
	if ok && n == 0 {
		q.c.Obs = q.c.Obs[:len(q.c.Obs)-1]
		q.c.fail(q.name, q.g.Root.Fn.Pos(), "no site to check in %s: %s", fname(q.g.Root.Fn), why)
		return false
	}
	q.c.Sites += n
	return ok
}

// reached: some surviving path reaches ev.
func (q *Q) reached(ev Ev, why string) bool {
	if len(q.sites(ev)) > 0 {
		q.c.ok(q.name)
		return true
	}
	q.c.fail(q.name, q.g.Root.Fn.Pos(), "%s", why)
	return false
}

// ---- term helpers ----

// is reports that the term is a field of the given name, at the end of a path.
func (t *Term) isField(name string) bool { return t.Op == "field" && t.S == name }

// leafField reports a term denoting type.field (e.g. "dkv.DB.seqNum").
func (t *Term) isFieldOf(full string) bool {
	return t.Op == "field" && t.fullField() == full
}

func (t *Term) fullField() string {
	switch x := t.V.X.(type) {
	case *ssa.UnOp:
		return fieldOf(x.X)
	case nil:
		return ""
	default:
		return fieldOf(x)
	}
}

func (t *Term) isCall(names ...string) bool { return t.Op == "call" && in(t.S, names) }

func (t *Term) hasCall(names ...string) bool {
	return t.Find(func(u *Term) bool { return u.isCall(names...) }) != nil
}

func (t *Term) hasField(full string) bool {
	return t.Find(func(u *Term) bool { return u.isFieldOf(full) }) != nil
}

func constInt(v ssa.Value) (int64, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
		return c.Int64(), true
	}
	return 0, false
}

// asgMap builds an assignment from predicates over terms.
type role struct {
	is  func(t *Term) bool
	val int64
}

func roles(rs ...role) Asg {
	return func(t *Term) (int64, bool) {
		for _, r := range rs {
			if r.is(t) {
				return r.val, true
			}
		}
		return 0, false
	}
}

func strIs(s string) func(*Term) bool { return func(t *Term) bool { return t.String() == s } }

func fieldIs(full string) func(*Term) bool {
	return func(t *Term) bool { return t.isFieldOf(full) }
}

func lenOf(p func(*Term) bool) func(*Term) bool {
	return func(t *Term) bool { return t.isCall("builtin.len") && p(t.A[0]) }
}

func dumpFn(p *Prog, name string) {
	f := p.lookup(name)
	if f == nil {
		fmt.Println("not found")
		return
	}
	c := &Check{P: p, Rule: &Rule{ID: "dump"}, Funcs: map[string]bool{}}
	g := NewGraph(p, f, nil)
	g.TrackAll = true
	dumpG(c, g)
	if h := c.seqBodyOf(name, "dump"); h != nil {
		fmt.Println("-- returned function")
		dumpG(c, h)
	}
}

func dumpG(c *Check, g *Graph) {
	q := c.q("dump", g)
	seen := map[string]bool{}
	q.walk(0, func(s int, x X) (int, bool, string) {
		l := fmt.Sprintf("%s %-22s", c.pos(x.pos()), x.n.C.Fn.Name())
		switch i := x.n.I.(type) {
		case *ssa.Store:
			l += "STORE " + x.t(V{x.n.C, i.Addr}).String() + " = " + x.t(V{x.n.C, i.Val}).String()
		case *ssa.MapUpdate:
			l += "MAP " + x.t(V{x.n.C, i.Map}).String() + "[" + x.t(V{x.n.C, i.Key}).String() + "] = " + x.t(V{x.n.C, i.Value}).String()
		case *ssa.If:
			l += "IF " + x.t(V{x.n.C, i.Cond}).String()
		case *ssa.Return:
			for _, r := range i.Results {
				l += "RET " + x.t(V{x.n.C, r}).String() + " ; "
			}
		case *ssa.Send:
			l += "SEND " + x.t(V{x.n.C, i.Chan}).String()
		case ssa.CallInstruction:
			l += fmt.Sprintf("CALL(%T r=%v) %s(", i, x.n.R != nil, callName(i.Common()))
			for k := 0; ; k++ {
				v := x.arg(k)
				if v.X == nil {
					break
				}
				l += x.t(v).String() + ", "
			}
			l += ")"
		default:
			return s, false, ""
		}
		if !seen[l] {
			seen[l] = true
			fmt.Println(l)
		}
		return s, false, ""
	})
}

// full is the graph of a function with every local variable and field followed on paths.
func (c *Check) full(root string, pkgs ...string) *Graph {
	g := c.graphIn(root, pkgs...)
	g.TrackAll = true
	return g
}

// val evaluates a value at a point in a scenario.
func (x X) val(v V, asg Asg) (int64, bool) { return evalTerm(x.t(v), asg) }

// nonEmpty: the term compares a slice or map with nil that has elements in the scenario, so it isn't nil.
func nonEmpty(t *Term, asg Asg) (full, ok bool) {
	x := t.A[0]
	if x.Op == "const" {
		x = t.A[1]
	} else if t.A[1].Op != "const" || t.A[1].S != "nil" {
		return false, false
	}
	if x.Op == "const" || x.V.X == nil {
		return false, false
	}
	switch x.V.X.Type().Underlying().(type) {
	case *types.Slice, *types.Map:
	default:
		return false, false
	}
	n, ok := evalTerm(&Term{Op: "call", S: "builtin.len", A: []*Term{x}}, asg)
	return ok && n > 0, ok
}
