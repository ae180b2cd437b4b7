package main

// Error propagation: an error a function gets from a call is reported, unless it is one the code asks for.

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// errSrc is where a function gets an error: a call's last result, or a parameter of a range-over-func body.
type errSrc struct {
	call *ssa.Call
	val  ssa.Value // the error (nil: the result is dropped)
	par  *ssa.Parameter
}

// madeErr: calls whose error result isn't a failure of theirs.
var madeErr = []string{"fmt.Errorf", "errors.New", "errors.Join", "errors.Unwrap", "(context.Context).Err", "context.Cause", "(error).Unwrap",
	"(google.golang.org/grpc/status.Status).Err", "google.golang.org/grpc/status.Error", "google.golang.org/grpc/status.Errorf", "connectrpc.com/connect.NewError"}

// neverFails: calls whose error can't occur or doesn't matter.
func neverFails(cc *ssa.CallCommon) bool {
	n := callName(cc)
	switch {
	case in(n, madeErr), strings.HasPrefix(n, "fmt.Print"), strings.HasPrefix(n, "fmt.Fprint"), strings.HasPrefix(n, "fmt.Sscan"):
		return true
	case strings.HasSuffix(n, ").Close"):
		return true // what was written is saved by then, what was read has been checked
	}
	for _, t := range []string{"(*bytes.Buffer).", "(*strings.Builder).", "(hash.Hash"} {
		if strings.HasPrefix(n, t) {
			return true
		}
	}
	return false
}

// errLeaves lists where the error a function returns comes from: "nil", "made" (or anything that isn't a
// call's result), or the callee whose error is passed on as it is.
func errLeaves(f *ssa.Function, depth int, allowed map[string]string, out map[string]bool) {
	if len(f.Blocks) == 0 || depth > 4 || f.Signature.Results().Len() == 0 {
		out["made"] = true
		return
	}
	var leaf func(v ssa.Value, d int)
	leaf = func(v ssa.Value, d int) {
		var cl *ssa.Call
		switch v := v.(type) {
		case *ssa.Const:
			out["nil"] = true
			return
		case *ssa.Phi:
			if d < 4 {
				for _, e := range v.Edges {
					leaf(e, d+1)
				}
				return
			}
		case *ssa.Call:
			cl = v
		case *ssa.Extract:
			cl, _ = v.Tuple.(*ssa.Call)
		}
		switch {
		case cl == nil || in(callName(&cl.Call), madeErr):
			out["made"] = true
		case neverFails(&cl.Call):
			out["nil"] = true
		default:
			_, stop := allowed[callName(&cl.Call)]
			if g := cl.Call.StaticCallee(); g != nil && len(g.Blocks) > 0 && !stop {
				errLeaves(g, depth+1, allowed, out)
			} else {
				out[callName(&cl.Call)] = true
			}
		}
	}
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			leaf(r.Results[len(r.Results)-1], 0)
		}
	}
}

// alwaysFails: the function makes an error.
func alwaysFails(f *ssa.Function) bool {
	m := map[string]bool{}
	errLeaves(f, 0, nil, m)
	return len(m) == 1 && m["made"]
}

func bodyOfRange(f *ssa.Function) bool { return strings.HasPrefix(f.Synthetic, "range-over-func") }

func errSources(f *ssa.Function) []errSrc {
	var out []errSrc
	if bodyOfRange(f) {
		for _, p := range f.Params {
			if isErrType(p.Type()) {
				out = append(out, errSrc{par: p})
			}
		}
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			cl, ok := i.(*ssa.Call)
			if !ok || neverFails(&cl.Call) {
				continue
			}
			if isErrType(cl.Type()) {
				s := errSrc{call: cl}
				if len(*cl.Referrers()) > 0 {
					s.val = cl
				}
				out = append(out, s)
			} else if tu, ok := cl.Type().(*types.Tuple); ok && tu.Len() > 0 && isErrType(tu.At(tu.Len()-1).Type()) {
				s := errSrc{call: cl}
				for _, r := range *cl.Referrers() {
					if e, ok := r.(*ssa.Extract); ok && e.Index == tu.Len()-1 && len(*e.Referrers()) > 0 {
						s.val = e
					}
				}
				out = append(out, s)
			}
		}
	}
	for _, a := range f.AnonFuncs {
		if bodyOfRange(a) || calledHere(f, a) {
			out = append(out, errSources(a)...)
		}
	}
	return out
}

// calledHere: the function calls the closure itself.
func calledHere(f, a *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if cl, ok := i.(*ssa.Call); ok && closureOf(cl.Call.Value) == a {
				return true
			}
		}
	}
	return false
}

// closureOf: the closure a called value is, when that is plain.
func closureOf(v ssa.Value) *ssa.Function {
	switch v := v.(type) {
	case *ssa.MakeClosure:
		return v.Fn.(*ssa.Function)
	case *ssa.Function:
		if v.Parent() != nil {
			return v
		}
	case *ssa.UnOp:
		al, ok := v.X.(*ssa.Alloc)
		if !ok {
			return nil
		}
		var f *ssa.Function
		for _, r := range *al.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == al {
				if f != nil {
					return nil
				}
				f = closureOf(st.Val)
			}
		}
		return f
	}
	return nil
}

// errsReported checks every function of the packages; allowed lists calls whose error may be ignored, by
// callee or by "function: callee".
func (c *Check) errsReported(skip func(*ssa.Function) bool, allowed map[string]string, pkgs ...string) {
	var fs []*ssa.Function
	for _, f := range c.P.Funcs {
		if in(pkgOf(f), pkgs) && (f.Synthetic == "" || f.Parent() != nil) && !bodyOfRange(f) && (skip == nil || !skip(f)) {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fname(fs[i]) < fname(fs[j]) })
	for _, f := range fs {
		srcs := errSources(f)
		if len(srcs) == 0 {
			continue
		}
		name := fname(f)
		c.Funcs[name] = true
		g := NewGraph(c.P, f, func(_ *Ctx, h *ssa.Function) bool { return bodyOfRange(h) || pkgOf(h) == pkgOf(f) && isPredicate(h) })
		g.TrackAll = true
		for _, s := range srcs {
			what := "an iterator"
			if s.call != nil {
				what = callName(&s.call.Call)
				if what == "" {
					what = "a function"
				}
			}
			if _, ok := allowed[what]; ok {
				continue
			}
			if _, ok := allowed[name+": "+what]; ok {
				continue
			}
			q := c.q(name, g)
			if s.call != nil && wraps(&s.call.Call, allowed) {
				continue
			}
			if s.call != nil && s.val != nil && closureOf(s.call.Call.Value) != nil {
				continue // what fails in it is followed into this function
			}
			if s.call != nil && s.val == nil {
				if h := s.call.Call.StaticCallee(); h != nil && alwaysFails(h) {
					continue // it makes an error
				}
				c.fail(name, s.call.Pos(), "the error of %s is dropped", what)
				continue
			}
			q.errReported(s, what)
		}
	}
}

// wraps: a function of ours that only passes on errors that may be ignored (or none).
func wraps(cc *ssa.CallCommon, allowed map[string]string) bool {
	f := cc.StaticCallee()
	if f == nil || len(f.Blocks) == 0 {
		return false
	}
	m := map[string]bool{}
	errLeaves(f, 0, allowed, m)
	for n := range m {
		if _, ok := allowed[n]; !ok && n != "nil" {
			return false
		}
	}
	return true
}

func (q *Q) errReported(s errSrc, what string) bool {
	errV := s.val
	if s.par != nil {
		errV = s.par
	}
	is := func(t *Term) bool { return t.V.X == errV }
	has := func(t *Term) bool { return t.Find(is) != nil }
	w := q.when(func(t *Term) (int64, bool) {
		switch {
		case is(t):
			return 1, true
		case isYieldTerm(t):
			return 1, true // the consumer wants to go on
		case stopFlag(t):
			return 0, true
		case t.isCall("(context.Context).Err"):
			return 0, true // what happens to work that was cancelled doesn't matter
		case t.isCall("errors.Is", "errors.As", "os.IsNotExist", "os.IsExist") && len(t.A) > 0 && is(t.A[0]):
			return 0, true
		case t.Op == "global" && isErrType(derefT(t)):
			return 2, true
		}
		return 0, false
	})
	begin := func(x X) bool {
		if s.par != nil {
			return x.n.C.Fn == s.par.Parent() && !x.n.After && x.n.R == nil && x.n.I == x.n.C.Fn.Blocks[0].Instrs[0]
		}
		return x.n.I == s.call && !x.n.After
	}
	return w.report(w.walk(0, func(st int, x X) (int, bool, string) {
		if begin(x) {
			return 1, false, ""
		}
		if st == 0 {
			return 0, false, ""
		}
		if x.handles(has) {
			return 0, true, ""
		}
		if exit(x) {
			v := x.result(-1)
			if v.X == nil || !isErrType(v.X.Type()) {
				return st, true, "the error of " + what + " isn't reported"
			}
			if a, _ := x.g.eval(x.e, v); a.k == 'n' || a.k != 'x' && in(x.t(v).Op, []string{"call", "extract"}) && !makesErr(x.t(v)) {
				return st, true, "success is reported although " + what + " failed"
			}
			return st, true, ""
		}
		return st, false, ""
	}), "")
}

func makesErr(t *Term) bool {
	cl, ok := t.V.X.(*ssa.Call)
	if e, isE := t.V.X.(*ssa.Extract); isE {
		cl, ok = e.Tuple.(*ssa.Call)
	}
	if !ok {
		return false
	}
	if in(callName(&cl.Call), madeErr) {
		return true
	}
	f := cl.Call.StaticCallee()
	return f != nil && alwaysFails(f)
}

// isPredicate: a function that only answers yes or no, or panics.
func isPredicate(f *ssa.Function) bool {
	returns := false
	for _, b := range f.Blocks {
		_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		returns = returns || ok
	}
	if !returns {
		return len(f.Blocks) > 0 // it panics
	}
	r := f.Signature.Results()
	return r.Len() == 1 && types.Identical(r.At(0).Type(), types.Typ[types.Bool]) && len(f.Blocks) <= 3
}

func derefT(t *Term) types.Type {
	if t.V.X == nil {
		return types.Typ[types.Invalid]
	}
	if p, ok := t.V.X.Type().Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t.V.X.Type()
}

// handles: the instruction hands the error to someone: a call, a return, a variable that outlives the function, a panic.
func (x X) handles(has func(*Term) bool) bool {
	if x.n.After {
		return false
	}
	val := func(v ssa.Value) bool { return v != nil && has(x.t(V{x.n.C, v})) }
	switch i := x.n.I.(type) {
	case ssa.CallInstruction:
		cc := i.Common()
		if in(callName(cc), []string{"errors.Is", "errors.As", "os.IsNotExist", "os.IsExist"}) {
			return false
		}
		for _, a := range cc.Args {
			if val(a) {
				return true
			}
		}
		return cc.IsInvoke() && val(cc.Value)
	case *ssa.Return:
		for _, r := range i.Results {
			if val(r) {
				return x.n.C == x.g.Root
			}
		}
	case *ssa.Store:
		if !val(i.Val) {
			return false
		}
		switch a := i.Addr.(type) {
		case *ssa.Alloc:
			return captured(a)
		case *ssa.FreeVar:
			return !bodyOfRange(x.n.C.Fn)
		}
		return true
	case *ssa.Send:
		return val(i.X)
	case *ssa.MapUpdate:
		return val(i.Value)
	case *ssa.Panic:
		return val(i.X)
	}
	return false
}

// captured: a function literal other than a loop's body uses the variable.
func captured(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		if mc, ok := r.(*ssa.MakeClosure); ok && !bodyOfRange(mc.Fn.(*ssa.Function)) {
			return true
		}
	}
	return false
}

func init() {
	dkvPkgs := []string{"dkv", "dkv/bg", "dkv/bloom", "dkv/fields", "dkv/kv", "dkv/memtable", "dkv/mergesort", "dkv/recovery", "dkv/sst", "dkv/storage", "dkv/wal", "dkv/ziptree"}
	rule("err.dkv", "C07 C08 C09 C17 C18",
		"every error of a call in the database is reported by its caller (or ends the process), unless the caller asks for that very error",
		func(c *Check) {
			c.errsReported(nil, map[string]string{
				"strconv.ParseInt": "a name that isn't a number isn't one of ours",
				"strconv.Atoi":     "the same",
				"os.Open":          "reading a file that couldn't be opened fails",
			}, dkvPkgs...)
		})
	rule("err.storage", "C12 C13 C14",
		"every error of a call that stores or reads snapshots is reported by its caller, unless the caller asks for that very error",
		func(c *Check) {
			c.errsReported(nil, map[string]string{
				"path/filepath.Abs": "the path stays as given",
			}, "storage/snapshots", "storage/locations", "storage/objstore", "storage")
		})
	rule("err.workers", "C01 C02 C03 C04 C11",
		"every error of a call in a worker is reported by its caller or stops the worker, unless the caller asks for that very error",
		func(c *Check) {
			c.errsReported(nil, map[string]string{
				"(proto.Job).DeregisterOperator":     "the job notices missing heartbeats",
				"(proto.Job).DeregisterSourceRunner": "the job notices missing heartbeats",
				"(proto.Job).NotifySplitsFinished":   "best effort",
			}, "workers", "workers/operator", "workers/sourcerunner", "workers/wmark", "batching")
		})
	rule("err.jobs", "C12 C13 C15",
		"every error of a call in the job is reported by its caller, unless the caller asks for that very error",
		func(c *Check) {
			c.errsReported(nil, map[string]string{
				"(*storage/snapshots.Store).CreateCheckpoint": "the only error is the one asked for",
				"(*jobs.Assembly).AssignSplits":               "best effort",
				"(*jobs.Assembly).UpdateRetainedCheckpoints":  "best effort: the next update repeats it",
			}, "jobs")
		})
	rule("err.connectors", "C16",
		"every error of a call in a connector is reported by its caller, unless the caller asks for that very error",
		func(c *Check) {
			c.errsReported(nil, map[string]string{
				"io.ReadAll": "part of an error message",
			}, "connectors", "connectors/kinesis", "connectors/kafka", "connectors/httpapi", "connectors/embedded", "connectors/stdio")
		})
}
