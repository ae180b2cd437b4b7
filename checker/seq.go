package main

// Slices as sequences of named elements, and writes into the storage of a slice.

import (
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// seqs evaluates slice terms to the list of their elements: base gives the length of the collections
// whose elements are named after them.
type seqs struct {
	base func(*Term) (string, int, bool)
	asg  Asg
}

func (s seqs) val(t *Term) ([]string, bool) {
	if t == nil {
		return nil, false
	}
	if name, n, ok := s.base(t); ok {
		var out []string
		for i := 0; i < n; i++ {
			out = append(out, name+"#"+strconv.Itoa(i))
		}
		return out, true
	}
	switch {
	case t.Op == "const" && (t.S == "nil" || t.S == "") || t.Op == "zero":
		return nil, true
	case t.Op == "slice" && t.L != nil:
		var out []string
		for _, e := range t.L {
			out = append(out, e.String())
		}
		return out, true
	case t.Op == "slice":
		b, ok := s.val(t.A[0])
		if !ok {
			return nil, false
		}
		lo, hi := int64(0), int64(len(b))
		for i, v := range []*int64{&lo, &hi} {
			if !noBound(t, i+1) {
				if *v, ok = s.num(t.A[i+1]); !ok {
					return nil, false
				}
			}
		}
		if lo < 0 || hi > int64(len(b)) || lo > hi {
			return nil, false
		}
		return b[lo:hi:hi], true
	case t.Op == "make" && len(t.A) == 1:
		n, ok := s.num(t.A[0])
		return nil, ok && n == 0
	case t.isCall("builtin.append"):
		a, ok := s.val(t.A[0])
		if !ok || len(t.A) < 2 {
			return a, ok
		}
		b, ok := s.val(t.A[1])
		return append(a[:len(a):len(a)], b...), ok
	case t.isCall("slices.Clone", "slices.Clip", "slices.Grow"):
		return s.val(t.A[0])
	case t.isCall("slices.Concat"):
		var out []string
		if len(t.A) == 0 || t.A[0].L == nil {
			return nil, false
		}
		for _, e := range t.A[0].L {
			v, ok := s.val(e)
			if !ok {
				return nil, false
			}
			out = append(out, v...)
		}
		return out, true
	case t.isCall("slices.Delete"):
		a, ok := s.val(t.A[0])
		lo, ok1 := s.num(t.A[1])
		hi, ok2 := s.num(t.A[2])
		if !ok || !ok1 || !ok2 || lo < 0 || hi < lo || hi > int64(len(a)) {
			return nil, false
		}
		return append(append([]string(nil), a[:lo]...), a[hi:]...), true
	}
	return nil, false
}

// num evaluates a number that may depend on the lengths of sequences.
func (s seqs) num(t *Term) (int64, bool) {
	return evalTerm(t, both(s.asg, func(u *Term) (int64, bool) {
		if u.isCall("builtin.len") {
			v, ok := s.val(u.A[0])
			return int64(len(v)), ok
		}
		return 0, false
	}))
}

// noBound: the slice expression has no i-th operand.
func noBound(t *Term, i int) bool {
	return i >= len(t.A) || t.A[i] == nil || t.A[i].Op == "const" && t.A[i].S == ""
}

// storageOf is the slice whose storage a slice expression shares (nil if it has its own).
func storageOf(t *Term) *Term {
	for t != nil {
		switch {
		case t.Op == "slice":
			t = t.A[0]
		case t.isCall("slices.Delete", "slices.Insert", "slices.Replace", "slices.Compact", "slices.CompactFunc", "slices.DeleteFunc", "slices.Clip"):
			t = t.A[0]
		case t.isCall("builtin.append") && !clipped(t.A[0]):
			t = t.A[0]
		case t.isCall("slices.Clone", "slices.Concat", "slices.Sorted", "slices.SortedFunc", "slices.Collect") || t.isCall("builtin.append"):
			return nil
		default:
			return t
		}
	}
	return nil
}

// clipped: the slice expression limits its capacity (s[a:b:b]), so that appending copies.
func clipped(t *Term) bool {
	if t.Op == "slice" {
		s, ok := t.V.X.(*ssa.Slice)
		return ok && s.Max != nil
	}
	return t.Op == "const" || t.isCall("slices.Clip")
}

// overwrites matches a write into the existing elements of a collection, in place.
func overwrites(coll func(*Term) bool) Ev {
	shares := func(t *Term) bool { s := storageOf(t); return s != nil && coll(s) }
	return func(x X) bool {
		if s, ok := x.n.I.(*ssa.Store); ok && x.n.R == nil && !x.n.After {
			ia, ok := s.Addr.(*ssa.IndexAddr)
			return ok && shares(x.t(V{x.n.C, ia.X}))
		}
		cc := x.common()
		if cc == nil || x.n.After {
			return false
		}
		switch callName(cc) {
		case "builtin.append":
			// append(s[:i], ...) replaces what follows the cut
			t := x.argT(0)
			return t.Op == "slice" && !noBound(t, 2) && !clipped(t) && shares(t) && !t.A[2].isCall("builtin.len")
		case "builtin.copy", "builtin.clear", "slices.Delete", "slices.Insert", "slices.Replace", "slices.Compact", "slices.CompactFunc", "slices.DeleteFunc",
			"slices.Reverse", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "sort.Slice", "sort.SliceStable":
			return shares(x.argT(0))
		}
		return false
	}
}
