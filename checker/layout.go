package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A chunk is a part of a byte slice a function builds.
type chunk struct {
	off  int64
	n    int64 // number of bytes
	kind string
	t    *Term
}

func (k chunk) String() string {
	s := ""
	if k.t != nil {
		s = k.t.String()
	}
	return fmt.Sprintf("%d+%d %s %s", k.off, k.n, k.kind, s)
}

// put recognizes the writing of one value into a byte slice: the slice, the kind of encoding, its width and the value.
func putOf(name string) (kind string, n int64) {
	order := "?"
	switch {
	case strings.HasPrefix(name, "(encoding/binary.bigEndian)."):
		order = "be"
	case strings.HasPrefix(name, "(encoding/binary.littleEndian)."):
		order = "le"
	default:
		return "", 0
	}
	for s, w := range map[string]int64{"16": 2, "32": 4, "64": 8} {
		if strings.HasSuffix(name, ").PutUint"+s) || strings.HasSuffix(name, ").AppendUint"+s) {
			return order, w
		}
	}
	return "", 0
}

// sizedAsg evaluates lengths: sizes gives the length of byte strings by term; copying and appending follow from it.
func sizedAsg(size func(t *Term) (int64, bool)) Asg {
	var asg Asg
	asg = func(t *Term) (int64, bool) {
		if t.isCall("builtin.len") && len(t.A) == 1 {
			return sizeOf(t.A[0], size, asg)
		}
		if t.isCall("builtin.copy") && len(t.A) == 2 {
			return sizeOf(t.A[1], size, asg)
		}
		return 0, false
	}
	return asg
}

func sizeOf(t *Term, size func(t *Term) (int64, bool), asg Asg) (int64, bool) {
	if n, ok := size(t); ok {
		return n, true
	}
	switch {
	case t.Op == "make" && len(t.A) > 0:
		return evalTerm(t.A[0], asg)
	case t.Op == "conv" && len(t.A) == 1:
		return sizeOf(t.A[0], size, asg)
	case t.isCall("encoding/binary.AppendUvarint"):
		m, ok := sizeOf(t.A[0], size, asg)
		if t.A[0].String() == "nil" {
			m, ok = 0, true
		}
		return m + 1, ok // the values of the scenario are small
	}
	return 0, false
}

// layout gives the parts of the byte slice a function returns (result i) in a scenario in which the byte strings it is built from
// have the given sizes: what is written where. ok is false if it is built in a way that isn't understood.
func (q *Q) layout(i int, size func(t *Term) (int64, bool), asg Asg, more func(x X) (buf V, k chunk, ok bool)) (chunks []chunk, total int64, ok bool) {
	sz := sizedAsg(size)
	all := both(asg, sz)
	w := q.when(all)
	var roots []V
	ok = true
	w.visits(exit, func(x X) {
		t := x.t(x.result(i))
		roots = append(roots, t.V)
		if t.Op == "make" && len(t.A) > 0 {
			n, k := evalTerm(t.A[0], all)
			total, ok = n, ok && k
		} else {
			cs, n, k := appended(t, size, all)
			chunks, total, ok = cs, n, ok && k
		}
	})
	if !ok || len(roots) == 0 {
		return nil, 0, false
	}
	for _, r := range roots {
		if r != roots[0] {
			return nil, 0, false
		}
	}
	if t := roots[0]; total > 0 || len(chunks) == 0 {
		ks, k := w.puts(func(u *Term) bool { return u.V == t && u.Op == "make" }, size, all, more)
		chunks, ok = append(chunks, ks...), ok && k
	}
	sort.SliceStable(chunks, func(a, b int) bool { return chunks[a].off < chunks[b].off })
	return chunks, total, ok
}

// puts gives what is put into a byte slice of fixed length in the scenario of the query: stored, copied and encoded into it or a part of it.
func (w *Q) puts(isRoot func(t *Term) bool, size func(t *Term) (int64, bool), all Asg, more func(x X) (buf V, k chunk, ok bool)) (chunks []chunk, ok bool) {
	ok = true
	isBuf := func(x X, v V) (int64, bool) {
		off := int64(0)
		t := x.t(v)
		for t.Op == "slice" {
			if lo := t.A[1].String(); lo != "" && lo != "_" && lo != "nil" {
				n, k := evalTerm(t.A[1], all)
				if !k {
					return 0, false
				}
				off += n
			}
			t = t.A[0]
		}
		return off, isRoot(t)
	}
	seen := map[string]bool{}
	add := func(x X, k chunk) {
		id := fmt.Sprintf("%p/%d/%s", x.n.I, x.n.C.id, k)
		if !seen[id] {
			seen[id] = true
			chunks = append(chunks, k)
		}
	}
	w.visits(anyTermX, func(x X) {
		switch ins := x.n.I.(type) {
		case *ssa.Store:
			ia, is := ins.Addr.(*ssa.IndexAddr)
			if !is {
				return
			}
			off, is := isBuf(x, V{x.n.C, ia.X})
			if !is {
				return
			}
			n, k := x.val(V{x.n.C, ia.Index}, all)
			ok = ok && k
			add(x, chunk{off + n, 1, "byte", x.t(V{x.n.C, ins.Val})})
		case *ssa.Call:
			if x.n.After {
				return
			}
			if more != nil {
				if b, k, is := more(x); is {
					if off, is := isBuf(x, b); is {
						k.off += off
						add(x, k)
					}
					return
				}
			}
			name := callName(&ins.Call)
			if name == "builtin.copy" {
				off, is := isBuf(x, x.arg(0))
				if !is {
					return
				}
				src := x.argT(1)
				n, k := sizeOf(src, size, all)
				ok = ok && k
				add(x, chunk{off, n, "bytes", src})
				return
			}
			if kind, n := putOf(name); kind != "" {
				if off, is := isBuf(x, x.arg(1)); is {
					add(x, chunk{off, n, kind, x.argT(2)})
				}
				return
			}
			// anything else that gets the slice
			for j := 0; ; j++ {
				v := x.arg(j)
				if v.X == nil {
					break
				}
				if _, is := isBuf(x, v); is && name != "builtin.len" && name != "(io.Writer).Write" && !strings.HasPrefix(name, "(*log/slog.") {
					if f := ins.Call.StaticCallee(); f == nil || !x.g.canInline(x.n.C, f) {
						ok = false
					}
				}
			}
		}
	})
	sort.SliceStable(chunks, func(a, b int) bool { return chunks[a].off < chunks[b].off })
	return chunks, ok
}

// written gives what the query's function writes with the writes that are sites of ev, one after the other, in a scenario in which the byte
// strings have the given sizes, and how much each of them.
func (q *Q) written(ev Ev, i int, size func(t *Term) (int64, bool), asg Asg) (chunks []chunk, total int64, each map[N]int64, ok bool) {
	sz := sizedAsg(size)
	all := both(asg, sz)
	w := q.when(all)
	ok = true
	each = map[N]int64{}
	seen := map[string]bool{}
	w.visits(ev, func(x X) {
		id := fmt.Sprintf("%p/%d", x.n.I, x.n.C.id)
		if seen[id] {
			return
		}
		seen[id] = true
		t := stripConv(x.argT(i))
		var ks []chunk
		var n int64
		if m, known := size(t); known {
			ks, n = []chunk{{0, m, "bytes", t}}, m
		} else if cs, m, k := appended(t, size, all); k {
			ks, n = cs, m
		} else {
			root := unslice(t)
			hi := ""
			if t.Op == "slice" {
				if lo := t.A[1].String(); lo != "_" && lo != "nil" && lo != "0" && lo != "" {
					ok = false
					return
				}
				hi = t.A[2].String()
			}
			switch al, isAlloc := root.V.X.(*ssa.Alloc); {
			case root.Op == "make" && len(root.A) > 0:
				n, k = evalTerm(root.A[0], all)
				ok = ok && k
			case isAlloc:
				p, _ := al.Type().Underlying().(*types.Pointer)
				ar, isArr := p.Elem().Underlying().(*types.Array)
				if !isArr {
					ok = false
					return
				}
				n = ar.Len()
				if hi != "" && hi != "_" && hi != "nil" && hi != fmt.Sprint(n) {
					ok = false
				}
			default:
				ok = false
				return
			}
			ks, k = w.puts(func(u *Term) bool { return u.V == root.V }, size, all, nil)
			ok = ok && k
		}
		for _, k := range ks {
			k.off += total
			chunks = append(chunks, k)
		}
		total += n
		each[x.n] = n
	})
	return chunks, total, each, ok && len(seen) > 0
}

func anyTermX(x X) bool { return !x.n.After }

// appended gives the parts of a slice built by appending.
func appended(t *Term, size func(t *Term) (int64, bool), asg Asg) ([]chunk, int64, bool) {
	if t.String() == "nil" {
		return nil, 0, true
	}
	if t.Op == "make" && len(t.A) > 0 {
		if n, ok := evalTerm(t.A[0], asg); ok && n == 0 {
			return nil, 0, true
		}
		return nil, 0, false
	}
	if t.Op != "call" {
		return nil, 0, false
	}
	rec := func(base *Term, k chunk) ([]chunk, int64, bool) {
		cs, n, ok := appended(base, size, asg)
		k.off = n
		return append(cs, k), n + k.n, ok
	}
	if t.S == "builtin.append" {
		if len(t.L) > 1 && len(t.L[1].A) > 0 {
			cs, n, ok := appended(t.A[0], size, asg)
			for _, e := range t.L[1].A {
				cs = append(cs, chunk{n, 1, "byte", e})
				n++
			}
			return cs, n, ok
		}
		n, ok := sizeOf(t.A[1], size, asg)
		if !ok {
			return nil, 0, false
		}
		return rec(t.A[0], chunk{0, n, "bytes", t.A[1]})
	}
	if t.S == "encoding/binary.AppendUvarint" {
		return rec(t.A[0], chunk{0, 1, "uvarint", t.A[1]})
	}
	if kind, n := putOf(t.S); kind != "" && len(t.A) == 3 {
		return rec(t.A[1], chunk{0, n, kind, t.A[2]})
	}
	return nil, 0, false
}

// want is an expected part.
type want struct {
	n    int64
	kind string // several alternatives separated by |
	is   func(t *Term) bool
	name string
}

// hasLayout checks that the built slice consists of the expected parts, in order and without gaps.
func (q *Q) hasLayout(chunks []chunk, total int64, ws []want) {
	off := int64(0)
	i := 0
	for _, w := range ws {
		if i >= len(chunks) {
			q.c.fail(q.name, q.g.Root.Fn.Pos(), "%s isn't written", w.name)
			return
		}
		k := chunks[i]
		if k.off != off || k.n != w.n || !in(k.kind, strings.Split(w.kind, "|")) || !w.is(k.t) {
			q.c.fail(q.name, q.g.Root.Fn.Pos(), "at byte %d %s (%d bytes) is expected, not %s", off, w.name, w.n, k)
			return
		}
		off += w.n
		i++
	}
	if i < len(chunks) {
		q.c.fail(q.name, q.g.Root.Fn.Pos(), "something else is written: %s", chunks[i])
		return
	}
	q.c.expect(total == off, q.name, q.g.Root.Fn.Pos(), "the slice has %d bytes, its content %d", total, off)
}
