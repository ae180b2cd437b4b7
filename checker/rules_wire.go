package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// Record formats: what a writer puts into a file and what its readers take out again.

const fieldsP = "dkv/fields."

// ioKind classifies the primitive reads and writes of package fields: B(ytes), U(int64), T(ombstone), W (uint32).
func ioKind(x X) (kind byte, write, skip bool) {
	for _, k := range []struct {
		s string
		b byte
	}{{"VarBytes", 'B'}, {"Uint64", 'U'}, {"Tombstone", 'T'}, {"Uint32", 'W'}} {
		if call(fieldsP+"MustWrite"+k.s, fieldsP+"write"+k.s)(x) {
			return k.b, true, false
		}
		if call(fieldsP + "Read" + k.s)(x) {
			return k.b, false, false
		}
		if call(fieldsP + "Skip" + k.s)(x) {
			return k.b, false, true
		}
	}
	return 0, false, false
}

// callNode is the call a term's value comes from.
func callNode(t *Term) (N, bool) {
	if t.Op == "extract" {
		t = t.A[0]
	}
	if t.Op != "call" || t.Stale {
		return N{}, false
	}
	if cl, ok := t.V.X.(*ssa.Call); ok {
		return N{C: t.V.C, I: cl}, true
	}
	return N{}, false
}

// part identifies what of an entry is written by a primitive write: K(ey) S(eqNum) T(ombstone) V(alue).
type part struct {
	name byte
	is   func(x X, v V) bool
}

// writeOrder derives the order in which a writer emits the parts of a record in a scenario ("" when paths differ or something
// unknown is written) and where they go.
func (q *Q) writeOrder(parts []part, dest func(x X, v V) bool) string {
	orders := map[string]bool{}
	var list []string
	id := func(s string) int {
		for i, l := range list {
			if l == s {
				return i
			}
		}
		list = append(list, s)
		return len(list) - 1
	}
	id("")
	ok := true
	q.walk(0, func(s int, x X) (int, bool, string) {
		if exit(x) {
			orders[list[s]] = true
			return s, false, ""
		}
		k, w, _ := ioKind(x)
		if k == 0 || !w {
			return s, false, ""
		}
		if dest != nil && !dest(x, x.arg(0)) {
			ok = false
			q.c.fail(q.name, x.pos(), "a part of the record is written to another file or buffer (%s)", x.argT(0))
			return s, true, ""
		}
		name := byte('?')
		for _, p := range parts {
			kind := map[byte]byte{'K': 'B', 'V': 'B', 'S': 'U', 'T': 'T'}[p.name]
			if kind == k && p.is(x, x.arg(1)) {
				name = p.name
				break
			}
		}
		if name == '?' || len(list[s]) > 8 {
			ok = false
			q.c.fail(q.name, x.pos(), "something other than a part of the entry is written: %s", x.argT(1))
			return s, true, ""
		}
		return id(list[s] + string(name)), false, ""
	})
	if !ok {
		return ""
	}
	if len(orders) != 1 {
		q.c.fail(q.name, q.g.Root.Fn.Pos(), "the written record isn't the same on every path: %v", orders)
		return ""
	}
	for o := range orders {
		return o
	}
	return ""
}

// recordReader checks a decoder of records written in the given order.
type recordReader struct {
	order    string             // e.g. "KSTV"
	field    map[byte]string    // full field name of the produced entry per part; missing parts aren't required
	restart  Ev                 // moves of the cursor: decoding starts over
	asg      Asg                // scenario besides tombstones and errors
	skipped  Asg                // scenario of records that aren't to be produced
	product  Ev                 // an entry is produced
	partial  bool               // entries that aren't produced need not be decoded in full
	wantAll  bool               // every record whose key was read is produced
	from     func(t *Term) bool // only reads from this source count
	passOver *Loop              // a loop whose records aren't to be handed out
}

func noIOErrors(t *Term) (int64, bool) {
	for _, k := range []string{"VarBytes", "Uint64", "Tombstone", "Uint32"} {
		if resultOf(t, 1, fieldsP+"Read"+k) || resultOf(t, 0, fieldsP+"Skip"+k) {
			return 0, true
		}
	}
	return otherErrs(t)
}

// otherErrs: error constants and errors made here are none that a read reports.
func otherErrs(t *Term) (int64, bool) {
	switch {
	case t.Op == "global" && isErrType(derefT(t)):
		return 77, true
	case t.isCall("fmt.Errorf", "errors.New"):
		return 78, true
	}
	return 0, false
}

func (q *Q) readsRecords(r recordReader) {
	for _, del := range []int64{0, 1} {
		for _, want := range []bool{true, false} {
			if !want && r.skipped == nil {
				continue
			}
			base := r.asg
			if !want {
				base = r.skipped
			}
			asg := both(noIOErrors, func(t *Term) (int64, bool) {
				if extractOf(t, "0", fieldsP+"ReadTombstone") {
					return del, true
				}
				return 0, false
			}, yieldOK, base)
			name := fmt.Sprintf("%s/%s records", q.name, []string{"live", "deleted"}[del])
			if !want {
				name += " not asked for"
			}
			q.named(name).when(asg).readRecords(r, del == 1, want, asg)
		}
	}
	// errors end the decoding
	for i, kind := range []string{"VarBytes", "Uint64", "Tombstone"} {
		_ = i
		from := func(x X) bool { return r.from == nil || r.from(x.argT(0)) }
		isOp := and(or(call(fieldsP+"Read"+kind), call(fieldsP+"Skip"+kind)), from)
		if len(q.sites(isOp)) == 0 {
			continue
		}
		bad := func(t *Term) (int64, bool) {
			if resultOf(t, 1, fieldsP+"Read"+kind) || resultOf(t, 0, fieldsP+"Skip"+kind) {
				return 1, true
			}
			if v, ok := noIOErrors(t); ok {
				return v, ok
			}
			if t.isCall("errors.Is") {
				return 0, true
			}
			return 0, false
		}
		any := func(x X) bool { k, w, _ := ioKind(x); return k != 0 && !w && from(x) }
		b := q.named(q.name + "/" + kind + " error").when(bad)
		b.neverAfter(and(isOp, func(x X) bool { return !x.inCallback() }), or(any, func(x X) bool { return r.product(x) && !errProduct(x, bad) }), "decoding goes on after a failed read")
	}
}

// anyErrProduct: a production that reports an error along (the scenario has one pending).
func anyErrProduct(x X) bool { return errProduct(x, nil) }

func errProduct(x X, asg Asg) bool {
	known := func(v V) bool {
		if asg == nil {
			return false
		}
		w, ok := x.val(v, asg)
		return ok && w == 0
	}
	if isYield(x) && len(x.common().Args) > 1 {
		v := V{x.n.C, x.common().Args[1]}
		a, _ := x.g.eval(x.e, v)
		return a.k != 'n' && !known(v)
	}
	if r, ok := x.n.I.(*ssa.Return); ok && len(r.Results) > 1 {
		v := V{x.n.C, r.Results[len(r.Results)-1]}
		a, _ := x.g.eval(x.e, v)
		return a.k != 'n' && !known(v)
	}
	return false
}

func (q *Q) readRecords(r recordReader, deleted, want bool, asg Asg) {
	kind := map[byte]byte{'K': 'B', 'V': 'B', 'S': 'U', 'T': 'T'}
	at := map[byte]map[N]bool{'K': {}, 'S': {}, 'T': {}, 'V': {}}
	bit := map[byte]int{'K': 1, 'S': 2, 'T': 4, 'V': 8}
	const fresh, keyRead = 16, 32
	produced := false
	ok := q.report(q.walk(0, func(s int, x X) (int, bool, string) {
		pos, bits := s&7, s>>3
		if r.restart != nil && r.restart(x) {
			return 0, false, ""
		}
		if k, w, skip := ioKind(x); k != 0 && !w && (r.from == nil || r.from(x.argT(0))) {
			p := r.order[pos]
			if kind[p] != k {
				return s, true, fmt.Sprintf("the %s read here isn't what the writer put at this position of the record (%s at position %d)", map[byte]string{'B': "byte string", 'U': "uint64", 'T': "tombstone", 'W': "uint32"}[k], string(p), pos)
			}
			if pos == 0 {
				if r.wantAll && want && bits&fresh != 0 && bits&keyRead != 0 {
					return s, true, "a decoded record isn't handed out"
				}
				bits = 0
			}
			if p == 'K' && !skip {
				bits |= keyRead
			}
			if !skip {
				at[p][x.n] = true
			}
			pos++
			if pos < len(r.order) && r.order[pos] == 'V' && deleted {
				pos++
			}
			if pos >= len(r.order) {
				pos = 0
				if r.passOver == nil || !r.passOver.within(x) {
					bits |= fresh
				}
			}
			return pos | bits<<3, false, ""
		}
		for p, f := range r.field {
			if !store(f)(x) {
				continue
			}
			if p == 'T' {
				if v, ok := x.val(x.stored(), asg); ok {
					if v != 0 {
						bits |= bit['T']
					} else {
						bits &^= bit['T']
					}
				}
				return pos | bits<<3, false, ""
			}
			t := x.t(x.stored())
			n, isCall := callNode(t)
			if isCall && at[p][n] {
				return pos | (bits|bit[p])<<3, false, ""
			}
			if isCall || t.Op == "const" && t.S != "nil" || t.Op == "zero" {
				if k, w, _ := ioKind(X{x.g, n, x.e}); isCall && (k == 0 || w) {
					return pos | (bits|bit[p])<<3, false, "" // a copy made by another function
				}
				if p == 'V' && deleted {
					return s, false, ""
				}
				return s, true, "the " + map[byte]string{'K': "key", 'S': "sequence number", 'V': "value"}[p] + " of the entry isn't taken from its place in the record"
			}
			if p != 'V' || !deleted {
				bits |= bit[p]
			}
			return pos | bits<<3, false, ""
		}
		if r.product(x) {
			if errProduct(x, asg) || notEntry(x) {
				return s, false, ""
			}
			if !want {
				return s, true, "an entry that wasn't asked for is handed out"
			}
			produced = true
			if bits&fresh == 0 {
				if !(r.partial && pos != 0) {
					return s, true, "an entry is handed out without decoding a whole record"
				}
				return s, true, "an entry is handed out before its record is decoded"
			}
			for p := range r.field {
				switch p {
				case 'T':
					if deleted != (bits&bit['T'] != 0) {
						return s, true, "the entry isn't marked as deleted the way the record is"
					}
				case 'V':
					if !deleted && bits&bit['V'] == 0 {
						return s, true, "the entry is handed out without its value"
					}
				default:
					if bits&bit[p] == 0 {
						return s, true, "the entry is handed out without its " + map[byte]string{'K': "key", 'S': "sequence number"}[p]
					}
				}
			}
			return pos | (bits&^fresh)<<3, false, ""
		}
		return s, false, ""
	}), "the records aren't decoded the way they are written")
	if ok && want && !produced {
		q.c.fail(q.name, q.g.Root.Fn.Pos(), "no decoded entry is ever handed out")
	}
}

// notEntry: a return without an entry.
func notEntry(x X) bool {
	if isYield(x) {
		return false
	}
	if r, ok := x.n.I.(*ssa.Return); ok && len(r.Results) > 0 {
		a, _ := x.g.eval(x.e, V{x.n.C, r.Results[0]})
		return a.k == 'n'
	}
	return false
}

// inCallback: inside a function literal handed to a library function.
func (x X) inCallback() bool {
	for c := x.n.C; c != nil; c = c.Parent {
		if c.CB {
			return true
		}
	}
	return false
}
