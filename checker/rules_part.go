package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Key groups, their ranges and the key hash.

func init() {
	const kr = "partitioning.KeyGroupRange"
	const ks = "partitioning.KeySpace"
	ksf := func(f string) string { return ks + "." + f }

	rule("key.ranges", "C05 C06",
		"the ranges of key groups are contiguous from 0, cover every group, differ in size by at most one, and the lookup table maps every group of range i to i",
		func(c *Check) {
			g := c.full("partitioning.NewKeySpace")
			st, en := store(kr+".Start"), store(kr+".End")
			cases := [][2]int64{{8, 3}, {9, 3}, {5, 5}, {3, 5}, {10, 4}, {1, 1}, {256, 7}, {7, 1}}
			for _, cs := range cases {
				n, r := cs[0], cs[1]
				name := fmt.Sprintf("KeySpace/%d groups, %d ranges", n, r)
				asg := roles(role{isParam("0"), n}, role{isParam("1"), r}, role{func(t *Term) bool {
					return t.isCall("builtin.len") && t.A[0].Op == "make" && t.A[0].A[0].String() == "p1"
				}, r})
				q := c.q(name, g).when(asg)
				found := false
				for _, l := range q.loops() {
					if len(l.sitesIn(or(st, en))) == 0 {
						continue
					}
					found = true
					starts, ends := map[int]int64{}, map[int]int64{}
					bad := false
					get := func(m map[int]int64, k int, x X, here Asg) {
						v, ok := x.val(x.stored(), here)
						old, had := m[k]
						if !ok || had && old != v {
							bad = true
						}
						m[k] = v
					}
					_, ok := l.unroll(asg, int(r)+1, func(k int, here Asg, x X) {
						if !l.within(x) {
							return
						}
						if st(x) {
							get(starts, k, x, here)
						}
						if en(x) {
							get(ends, k, x, here)
						}
					})
					if !ok || bad {
						c.soft(name, "the ranges can't be determined")
						continue
					}
					var prev int64
					lo, hi := int64(1<<62), int64(-1)
					msg := ""
					for k := 0; k < int(r); k++ {
						s, ok1 := starts[k]
						e, ok2 := ends[k]
						if !ok1 || !ok2 {
							msg = fmt.Sprintf("range %d isn't set", k)
							break
						}
						if s != prev {
							msg = fmt.Sprintf("range %d starts at %d, the one before ends at %d", k, s, prev)
							break
						}
						lo, hi, prev = min(lo, e-s), max(hi, e-s), e
					}
					if msg == "" && prev != n {
						msg = fmt.Sprintf("the ranges end at %d", prev)
					}
					if msg == "" && (hi-lo > 1 || lo < 0) {
						msg = fmt.Sprintf("range sizes go from %d to %d", lo, hi)
					}
					c.expect(msg == "", name, g.Root.Fn.Pos(), "%s", msg)
				}
				if !found {
					c.soft(name, "no loop sets the ranges")
				}
			}
			// the lookup table
			q := c.q("KeySpace/lookup", g)
			isTable := func(t *Term) bool { return false }
			q.visits(store(ksf("rangeLookup")), func(x X) {
				s := x.t(x.stored()).String()
				isTable = func(t *Term) bool { return t.String() == s }
			})
			set := func(x X) bool {
				s, ok := x.n.I.(*ssa.Store)
				if !ok {
					return false
				}
				ia, ok := s.Addr.(*ssa.IndexAddr)
				return ok && isTable(x.t(V{x.n.C, ia.X}))
			}
			if len(q.sites(set)) == 0 {
				c.soft("KeySpace/lookup", "the table isn't filled by element")
			}
			b := roles(role{fieldEnd("Start"), 3}, role{fieldEnd("End"), 6})
			seen := map[N]bool{}
			for _, x := range q.when(b).sites(set) {
				if seen[x.n] {
					continue
				}
				seen[x.n] = true
				s, ok := x.n.I.(*ssa.Store)
				if !ok {
					continue
				}
				ia, ok := s.Addr.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				in, ok := q.when(b).indexSet(x.n, ia.Index, func(*Term) bool { return false }, 4)
				if !ok {
					in, ok = q.when(b).valuesAt(x.n, V{x.n.C, ia.Index})
				}
				if !ok {
					c.soft("KeySpace/lookup", "the indexes can't be determined")
					continue
				}
				c.expect(len(in) == 3 && in[3] && in[4] && in[5], "KeySpace/lookup", x.pos(), "for the range [3,6) the entries %v are set", sortedKeys(in))
				// its value is the range's index
				v := g.Term(nil, V{x.n.C, s.Val})
				for v.Op == "conv" {
					v = v.A[0]
				}
				okv := false
				for _, l := range q.loops() {
					for _, ph := range l.phis {
						asg := both(truth(l.isVar(ph), 4), b)
						if w, ok := evalTerm(v, asg); ok && (w == 4 || w == 5) {
							okv = true
						}
					}
				}
				if !okv {
					if _, ok := evalTerm(v, b); ok {
						c.fail("KeySpace/lookup", x.pos(), "the entry is %s, not the range's index", v)
					}
				}
			}
			// key -> group -> range
			q.all(store(ksf("keyGroupCount")), func(x X) bool {
				v, ok := x.val(x.stored(), truth(isParam("0"), 300))
				return !ok || v == 300
			}, "the number of key groups isn't the given one")
		})

	rule("key.group", "C03 C05 C06",
		"a key's group is its hash with seed 0 modulo the number of groups, stored as two big-endian bytes; a key is routed to the range its group is in",
		func(c *Check) {
			h := call("util/murmur.Hash")
			for _, m := range []string{"KeyGroup", "RangeIndex"} {
				g := c.full("(*" + ks + ")." + m)
				q := c.q("KeySpace."+m, g)
				q.need(h, "hash of the key")
				q.all(h, func(x X) bool {
					v, ok := x.val(x.arg(1), nil)
					return x.argT(0).String() == "p1" && ok && v == 0
				}, "the hash isn't MurmurHash3 of the key with seed 0")
				for _, n := range []int64{7, 256, 1} {
					asg := roles(role{func(t *Term) bool { return t.isCall("util/murmur.Hash") }, 1000003}, role{fieldIs(ksf("keyGroupCount")), n}, role{lenOf(fieldIs(ksf("rangeLookup"))), n})
					want := int64(1000003 % n)
					q.all(exit, func(x X) bool {
						t := x.t(x.result(0))
						if m == "RangeIndex" {
							l := t.Find(func(u *Term) bool {
								return (u.Op == "index" || u.Op == "lookup") && u.A[0].isFieldOf(ksf("rangeLookup"))
							})
							if l == nil {
								return t.Op != "const"
							}
							v, ok := evalTerm(l.A[1], asg)
							return !ok || v == want
						}
						v, ok := evalTerm(t, asg)
						return ok && v == want
					}, fmt.Sprintf("hash 1000003 of %d groups isn't mapped to group %d", n, want))
				}
			}
			pb := c.full("(partitioning.KeyGroup).PutBytes")
			pq := c.q("KeyGroup.PutBytes", pb)
			put := call("(encoding/binary.bigEndian).PutUint16")
			if len(pq.sites(put)) > 0 {
				pq.all(put, func(x X) bool {
					v, ok := x.val(x.arg(2), truth(isParam("0"), 0x1234))
					return x.argT(1).String() == "p1" && (!ok || v == 0x1234)
				}, "the group isn't written")
				pq.mustPass(put, exit, "the group isn't written")
			} else {
				for i, want := range []int64{0x12, 0x34} {
					set := func(x X) bool { return storesAt(x, "p1", int64(i)) }
					if len(pq.sites(set)) == 0 {
						c.fail("KeyGroup.PutBytes", pb.Root.Fn.Pos(), "byte %d isn't written in big-endian order", i)
						continue
					}
					pq.all(set, func(x X) bool {
						v, ok := x.val(x.stored(), truth(isParam("0"), 0x1234))
						return !ok || v == want
					}, "the group isn't written in big-endian order")
				}
			}
			fb := c.full("partitioning.KeyGroupFromBytes")
			fq := c.q("KeyGroupFromBytes", fb)
			fq.all(exit, func(x X) bool {
				t := x.t(x.result(0))
				le := t.Find(func(u *Term) bool { return u.Op == "call" && u.S == "(encoding/binary.littleEndian).Uint16" })
				v, ok := evalTerm(t, beBytes(isParam("0"), 0x12, 0x34))
				return le == nil && (!ok || v == 0x1234)
			}, "the group isn't read in big-endian order")
		})

	rule("key.range", "C05 C06 C10",
		"a range includes exactly the groups from its start to before its end, numbers them from 0, overlaps what shares a group with it and contains what lies inside it",
		func(c *Check) {
			of := func(p string, f string) func(*Term) bool {
				return func(t *Term) bool { return t.Op == "field" && t.S == f && t.A[0].String() == p }
			}
			check := func(fn string, rows [][]int64, mk func(r []int64) Asg) {
				g := c.full(fn)
				for _, r := range rows {
					asg := mk(r)
					want := r[len(r)-1]
					c.q(fn, g).when(asg).all(exit, func(x X) bool {
						v, ok := x.val(x.result(0), asg)
						if !ok {
							a, _ := g.eval(x.e, x.result(0))
							return a.k != 't' && a.k != 'f' || (a.k == 't') == (want == 1)
						}
						return v == want
					}, fmt.Sprintf("for %v", r[:len(r)-1]))
				}
			}
			two := func(r []int64) Asg {
				return roles(role{of("p0", "Start"), r[0]}, role{of("p0", "End"), r[1]}, role{of("p1", "Start"), r[2]}, role{of("p1", "End"), r[3]})
			}
			check("("+kr+").Overlaps", [][]int64{{3, 6, 3, 6, 1}, {3, 6, 5, 9, 1}, {3, 6, 6, 9, 0}, {3, 6, 0, 3, 0}, {3, 6, 0, 4, 1}, {3, 6, 4, 5, 1}, {3, 6, 0, 9, 1}, {3, 6, 8, 9, 0}, {3, 6, 0, 1, 0}}, two)
			check("("+kr+").Contains", [][]int64{{3, 6, 3, 6, 1}, {3, 6, 5, 9, 0}, {3, 6, 4, 6, 1}, {3, 6, 3, 5, 1}, {3, 6, 0, 4, 0}, {3, 6, 6, 9, 0}, {3, 6, 0, 9, 0}}, two)
			one := func(r []int64) Asg {
				return roles(role{of("p0", "Start"), r[0]}, role{of("p0", "End"), r[1]}, role{isParam("1"), r[2]})
			}
			check("("+kr+").IncludesKeyGroup", [][]int64{{3, 6, 2, 0}, {3, 6, 3, 1}, {3, 6, 4, 1}, {3, 6, 5, 1}, {3, 6, 6, 0}, {3, 6, 7, 0}, {0, 6, 0, 1}}, one)
			check("("+kr+").IndexOf", [][]int64{{3, 6, 3, 0}, {3, 6, 5, 2}}, one)
			check("("+kr+").Size", [][]int64{{3, 6, 0, 3}, {0, 6, 0, 6}}, one)
			fields := func(fn string, asg Asg, s, e int64) {
				g := c.full(fn)
				q := c.q(fn, g)
				for f, want := range map[string]int64{"Start": s, "End": e} {
					q.all(store(kr+"."+f), func(x X) bool {
						v, ok := x.val(x.stored(), asg)
						return !ok || v == want
					}, f+" isn't the given bound")
				}
			}
			fields("partitioning.KeyGroupRangeFromProto", roles(role{fieldEnd("Start"), 3}, role{fieldEnd("End"), 6}), 3, 6)
			byKey := func(t *Term) (int64, bool) {
				if t.isCall("partitioning.KeyGroupFromBytes") || t.Op == "call" && len(t.A) > 0 && (t.Find(isParam("0")) != nil || t.Find(isParam("1")) != nil) {
					if t.Find(isParam("0")) != nil {
						return 3, true
					}
					return 6, true
				}
				return 0, false
			}
			fields("partitioning.KeyGroupRangeFromBytes", byKey, 3, 7)
		})

	rule("key.assign", "C06",
		"every new range is assigned exactly the old ranges that overlap it, in whatever order the old ranges were recorded",
		func(c *Check) {
			g := c.full("partitioning.AssignRanges")
			g.Inline = noInline("("+kr+").Overlaps", g.Inline)
			q := c.q("AssignRanges", g)
			isOv := func(t *Term) bool { return t.isCall("(" + kr + ").Overlaps") }
			from := isParam("1")
			app := func(x X) bool {
				s, ok := x.n.I.(*ssa.Store)
				if !ok {
					return false
				}
				if _, ok := s.Addr.(*ssa.IndexAddr); !ok {
					return false
				}
				t := x.t(V{x.n.C, s.Val})
				return t.isCall("builtin.append")
			}
			ov := call("(" + kr + ").Overlaps")
			q.need(app, "assignment")
			if len(q.sites(ov)) == 0 {
				c.soft("AssignRanges", "Overlaps isn't used")
				return
			}
			hit := func(v int64) Asg { return truth(isOv, v) }
			q.named("AssignRanges/no overlap").when(hit(0)).never(app, "a range that doesn't overlap is assigned")
			// every pair is tested: the old ranges come in any order
			q.coversAll(from, "the old ranges are listed in any order")
			sorts := false
			q.visits(func(x X) bool { return x.common() != nil }, func(x X) {
				n := callName(x.common())
				sorts = sorts || strings.HasPrefix(n, "slices.Sort") || strings.HasPrefix(n, "sort.")
			})
			fromElem := func(t *Term) bool { return t.Op == "index" && t.A[0].Find(from) != nil }
			for _, l := range q.loops() {
				if sorts || len(l.sitesIn(elemLoad(from))) == 0 {
					continue
				}
				in := l.blocks()
				for _, x := range q.sites(func(x X) bool { _, ok := x.n.I.(*ssa.If); return ok && l.within(x) && x.n.C == l.c }) {
					f := x.n.I.(*ssa.If)
					for _, s := range f.Block().Succs {
						if !in[s] && x.t(V{x.n.C, f.Cond}).Find(fromElem) != nil {
							c.fail("AssignRanges/order", x.pos(), "the search ends at an old range that doesn't overlap; the ones after it may, in any order the checkpoints were recorded")
						}
					}
				}
			}
			q.named("AssignRanges/overlap").when(hit(1)).follow(ov, app, or(exit, ov), "an overlapping range isn't assigned: its state is lost")
			q.all(ov, func(x X) bool {
				return (x.argT(0).Find(from) != nil) != (x.argT(1).Find(from) != nil)
			}, "ranges of the same side are compared")
		})

	rule("murmur", "C03 C05 C06",
		"one step of the hash's loop and its tail compute MurmurHash3-32 on sample values, for every tail length",
		func(c *Check) {
			g := c.full("util/murmur.Hash")
			q := c.q("murmur.Hash", g)
			mix := func(k uint32) uint32 { return bits.RotateLeft32(k*0xcc9e2d51, 15) * 0x1b873593 }
			body := func(h, k uint32) uint32 { return bits.RotateLeft32(h^mix(k), 13)*5 + 0xe6546b64 }
			fin := func(h, n uint32) uint32 {
				h ^= n
				h ^= h >> 16
				h *= 0x85ebca6b
				h ^= h >> 13
				h *= 0xc2b2ae35
				return h ^ h>>16
			}
			by := []uint32{0x8f, 0x21, 0xe7, 0xa4, 0x9b, 0x03, 0xff, 0x80, 0x11}
			p0 := isParam("0")
			var loop *Loop
			var hv, iv, dv *ssa.Phi
			for _, l := range q.loops() {
				var h, i, d *ssa.Phi
				for _, ph := range l.phis {
					switch short(ph.Type()) {
					case "uint32":
						h = ph
					case "int":
						i = ph
					case "[]byte", "[]uint8":
						d = ph
					}
				}
				if h != nil && (i != nil || d != nil) && loop == nil {
					loop, hv, iv, dv = l, h, i, d
				}
			}
			if loop == nil {
				c.soft("murmur.Hash", "the hash loop isn't recognised")
				return
			}
			for _, in := range loop.initOf(hv) {
				v, ok := evalTerm(g.Term(nil, in), truth(isParam("1"), 77))
				c.expect(!ok || v == 77, "murmur.Hash/seed", g.Root.Fn.Pos(), "the hash doesn't start with the seed")
			}
			coll := func(t *Term) bool { return dv != nil && loop.isVar(dv)(t) || dv == nil && p0(t) }
			for L := int64(0); L <= 9; L++ {
				for _, H := range []uint32{0, 0x7fffffff, 0xdeadbeef} {
					I := int64(0)
					if iv != nil && dv == nil {
						I = 8
					}
					N := int64(8) + L
					var asg Asg
					rel := func(arr *Term, ix *Term) (int64, bool) {
						n := L
						if dv == nil {
							n = N
						}
						lo, _, ok := windowIn(arr, coll, n, asg)
						if !ok {
							return 0, false
						}
						v, ok := evalTerm(ix, asg)
						v += lo
						if dv == nil {
							v -= I
						}
						return v, ok && v >= 0 && v < L
					}
					asg = func(t *Term) (int64, bool) {
						switch {
						case loop.isVar(hv)(t):
							return int64(H), true
						case iv != nil && loop.isVar(iv)(t):
							return I, true
						case t.isCall("builtin.len"):
							if dv != nil && coll(t.A[0]) {
								return L, true
							}
							if p0(t.A[0]) {
								return N, true
							}
							n := L
							if dv == nil {
								n = N
							}
							if t.A[0].Op == "slice" {
								if lo, hi, ok := windowIn(t.A[0], coll, n, asg); ok {
									return hi - lo, true
								}
							}
						case t.Op == "index" || t.Op == "lookup":
							if v, ok := rel(t.A[0], t.A[1]); ok {
								return int64(by[v]), true
							}
						case t.isCall("(encoding/binary.littleEndian).Uint32"):
							if v, ok := rel(t.A[1], &Term{Op: "const", S: "0"}); ok && v+4 <= L {
								return int64(by[v] | by[v+1]<<8 | by[v+2]<<16 | by[v+3]<<24), true
							}
						}
						return 0, false
					}
					name := fmt.Sprintf("murmur.Hash/%d bytes left", L)
					var bad string
					und := false
					var at X
					loop.step(asg, func(x X) {
						if nv, ok := loop.nextOf(x, hv, asg); ok {
							at = x
							if L < 4 {
								bad = "the loop goes on without 4 bytes left"
								return
							}
							v, ok := x.val(nv, asg)
							if !ok {
								und = true
							} else if w := body(H, by[0]|by[1]<<8|by[2]<<16|by[3]<<24); uint32(v) != w {
								bad = "a block is mixed in differently from MurmurHash3"
							}
							if dv != nil {
								if nd, ok := loop.nextOf(x, dv, asg); ok {
									lo, hi, ok := windowIn(x.t(nd), coll, L, asg)
									if ok && (lo != 4 || hi != L) {
										bad = "a block isn't 4 bytes"
									}
								}
							} else if ni, ok := loop.nextOf(x, iv, asg); ok {
								if v, ok := x.val(ni, asg); ok && v != I+4 {
									bad = "a block isn't 4 bytes"
								}
							}
						}
						if exit(x) {
							at = x
							if L >= 4 {
								bad = "the loop ends with a block left"
								return
							}
							h := H
							var k uint32
							for j := int(L) - 1; j >= 0; j-- {
								k = k<<8 | by[j]
							}
							h ^= mix(k)
							v, ok := x.val(x.result(0), asg)
							if !ok {
								und = true
							} else if uint32(v) != fin(h, uint32(N)) {
								bad = "the tail and finalisation differ from MurmurHash3"
							}
						}
					})
					if und {
						c.soft(name, "not decided")
						break
					}
					if bad != "" {
						c.fail(name, at.pos(), "%s: persisted state isn't found again", bad)
					}
				}
			}
		})
}

func sortedKeys(m map[int64]bool) []int64 {
	var out []int64
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// fieldEnd matches any field of that name.
func fieldEnd(f string) func(*Term) bool {
	return func(t *Term) bool { return t.Op == "field" && t.S == f }
}

// beBytes gives the bytes of a two-byte collection.
func beBytes(coll func(*Term) bool, b ...int64) Asg {
	return func(t *Term) (int64, bool) {
		if t.Op == "index" && coll(t.A[0]) {
			i, ok := evalTerm(t.A[1], nil)
			if ok && i >= 0 && int(i) < len(b) {
				return b[i], true
			}
		}
		if t.isCall("(encoding/binary.bigEndian).Uint16") && coll(t.A[1]) {
			return b[0]<<8 | b[1], true
		}
		if t.isCall("(encoding/binary.littleEndian).Uint16") && coll(t.A[1]) {
			return b[1]<<8 | b[0], true
		}
		if t.isCall("builtin.len") && coll(t.A[0]) {
			return int64(len(b)), true
		}
		return 0, false
	}
}

// storesAt: an element store at a constant index of a collection.
func storesAt(x X, coll string, i int64) bool {
	s, ok := x.n.I.(*ssa.Store)
	if !ok || x.n.R != nil {
		return false
	}
	ia, ok := s.Addr.(*ssa.IndexAddr)
	if !ok || x.t(V{x.n.C, ia.X}).String() != coll {
		return false
	}
	v, ok := x.val(V{x.n.C, ia.Index}, nil)
	return ok && v == i
}

// sitesIn are the points of an iteration that match.
func (l *Loop) sitesIn(ev Ev) []X {
	var out []X
	for _, x := range l.q.sites(ev) {
		if l.within(x) {
			out = append(out, x)
		}
	}
	return out
}

// valuesAt gives the values an integer takes at a site inside a loop it depends on.
func (q *Q) valuesAt(site N, v V) (map[int64]bool, bool) {
	for _, l := range q.loops() {
		if l.c != site.C || !l.blocks()[site.I.Block()] {
			continue
		}
		dep := false
		for _, ph := range l.phis {
			dep = dep || deps(v.X)[ph]
		}
		if !dep {
			continue
		}
		out := map[int64]bool{}
		bad := false
		asg := q.asg
		_, ok := l.unroll(asg, 12, func(k int, here Asg, x X) {
			if x.n == site {
				if w, ok := x.val(v, here); ok {
					out[w] = true
				} else {
					bad = true
				}
			}
		})
		if ok && !bad {
			return out, true
		}
	}
	return nil, false
}
