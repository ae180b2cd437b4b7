package main

import (
	"fmt"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

// SST tables: record and footer format, search index, bloom filter, primitive fields, run splitting.

func sstF(f string) string { return "dkv/sst." + f }

const (
	tabT  = "(*dkv/sst.Table)"
	entK  = "(dkv/kv.Entry)."
	movE  = "(*dkv/storage.Cursor).Move"
	fileW = "(dkv/storage.File)."
)

// lastStore gives, per path class of the scenario, the terms last stored to a field before exit ("" and nil when not stored).
func (q *Q) lastStores(field string) map[string]V {
	out := map[string]V{}
	var vs []V
	q.walk(0, func(s int, x X) (int, bool, string) {
		if store(field)(x) {
			vs = append(vs, x.stored())
			return len(vs), false, ""
		}
		if exit(x) {
			if s == 0 {
				out[""] = V{}
			} else {
				out[x.t(vs[s-1]).String()] = vs[s-1]
			}
		}
		return s, false, ""
	})
	return out
}

// endsWith checks the value a field has at exit in a scenario.
func (q *Q) endsWith(field string, init int64, want int64, why string) {
	bad := ""
	q.walk(0, func(s int, x X) (int, bool, string) { return s, false, "" })
	type st struct {
		v  int64
		ok bool
	}
	states := []st{{init, true}}
	pos := q.g.Root.Fn.Pos()
	q.walk(0, func(s int, x X) (int, bool, string) {
		if store(field)(x) {
			v, ok := x.val(x.stored(), q.asg)
			for i, t := range states {
				if t.v == v && t.ok == ok {
					return i, false, ""
				}
			}
			states = append(states, st{v, ok})
			return len(states) - 1, false, ""
		}
		if exit(x) {
			if t := states[s]; t.ok && t.v != want {
				bad = fmt.Sprintf("%s (it becomes %d instead of %d)", why, t.v, want)
			} else if !t.ok {
				q.c.soft(q.name, "the value of "+field+" isn't understood")
			}
		}
		return s, false, ""
	})
	if bad != "" {
		q.c.fail(q.name, pos, "%s", bad)
		return
	}
	q.c.ok(q.name)
}

func sstParts(del int64) []part {
	return []part{
		{'K', func(x X, v V) bool { return x.t(v).isCall(entK + "Key") }},
		{'V', func(x X, v V) bool { return x.t(v).isCall(entK + "Value") }},
		{'S', func(x X, v V) bool { return x.t(v).isCall(entK + "SeqNum") }},
		{'T', func(x X, v V) bool {
			w, ok := x.val(v, callVal(entK+"IsDelete", del))
			return ok && w == del
		}},
	}
}

func (c *Check) sstOrder() (live, del string) {
	dest := func(x X, v V) bool { return x.t(v).isFieldOf(sstF("Table.file")) }
	g := c.full("dkv/sst.writeEntry")
	live = c.q("writeEntry/live record", g).when(callVal(entK+"IsDelete", 0)).writeOrder(sstParts(0), dest)
	del = c.q("writeEntry/tombstone", g).when(callVal(entK+"IsDelete", 1)).writeOrder(sstParts(1), dest)
	return
}

func init() {
	tf := func(f string) string { return sstF("Table." + f) }

	rule("sst.record", "C03 C07 C08 C17 C18",
		"an SST record holds key, sequence number, tombstone and, unless deleted, the value, always in one order; both the point lookup and the prefix scan decode it in that order and hand out exactly the records asked for; read errors are reported",
		func(c *Check) {
			live, del := c.sstOrder()
			if live != "" && del != "" {
				c.expect(len(live) == 4 && len(del) == 3 && live[:3] == del, "record layout", c.fn("dkv/sst.writeEntry").Pos(),
					"entries are written as %s and tombstones as %s: a reader can't tell where the next record starts", live, del)
			}
			if len(live) != 4 || len(del) != 3 {
				return
			}
			fs := map[byte]string{'K': sstF("Entry.key"), 'V': sstF("Entry.value"), 'S': sstF("Entry.seqNum"), 'T': sstF("Entry.isDelete")}
			readKey := func(t *Term) bool { return extractOf(t, "0", fieldsP+"ReadVarBytes") }
			// prefix scan
			b := c.seqBody("(*dkv/sst.Table).ScanPrefix")
			isPrefix := func(v int64) Asg {
				return func(t *Term) (int64, bool) {
					if t.isCall("bytes.HasPrefix") && len(t.A) == 2 && readKey(t.A[0]) && hasSuffix(t.A[1].String(), "p1") {
						return v, true
					}
					return 0, false
				}
			}
			q := c.q("Table.ScanPrefix", b)
			q.readsRecords(recordReader{order: live, field: fs, restart: call(movE), product: isYield, wantAll: true, asg: isPrefix(1), skipped: isPrefix(0)})
			// point lookup
			g := c.full("(*dkv/sst.Table).Get")
			same := func(v int64) Asg {
				eq := func(a, b *Term) bool { return readKey(a) && b.String() == "p1" }
				return func(t *Term) (int64, bool) {
					if t.isCall("bytes.Equal") && (eq(t.A[0], t.A[1]) || eq(t.A[1], t.A[0])) {
						return v, true
					}
					if t.isCall("bytes.Compare") && (eq(t.A[0], t.A[1]) || eq(t.A[1], t.A[0])) {
						return 1 - v, true
					}
					if t.isCall("(*dkv/bloom.Filter).MightHave") {
						return 1, true
					}
					return 0, false
				}
			}
			q = c.q("Table.Get", g)
			hit := func(x X) bool { return exit(x) && !notEntry(x) }
			var bounded func(t *Term) bool
			if len(q.sites(call("dkv/storage.NewBoundedCursor"))) > 0 || c.P.lookup("dkv/storage.NewBoundedCursor") != nil {
				bounded = func(t *Term) bool { return t.hasCall("dkv/storage.NewBoundedCursor") }
			}
			q.readsRecords(recordReader{order: live, field: fs, restart: call(movE), product: hit, wantAll: true, asg: same(1), skipped: same(0), from: bounded})
			nf := func(x X) bool {
				return exit(x) && x.t(x.result(1)).String() == "dkv/kv.ErrNotFound"
			}
			q.named("Table.Get/filter miss").when(truth(func(t *Term) bool { return t.isCall("(*dkv/bloom.Filter).MightHave") }, 0)).all(exit, nf, "a key the filter excludes isn't reported absent")
			q.all(call("(*dkv/bloom.Filter).MightHave"), func(x X) bool { return x.argT(1).String() == "p1" }, "the filter is asked for another key")
			q.precede(call("(*dkv/sst.Table).ensureMetadataLoaded"), call("(*dkv/bloom.Filter).MightHave"), "")
			// every error becomes an error of the lookup
			for _, op := range []string{"ReadUint64", "ReadTombstone", "SkipVarBytes"} {
				ev := call(fieldsP + op)
				if len(q.sites(ev)) == 0 {
					continue
				}
				bad := both(func(t *Term) (int64, bool) {
					if resultOf(t, 1, fieldsP+op) && op[0] == 'R' || resultOf(t, 0, fieldsP+op) && op[0] == 'S' {
						return 1, true
					}
					if t.isCall("errors.Is") {
						return 0, true
					}
					return 0, false
				}, noIOErrors)
				q.named("Table.Get/failed "+op).when(bad).follow(ev, func(x X) bool { return exit(x) && anyErrProduct(x) && !nf(x) }, or(exit, ev), "a failed read isn't reported by the lookup")
			}
			for _, op := range []string{"ReadVarBytes", "ReadUint64", "ReadTombstone", "SkipUint64", "SkipVarBytes"} {
				ev := call(fieldsP + op)
				w := c.q("Table.ScanPrefix/failed "+op, b)
				if len(w.sites(ev)) == 0 {
					continue
				}
				bad := both(func(t *Term) (int64, bool) {
					if resultOf(t, 1, fieldsP+op) && op[0] == 'R' || resultOf(t, 0, fieldsP+op) && op[0] == 'S' {
						return 1, true
					}
					if t.isCall("errors.Is") {
						return 0, true
					}
					return 0, false
				}, noIOErrors)
				setErr := func(x X) bool {
					s, ok := x.n.I.(*ssa.Store)
					return ok && x.n.R == nil && isErrType(s.Val.Type()) && hasSuffix(x.t(V{x.n.C, s.Addr}).String(), "p2") && func() bool {
						a, _ := x.g.eval(x.e, V{x.n.C, s.Val})
						return a.k != 'n'
					}()
				}
				w.when(bad).follow(ev, setErr, or(exit, ev), "a failed read isn't reported by the scan")
			}
			// both start at the beginning and stop at the end of the entries
			for _, r := range []struct {
				n string
				g *Graph
			}{{"Table.Get", g}, {"Table.ScanPrefix", c.full("(*dkv/sst.Table).ScanPrefix")}} {
				nb := call("dkv/storage.NewBoundedCursor")
				w := c.q(r.n+"/bounds", r.g)
				if w.need(nb, "bounded cursor") == nil {
					continue
				}
				w.all(nb, func(x X) bool {
					v, ok := x.val(x.arg(1), nil)
					return (!ok || v == 0) && x.argT(0).isFieldOf(tf("file")) && x.argT(2).hasField(tf("entriesSize"))
				}, "the records aren't read from the start to the end of the entries")
				w.precede(call("(*dkv/sst.Table).ensureMetadataLoaded"), nb, "")
			}
			// the indexed range: scanned from its start to its end
			se := call("(*dkv/sst.SearchIndex).Search")
			w := c.q("Table.Get/indexed range", g)
			w.all(se, func(x X) bool { return x.argT(0).isFieldOf(tf("searchIndex")) && x.argT(1).String() == "p1" }, "the index is searched for another key")
		})

	rule("sst.write", "C03 C07 C08 C17 C18",
		"writing an entry records the table's first and last key and lowest and highest sequence number, indexes the record's offset before it is written, adds the key to the filter and counts every written byte",
		func(c *Check) {
			g := c.full("dkv/sst.writeEntry")
			size := fieldIs(tf("size"))
			seq := func(t *Term) bool { return t.isCall(entK + "SeqNum") }
			key := func(t *Term) bool { return t.isCall(entK + "Key") }
			first := c.q("writeEntry/first entry", g).when(roles(role{size, 0}, role{seq, 7}, role{fieldIs(tf("endSeqNum")), 0}, role{fieldIs(tf("startSeqNum")), 0}))
			first.mustPass(store(tf("startKey")), exit, "the first key isn't recorded")
			first.endsWith(tf("startSeqNum"), 0, 7, "the lowest sequence number of the table is wrong after its first entry")
			c.q("writeEntry/later entry", g).when(roles(role{size, 40})).never(store(tf("startKey")), "a later entry changes the table's first key")
			q := c.q("writeEntry", g)
			q.all(store(tf("startKey"), tf("endKey")), func(x X) bool { return key(x.t(x.stored())) }, "something other than the entry's key bounds the table")
			q.mustPass(store(tf("endKey")), exit, "the last key isn't recorded")
			for _, cs := range [][4]int64{{5, 10, 5, 10}, {15, 10, 10, 15}, {12, 10, 10, 12}, {10, 10, 10, 10}} {
				asg := roles(role{size, 40}, role{seq, cs[0]}, role{fieldIs(tf("startSeqNum")), cs[1]}, role{fieldIs(tf("endSeqNum")), cs[1]})
				w := q.named("writeEntry/sequence numbers").when(asg)
				w.endsWith(tf("startSeqNum"), cs[1], cs[2], "the table's lowest sequence number is wrong")
				w.endsWith(tf("endSeqNum"), cs[1], cs[3], "the table's highest sequence number is wrong")
			}
			ix := call("(*dkv/sst.SearchIndex).IndexOffset")
			wr := func(x X) bool { k, w, _ := ioKind(x); return k != 0 && w }
			q.mustPass(ix, exit, "the record isn't offered to the search index")
			q.all(ix, func(x X) bool { return x.argT(0).isFieldOf(tf("searchIndex")) }, "another index is filled")
			q.precede(ix, wr, "the record is indexed after part of it is written")
			q.all(ix, func(x X) bool { t := x.argT(1); return size(t) && !t.Stale && !t.hasCall(fieldsP+"MustWriteVarBytes") }, "the indexed offset isn't where the record starts")
			add := call("(*dkv/bloom.Filter).Add")
			q.mustPass(add, exit, "the key isn't added to the filter")
			q.all(add, func(x X) bool { return x.argT(0).isFieldOf(tf("filter")) && key(x.argT(1)) }, "something other than the key is added to the table's filter")
			for _, del := range []int64{0, 1} {
				w := q.named("writeEntry/size").when(callVal(entK+"IsDelete", del))
				n := map[int64]int64{0: 4, 1: 3}[del]
				asg := both(roles(role{size, 100}), func(t *Term) (int64, bool) {
					if t.Op == "call" && hasPrefixAny(t.S, fieldsP+"MustWrite") {
						return 3, true
					}
					return 0, false
				}, callVal(entK+"IsDelete", del))
				w.when(asg).endsWith(tf("size"), 100, 100+3*n, "the table's size doesn't count every written byte once")
			}
			// The table: all entries, then the footer, then the file
			t := c.full("(*dkv/sst.TableWriter).Write")
			w := c.q("TableWriter.Write", t)
			u64 := and(call(fieldsP+"MustWriteUint64"), func(x X) bool { return seq(x.argT(1)) })
			w.each(isParam("1"), u64, "an entry isn't written")
			fe := call("(*dkv/bloom.Filter).Encode")
			sv := call(fileW + "Save")
			w.mustPass(fe, exit, "the table has no footer")
			w.mustPass(sv, exit, "the table's file isn't saved")
			w.neverAfter(fe, u64, "an entry is written after the footer")
			w.neverAfter(sv, or(wr, fe), "data is written after the file is saved")
			w.all(sv, func(x X) bool {
				return x.loadedFrom(x.arg(0), tf("file")) || x.argT(0).isCall("(dkv/storage.FileSystem).New")
			}, "another file is saved")
			w.named("TableWriter.Write/failed save").when(callVal(fileW+"Save", 1)).never(func(x X) bool {
				if !exit(x) {
					return false
				}
				a, _ := t.eval(x.e, x.result(1))
				return a.k == 'n'
			}, "a failed save is reported as a written table")
			w.mustPass(and(store(tf("metadataLoaded")), func(x X) bool { v, ok := x.val(x.stored(), nil); return !ok || v == 1 }), exit, "a table written by this process reads its metadata from the file again")
			w.named("TableWriter.Write/file").all(call("(dkv/storage.FileSystem).New"), func(x X) bool {
				return x.within(x.argT(1), func(u *Term) bool { return u.isCall("(*sync/atomic.Int64).Add") })
			}, "the table's file name isn't a newly reserved one")
			w.all(call("(*sync/atomic.Int64).Add"), func(x X) bool { v, ok := x.val(x.arg(1), nil); return !ok || v >= 1 }, "reserving a table id doesn't advance it: files get overwritten")
			w.all(store(tf("file")), func(x X) bool { return x.t(x.stored()).isCall("(dkv/storage.FileSystem).New") }, "the table isn't backed by the new file")
			w.sizeBeforeFooter(store(tf("entriesSize")), call("(*dkv/bloom.Filter).Encode", "(*dkv/sst.SearchIndex).Encode"))
		})

	rule("sst.footer", "C03 C07 C08 C17 C18",
		"the footer is written after the entries: filter and search index in one order and then, at a fixed distance from the end, the offset where they start; reading it back uses the same order and distance",
		func(c *Check) {
			g := c.full("(*dkv/sst.Table).writeFooter")
			q := c.q("Table.writeFooter", g)
			es := store(tf("entriesSize"))
			f, s := call("(*dkv/bloom.Filter).Encode"), call("(*dkv/sst.SearchIndex).Encode")
			q.mustPass(es, exit, "the entries' size isn't recorded")
			q.all(es, func(x X) bool {
				t := x.t(x.stored())
				return (t.isFieldOf(tf("size")) || t.isCall("(*dkv/sst.Table).Size")) && !t.Stale
			}, "the recorded entries' size isn't the table's size before the footer")
			q.mustPass(f, exit, "the filter isn't written")
			q.mustPass(s, exit, "the search index isn't written")
			for _, e := range []Ev{f, s} {
				q.all(e, func(x X) bool { return x.argT(1).isFieldOf(tf("file")) }, "the footer goes to another file")
			}
			q.all(f, func(x X) bool { return x.argT(0).isFieldOf(tf("filter")) }, "another filter is written")
			q.all(s, func(x X) bool { return x.argT(0).isFieldOf(tf("searchIndex")) }, "another index is written")
			// tail: fixed-size writes after the last encoder
			inEnc := func(x X) bool {
				for cx := x.n.C; cx != nil && cx.Parent != nil; cx = cx.Parent {
					if n := calleeName(cx.Fn); n == "(*dkv/sst.SearchIndex).Encode" || n == "(*dkv/bloom.Filter).Encode" {
						return true
					}
				}
				return false
			}
			dists, orders := map[int64]bool{}, map[string]bool{}
			bad := q.walk(0, func(st int, x X) (int, bool, string) {
				// st: 0 nothing, 1 F, 2 I, 3 FI, 4 IF; +8*(bytes since the offset)
				phase, d := st%8, int64(st/8)
				if f(x) || s(x) {
					if f(x) && phase != 0 && phase != 2 || s(x) && phase > 1 || d > 0 {
						return st, true, "filter or index is written twice or after the offset"
					}
					if f(x) {
						return map[int]int{0: 1, 2: 4}[phase], false, ""
					}
					return map[int]int{0: 2, 1: 3}[phase], false, ""
				}
				if exit(x) {
					dists[d] = true
					orders[[]string{"", "F", "I", "FI", "IF"}[phase]] = true
					return st, false, ""
				}
				k, w, _ := ioKind(x)
				if k == 0 || !w || inEnc(x) {
					return st, false, ""
				}
				width := map[byte]int64{'U': 8, 'W': 4, 'T': 1}[k]
				if width == 0 {
					return st, true, "a part of unknown size"
				}
				if d == 0 {
					if t := x.argT(1); k != 'U' || !(t.hasField(tf("entriesSize")) || t.hasField(tf("size"))) {
						return st, true, "something else than the entries' size"
					}
				}
				if d > 64 {
					return st, true, "a tail of varying size"
				}
				return phase + 8*int(d+width), false, ""
			})
			q.report(bad, "the end of the footer isn't the offset of the metadata and fixed parts")
			// every byte written is counted
			h := c.full("(*dkv/sst.Table).writeFooter")
			for _, n := range []string{"(*dkv/bloom.Filter).Encode", "(*dkv/sst.SearchIndex).Encode"} {
				h.Inline = noInline(n, h.Inline)
			}
			counted := both(callVal("(*dkv/bloom.Filter).Encode", 100), callVal("(*dkv/sst.SearchIndex).Encode", 1000), callVal(fieldsP+"MustWriteUint64", 8), callVal(fieldsP+"MustWriteUint32", 4), callVal(fieldsP+"MustWriteTombstone", 1))
			hq := c.q("Table.writeFooter/size", h).when(counted)
			hq.report(hq.walk(0, func(st int, x X) (int, bool, string) {
				if exit(x) {
					if v, ok := x.val(x.result(0), counted); ok && v != int64(st) {
						return st, true, "the table's size doesn't count every byte of the footer: its metadata is looked for at the wrong place"
					}
				}
				k, w, _ := ioKind(x)
				switch {
				case f(x):
					return st + 100, st > 5000, ""
				case s(x):
					return st + 1000, st > 5000, ""
				case k != 0 && w:
					return st + int(map[byte]int64{'U': 8, 'W': 4, 'T': 1}[k]), st > 5000, ""
				}
				return st, false, ""
			}), "")
			if len(dists) != 1 || len(orders) != 1 {
				c.soft("footer layout", fmt.Sprint("not understood: ", dists, orders))
				return
			}
			var dist int64
			var order string
			for d := range dists {
				dist = d
			}
			for o := range orders {
				order = o
			}
			if len(order) != 2 || dist == 0 {
				c.soft("footer layout", "not understood: "+order)
				return
			}
			l := c.full("(*dkv/sst.Table).loadFooter")
			w := c.q("Table.loadFooter", l).when(noIOErrors)
			mv := call(movE)
			ru := call(fieldsP + "ReadUint64")
			df, ds := call("dkv/bloom.Decode"), call("dkv/sst.SearchIndexDecode")
			inDec := func(x X) bool {
				for cx := x.n.C; cx != nil && cx.Parent != nil; cx = cx.Parent {
					if calleeName(cx.Fn) == "dkv/sst.SearchIndexDecode" {
						return true
					}
				}
				return false
			}
			asg := both(noIOErrors, roles(role{fieldIs(tf("size")), 1000}, role{func(t *Term) bool { return extractOf(t, "0", fieldsP+"ReadUint64") }, 400}))
			w.report(w.when(asg).walk(0, func(st int, x X) (int, bool, string) {
				switch {
				case mv(x):
					v, ok := x.val(x.arg(1), asg)
					if !ok {
						return st, false, ""
					}
					if v == 400 {
						return 2, false, ""
					}
					if v != 1000-dist {
						return st, true, fmt.Sprintf("the offset of the metadata is read %d bytes before the end, it is written %d bytes before it", 1000-v, dist)
					}
					return 1, false, ""
				case ru(x) && !inDec(x):
					if st != 1 {
						return st, true, "the offset of the metadata isn't read from the end of the file"
					}
				case df(x), ds(x):
					want := df(x) == (order[0] == 'F')
					switch {
					case st == 2 && want:
						return 3, false, ""
					case st == 3 && !want:
						return 4, false, ""
					}
					return st, true, "filter and index aren't decoded in the order they are written, from the recorded offset"
				case exit(x):
					if st != 4 {
						return st, true, "the metadata isn't loaded completely"
					}
				}
				return st, false, ""
			}), "the footer isn't read the way it is written")
			w.mustPass(store(tf("filter")), exit, "the loaded filter isn't kept")
			w.mustPass(store(tf("searchIndex")), exit, "the loaded index isn't kept")
			// loading is guarded and done before use
			e := c.full("(*dkv/sst.Table).ensureMetadataLoaded")
			ml := store(tf("metadataLoaded"))
			lf := call("(*dkv/sst.Table).loadFooter")
			v := c.q("Table.ensureMetadataLoaded", e)
			v.when(roles(role{fieldIs(tf("metadataLoaded")), 0})).mustPass(lf, exit, "the metadata isn't loaded")
			v.precede(lf, ml, "the metadata is marked loaded before it is: concurrent readers use missing metadata")
			v.locked(tf("metadataMu"), unlocked, "", func(h int, x X) string {
				if (lf(x) || ml(x)) && h != wlocked {
					return "the metadata is loaded without holding the mutex: concurrent readers see it half loaded"
				}
				return ""
			})
		})

	rule("sst.index", "C03 C07 C08 C17 C18",
		"the search index holds the offset of the first record and only record offsets, is found by key order, and bounds a range that starts at or before the key's record and ends behind it",
		func(c *Check) {
			off := sstF("SearchIndex.offsets")
			g := c.full("(*dkv/sst.SearchIndex).IndexOffset")
			q := c.q("SearchIndex.IndexOffset", g)
			q.when(roles(role{fieldIs(sstF("SearchIndex.itemsWritten")), 0})).mustPass(store(off), exit, "the first record isn't indexed")
			q.all(store(off), func(x X) bool {
				t := x.t(x.stored())
				return !t.isCall("builtin.append") || t.A[0].isFieldOf(off) && x.within(t.A[1], func(u *Term) bool { return u.String() == "p1" })
			}, "something other than the record's offset is appended to the index")
			s := c.full("(*dkv/sst.SearchIndex).Search")
			q = c.q("SearchIndex.Search", s)
			isOff := func(t *Term) bool { return t.isFieldOf(off) }
			empty := q.named("SearchIndex.Search/empty index").when(lenAsg(isOff, 0))
			empty.all(exit, func(x X) bool {
				a, ok := x.val(x.result(0), nil)
				b, ok2 := x.val(x.result(1), nil)
				return !ok || !ok2 || a == 0 && b > math.MaxUint32
			}, "a table without an index isn't scanned as a whole")
			func() {
				bs := call("slices.BinarySearchFunc")
				if len(q.sites(bs)) == 0 {
					c.soft("SearchIndex.Search", "how the index is searched isn't understood")
					return
				}
				q.all(bs, func(x X) bool { return isOff(x.argT(0)) && x.argT(1).String() == "p1" }, "something else is searched")
				keyErr := func(t *Term) (int64, bool) {
					if t.Op == "extract" && t.S == "1" && t.A[0].Op == "call" && t.A[0].S == "" {
						return 1, true
					}
					return 0, false
				}
				q.named("SearchIndex.Search/unreadable key").when(keyErr).neverAfter(func(x X) bool {
					cc := x.common()
					return cc != nil && !x.n.After && cc.StaticCallee() == nil && !cc.IsInvoke() && x.t(V{x.n.C, cc.Value}).String() == "p2"
				}, nilErrExit, "a key that can't be read isn't reported: the search goes on with a made-up position")
				for n := int64(1); n <= 3; n++ {
					for found := int64(0); found <= n; found++ {
						for _, exact := range []int64{0, 1} {
							if exact == 1 && found == n {
								continue
							}
							var asg Asg
							asg = func(t *Term) (int64, bool) {
								if v, ok := lenAsg(isOff, n)(t); ok {
									return v, ok
								}
								if extractOf(t, "0", "slices.BinarySearchFunc") {
									return found, true
								}
								if extractOf(t, "1", "slices.BinarySearchFunc") {
									return exact, true
								}
								if t.Op == "index" && isOff(unslice(t.A[0])) {
									i, ok := elemIndex(t, asg)
									return 100 * (i + 1), ok
								}
								if t.Op == "extract" && t.S == "1" && t.A[0].Op == "call" && t.A[0].S == "" {
									return 0, true
								}
								return 0, false
							}
							at := found
							if exact == 0 {
								at--
							}
							w := q.named(fmt.Sprintf("SearchIndex.Search/%d offsets, position %d, exact %d", n, found, exact)).when(asg)
							w.all(exit, func(x X) bool {
								if a, _ := s.eval(x.e, x.result(2)); a.k != 'n' {
									return true // the search failed
								}
								lo, ok1 := x.val(x.result(0), asg)
								hi, ok2 := x.val(x.result(1), asg)
								if !ok1 || !ok2 || at < 0 {
									return true
								}
								need := 100 * (at + 2)
								if at == n-1 {
									need = math.MaxUint32
								}
								return lo <= 100*(at+1) && hi >= need
							}, "the range to scan doesn't contain the key's record")
						}
					}
				}
				if h := q.fnArg(bs, 2); h != nil {
					read := func(t *Term) bool { return t.Op == "extract" && t.S == "0" && t.A[0].Op == "call" }
					noErr := func(t *Term) (int64, bool) {
						if t.Op == "const" || t.V.X == nil || !isErrType(t.V.X.Type()) {
							return 0, false
						}
						return 0, true
					}
					c.signTable("SearchIndex.Search/order", h, read, func(t *Term) bool { return hasSuffix(t.String(), "p1") && t.Op == "param" }, "the index isn't searched in key order", noErr)
					all := c.q("SearchIndex.Search/probe", h)
					all.all(callOf(func(t *Term) bool { return hasSuffix(t.String(), "p2") }), func(x X) bool {
						return x.t(V{x.n.C, x.common().Args[0]}).Find(isParam("0")) != nil || x.t(V{x.n.C, x.common().Args[0]}).Find(func(u *Term) bool { return hasSuffix(u.String(), "p0") }) != nil
					}, "the key is read from another offset than the probed one")
				} else {
					c.soft("SearchIndex.Search/order", "comparison isn't a function literal")
				}
			}()
			// encoding
			e := c.full("(*dkv/sst.SearchIndex).Encode")
			q = c.q("SearchIndex.Encode", e)
			cnt := and(call(fieldsP+"MustWriteUint32"), func(x X) bool { return x.argT(1).hasCall("builtin.len") })
			val := and(call(fieldsP+"MustWriteUint32"), not(cnt))
			q.mustPass(cnt, exit, "the number of offsets isn't written")
			q.precede(cnt, val, "an offset is written before the number of offsets")
			q.each(isOff, val, "an offset isn't written")
			d := c.full("dkv/sst.SearchIndexDecode")
			q = c.q("SearchIndexDecode", d).when(noIOErrors)
			rd := call(fieldsP + "ReadUint32")
			set := func(x X) bool {
				st, ok := x.n.I.(*ssa.Store)
				if !ok || x.n.R != nil {
					return false
				}
				_, ok = st.Addr.(*ssa.IndexAddr)
				return ok && extractOf(x.t(V{x.n.C, st.Val}), "0", fieldsP+"ReadUint32")
			}
			q.need(set, "decoded offset")
			q.mustPass(store(off), exit, "the decoded offsets aren't kept")
			mk := func(t *Term) bool { return t.Op == "make" }
			_ = mk
			q.named("SearchIndexDecode/count").decodeLoop(rd, set)
		})

	rule("bloom", "C03 C07 C08 C17",
		"the filter sets and tests the same bits for the same key, denies a key only when one of its bits is unset, and survives encoding",
		func(c *Check) {
			ba := "dkv/bloom.Filter.bitArray"
			isBits := func(t *Term) bool {
				if t.Op != "make" || t.V.X == nil {
					return t.isField("bitArray")
				}
				sl, ok := t.V.X.Type().Underlying().(*types.Slice)
				return ok && types.Identical(sl.Elem().Underlying(), types.Typ[types.Uint64])
			}
			// positions kept in a slice of their own
			usesList := func(g *Graph) bool {
				return len(c.q(fname(g.Root.Fn), g).sites(func(x X) bool {
					s, ok := x.n.I.(*ssa.Store)
					if !ok || x.n.R != nil {
						return false
					}
					ia, ok := s.Addr.(*ssa.IndexAddr)
					return ok && !isVarargs(ia.X) && !isBits(x.t(V{x.n.C, ia.X}))
				})) > 0
			}
			listed := func(g *Graph, base Asg) Asg {
				var v int64
				n, same := 0, true
				c.q(fname(g.Root.Fn), g).when(base).visits(func(x X) bool {
					s, ok := x.n.I.(*ssa.Store)
					if !ok || x.n.R != nil {
						return false
					}
					ia, ok := s.Addr.(*ssa.IndexAddr)
					return ok && !isBits(x.t(V{x.n.C, ia.X})) && x.t(V{x.n.C, ia.X}).Op == "make"
				}, func(x X) {
					w, ok := x.val(V{x.n.C, x.n.I.(*ssa.Store).Val}, base)
					same = same && ok && (n == 0 || w == v)
					v = w
					n++
				})
				if n == 0 || !same {
					return base
				}
				return both(base, func(t *Term) (int64, bool) { return v, t.Op == "index" && t.A[0].Op == "make" && !isBits(t.A[0]) })
			}
			hash := func(t *Term) bool { return t.isCall("util/murmur.Hash") }
			ga, gm := c.full("(*dkv/bloom.Filter).Add"), c.full("(*dkv/bloom.Filter).MightHave")
			// bits: index and mask for some hash values
			for _, h := range []int64{0, 1, 63, 64, 65, 127, 200, 777, 778, 1000, 4294967295} {
				base := roles(role{hash, h}, role{fieldIs("dkv/bloom.Filter.size"), 777}, role{fieldIs("dkv/bloom.Filter.hashCount"), 3})
				type bitAt struct{ i, m int64 }
				set := map[bitAt]bool{}
				base = listed(ga, base)
				c.q("Filter.Add", ga).when(base).visits(func(x X) bool {
					s, ok := x.n.I.(*ssa.Store)
					if !ok || x.n.R != nil {
						return false
					}
					ia, ok := s.Addr.(*ssa.IndexAddr)
					return ok && isBits(x.t(V{x.n.C, ia.X}))
				}, func(x X) {
					s := x.n.I.(*ssa.Store)
					i, ok := x.val(V{x.n.C, s.Addr.(*ssa.IndexAddr).Index}, base)
					old := int64(1) << 40
					m, ok2 := x.val(V{x.n.C, s.Val}, both(base, func(t *Term) (int64, bool) { return old, t.Op == "index" && isBits(t.A[0]) }))
					if !ok || !ok2 {
						return
					}
					if m&old == 0 {
						c.fail("Filter.Add", x.pos(), "setting a bit clears others")
					}
					set[bitAt{i, m &^ old}] = true
					if i == h%777/64 && m == old { // the bit set is the one already there
						set[bitAt{i, old}] = true
					}
				})
				if len(set) == 0 {
					c.soft("bloom bits", "the bit operations aren't understood")
					break
				}
				// with exactly the bits set that adding the key sets, the key is found
				words := map[int64]int64{}
				if usesList(gm) {
					c.soft("Filter.MightHave", "the bits tested are listed first")
					break
				}
				for b := range set {
					words[b.i] |= b.m
				}
				bits := both(func(t *Term) (int64, bool) {
					if t.Op != "index" || !isBits(t.A[0]) {
						return 0, false
					}
					i, ok := evalTerm(t.A[1], base)
					return words[i], ok
				}, base)
				c.q(fmt.Sprintf("Filter.MightHave/hash %d", h), gm).when(bits).all(exit, func(x X) bool {
					v, ok := x.val(x.result(0), bits)
					return !ok || v == 1
				}, "the test looks at another bit than the one adding the key sets")
			}
			// every position of the filter has a bit
			gn := c.full("dkv/bloom.NewFilter")
			for _, n := range []int64{1, 63, 64, 65, 127, 128, 777} {
				asg := truth(isParam("0"), n)
				c.q(fmt.Sprintf("NewFilter/size %d", n), gn).when(asg).all(store(ba), func(x X) bool {
					t := x.t(x.stored())
					if t.Op != "make" {
						return true
					}
					v, ok := evalTerm(t.A[0], asg)
					return !ok || v*64 >= n
				}, "the filter has fewer bits than positions")
			}
			// the same hash functions
			ks := func(g *Graph, name string, more Asg) (map[int64]bool, bool) {
				base := both(more, roles(role{fieldIs("dkv/bloom.Filter.hashCount"), 3}, role{hash, 5}, role{fieldIs("dkv/bloom.Filter.size"), 777}))
				out := map[int64]bool{}
				q := c.q(name, g).when(base)
				for _, l := range q.loops() {
					_, ok := l.unroll(base, 8, func(k int, vals Asg, x X) {
						if call("util/murmur.Hash")(x) {
							if v, ok := x.val(x.arg(1), vals); ok && l.within(x) {
								out[v] = true
							}
						}
					})
					if !ok {
						return nil, false
					}
				}
				q.all(call("util/murmur.Hash"), func(x X) bool { return x.argT(0).String() == "p1" }, "something other than the key is hashed")
				return out, len(out) > 0
			}
			isSet := func(v int64) Asg {
				return both(listed(gm, roles(role{hash, 5}, role{fieldIs("dkv/bloom.Filter.size"), 777}, role{fieldIs("dkv/bloom.Filter.hashCount"), 3})), func(t *Term) (int64, bool) {
					return -v, t.Op == "index" && isBits(t.A[0])
				})
			}
			a, ok1 := ks(ga, "Filter.Add/hashes", nil)
			m, ok2 := ks(gm, "Filter.MightHave/hashes", isSet(1))
			if ok1 && ok2 {
				for k := range m {
					c.expect(a[k], "bloom hashes", gm.Root.Fn.Pos(), "a bit of hash function %d is tested that adding a key doesn't set", k)
				}
			} else {
				c.soft("bloom hashes", "the loops over the hash functions aren't understood")
			}
			set := c.q("Filter.MightHave/all bits set", gm).when(isSet(1))
			if !usesList(gm) {
				set.all(exit, func(x X) bool { v, ok := x.val(x.result(0), isSet(1)); return !ok || v == 1 }, "a key whose bits are all set is denied")
			}
			// encoding
			ge := c.full("(*dkv/bloom.Filter).Encode")
			q := c.q("Filter.Encode", ge)
			w32 := call(fieldsP + "MustWriteUint32")
			sz := and(w32, func(x X) bool { return x.argT(1).isField("size") })
			hc := and(w32, func(x X) bool { return x.argT(1).Find(func(t *Term) bool { return t.isField("hashCount") }) != nil })
			bits := call(fieldsP + "MustWriteUint64")
			q.mustPass(sz, exit, "the filter's size isn't written")
			q.mustPass(hc, exit, "the number of hash functions isn't written")
			q.each(isBits, bits, "part of the bits isn't written")
			q.precede(hc, bits, "")
			sizeFirst := len(q.until(hc).sites(sz)) > 0
			gd := c.full("dkv/bloom.Decode")
			q = c.q("bloom.Decode", gd).when(noIOErrors)
			nf := call("dkv/bloom.NewFilter")
			var first N
			q.visits(call(fieldsP+"ReadUint32"), func(x X) {
				if first.I == nil {
					first = x.n
				}
			})
			q.need(nf, "filter of the decoded size")
			q.all(nf, func(x X) bool {
				a, ok := callNode(stripConv(x.argT(0)))
				b, ok2 := callNode(stripConv(x.argT(1)))
				if !ok || !ok2 {
					return true
				}
				return (a == first) == sizeFirst && (b == first) != sizeFirst
			}, "size and number of hash functions aren't decoded in the order they are written")
			put := func(x X) bool {
				s, ok := x.n.I.(*ssa.Store)
				if !ok || x.n.R != nil {
					return false
				}
				ia, ok := s.Addr.(*ssa.IndexAddr)
				return ok && isBits(x.t(V{x.n.C, ia.X}))
			}
			q.need(put, "decoded bits")
			q.named("bloom.Decode/bits").each(isBits, put, "part of the bits isn't restored")
			q.visits(call("encoding/binary.Read"), func(x X) {
				c.expect(hasSuffix(x.argT(1).String(), "LittleEndian"), "bloom.Decode/byte order", x.pos(), "the bits are decoded in another byte order than they are written")
			})
			nw := c.full("dkv/bloom.NewFilter")
			q = c.q("NewFilter", nw)
			q.all(store("dkv/bloom.Filter.size"), func(x X) bool { return x.t(x.stored()).String() == "p0" }, "another size is used")
			q.all(store("dkv/bloom.Filter.hashCount"), func(x X) bool { return x.t(x.stored()).String() == "p1" }, "another number of hash functions is used")
			for _, n := range []int64{1, 63, 64, 65, 128, 129} {
				asg := truth(isParam("0"), n)
				q.when(asg).all(store(ba), func(x X) bool {
					t := x.t(x.stored())
					if t.Op != "make" || len(t.A) == 0 {
						return true
					}
					v, ok := evalTerm(t.A[0], asg)
					return !ok || v*64 >= n
				}, "the filter has fewer bits than its size: adding a key panics")
			}
		})

	rule("fields", "C03 C07 C08 C17",
		"the primitive writers and readers agree on width and byte order, length prefixes count the bytes that follow, readers read in full and report errors",
		func(c *Check) {
			width := map[string]int64{"Uint64": 8, "Uint32": 4, "Tombstone": 1}
			order := map[string]bool{}
			seenOrder := func(x X) {
				for _, o := range []string{"LittleEndian", "BigEndian"} {
					if x.argT(0).Find(func(t *Term) bool { return hasSuffix(t.String(), o) }) != nil || hasPrefixAny(callName(x.common()), "(encoding/binary.l") && o == "LittleEndian" || hasPrefixAny(callName(x.common()), "(encoding/binary.b") && o == "BigEndian" {
						order[o] = true
					}
				}
			}
			isPut := func(x X) bool { cc := x.common(); return cc != nil && hasPrefixAny(callName(cc), "(encoding/binary.") }
			wr := call("(io.Writer).Write")
			full := call("io.ReadFull")
			skip := call("io.CopyN")
			bufLen := func(x X, v V) (int64, bool) {
				t := unslice(x.t(v))
				if t.Op == "make" && len(t.A) > 0 {
					return evalTerm(t.A[0], nil)
				}
				if al, ok := t.V.X.(*ssa.Alloc); ok {
					if p, ok := al.Type().Underlying().(*types.Pointer); ok {
						if ar, ok := p.Elem().Underlying().(*types.Array); ok {
							return ar.Len(), true
						}
					}
				}
				return 0, false
			}
			for _, k := range []string{"Uint64", "Uint32", "Tombstone"} {
				g := c.full("dkv/fields.MustWrite" + k)
				q := c.q("MustWrite"+k, g)
				q.mustPass(wr, exit, "nothing is written")
				q.all(wr, func(x X) bool { n, ok := bufLen(x, x.arg(1)); return !ok || n == width[k] }, "the value is written with another width")
				q.visits(isPut, seenOrder)
				if k != "Tombstone" {
					const big = 1<<31 + 1<<16 + 1<<8 + 1
					q.mustPass(and(isPut, func(x X) bool {
						for i := range x.common().Args {
							if t := x.argT(i); t.Find(isParam("1")) != nil {
								v, ok := evalTerm(t, truth(isParam("1"), big))
								return !ok || v == big
							}
						}
						return false
					}), exit, "the value isn't encoded in full")
					q.all(isPut, func(x X) bool { return hasSuffix(callName(x.common()), k) }, "the value is encoded with another width")
				}
				q.all(exit, func(x X) bool { return x.t(x.result(0)).hasCall("(io.Writer).Write") }, "the number of written bytes isn't returned")
				q.named("MustWrite"+k+"/error").when(func(t *Term) (int64, bool) {
					if resultOf(t, 1, "(io.Writer).Write") {
						return 1, true
					}
					return 0, false
				}).never(exit, "a failed write goes unnoticed")
				r := c.full("dkv/fields.Read" + k)
				w := c.q("Read"+k, r)
				rd := or(full, call("(io.Reader).Read"))
				if k != "Tombstone" {
					rd = full
				}
				w.mustPass(rd, exit, "the value isn't read in full")
				w.all(rd, func(x X) bool {
					n, ok := bufLen(x, x.arg(len(x.common().Args)-1+b2i(x.common().IsInvoke())))
					return !ok || n == width[k]
				}, "another number of bytes is read than written")
				w.visits(isPut, seenOrder)
				w.named("Read"+k+"/error").when(func(t *Term) (int64, bool) {
					if resultOf(t, 1, "io.ReadFull", "(io.Reader).Read") {
						return 1, true
					}
					return 0, false
				}).never(func(x X) bool {
					if !exit(x) {
						return false
					}
					a, _ := r.eval(x.e, x.result(1))
					return a.k == 'n'
				}, "a failed read is reported as a value")
				if k != "Tombstone" {
					ok := resVal("io.ReadFull", 1, 0)
					w.named("Read"+k+"/value").when(ok).all(exit, func(x X) bool {
						return x.t(x.result(0)).Find(func(u *Term) bool {
							return u.Op == "call" && hasPrefixAny(u.S, "(encoding/binary.") && hasSuffix(u.S, k)
						}) != nil
					}, "the value isn't decoded with the width it is written with")
				}
				if s := c.P.lookup("dkv/fields.Skip" + k); s != nil {
					w := c.q("Skip"+k, c.full("dkv/fields.Skip"+k))
					w.mustPass(skip, exit, "the value isn't skipped")
					w.all(skip, func(x X) bool { n, ok := x.val(x.arg(2), nil); return !ok || n == width[k] }, "another number of bytes is skipped than written")
					w.all(exit, func(x X) bool { return x.t(x.result(0)).hasCall("io.CopyN") }, "a failed skip isn't reported")
				}
			}
			// tombstones
			g := c.full("dkv/fields.MustWriteTombstone")
			mark := func(x X) bool {
				s, ok := x.n.I.(*ssa.Store)
				if !ok || x.n.R != nil {
					return false
				}
				ia, ok := s.Addr.(*ssa.IndexAddr)
				if !ok {
					return false
				}
				i, ok := x.val(V{x.n.C, ia.Index}, nil)
				return ok && i == 0
			}
			vals := map[int64]int64{}
			for _, d := range []int64{0, 1} {
				asg := truth(isParam("1"), d)
				vals[d] = 0
				c.q("MustWriteTombstone", g).when(asg).visits(mark, func(x X) {
					if v, ok := x.val(V{x.n.C, x.n.I.(*ssa.Store).Val}, asg); ok {
						vals[d] = v
					} else {
						vals[d] = -1
					}
				})
			}
			r := c.full("dkv/fields.ReadTombstone")
			for d, b := range vals {
				if b < 0 {
					c.soft("tombstone", "the marker isn't understood")
					continue
				}
				asg := both(resVal("(io.Reader).Read", 1, 0), resVal("io.ReadFull", 1, 0), func(t *Term) (int64, bool) {
					if t.Op == "index" && !t.Stale {
						return b, true
					}
					return 0, false
				})
				c.q("ReadTombstone", r).when(asg).all(exit, func(x X) bool {
					v, ok := x.val(x.result(0), asg)
					return !ok || v == d
				}, fmt.Sprintf("marker %d, written for deleted=%d, is read as something else", b, d))
			}
			// byte strings
			w := c.full("dkv/fields.MustWriteVarBytes")
			q := c.q("MustWriteVarBytes", w)
			q.visits(isPut, seenOrder)
			okW := q.when(resVal("(io.Writer).Write", 1, 0))
			okW.mustPass(wr, exit, "nothing is written")
			for _, n := range []int64{9, 1<<16 + 1} {
				size := func(t *Term) (int64, bool) {
					if stripConv(t).String() == "p1" {
						return n, true
					}
					return 0, false
				}
				ks, total, sizes, ok := okW.written(wr, 1, size, resVal("(io.Writer).Write", 1, 0))
				if !ok {
					c.soft("MustWriteVarBytes", "what is written isn't understood")
					break
				}
				okW.hasLayout(ks, total, []want{
					{4, "le|be", func(t *Term) bool {
						v, ok := evalTerm(t, truth(lenOf(isParam("1")), n))
						return ok && v == n
					}, "the number of bytes"},
					{n, "bytes", isParam("1"), "the bytes"},
				})
				sum := func(t *Term) (int64, bool) {
					if cn, ok := callNode(t); ok && extractOf(t, "0", "(io.Writer).Write") {
						if v, ok := sizes[cn]; ok {
							return v, true
						}
					}
					if resultOf(t, 1, "(io.Writer).Write") {
						return 0, true
					}
					return 0, false
				}
				q.when(sum).all(exit, func(x X) bool { v, ok := x.val(x.result(0), sum); return !ok || v == total }, "the number of written bytes is wrong")
			}
			for _, fn := range []string{"ReadVarBytes", "SkipVarBytes"} {
				g := c.full("dkv/fields." + fn)
				q := c.q(fn, g)
				q.visits(isPut, seenOrder)
				dec := func(t *Term) bool { return t.Op == "call" && hasPrefixAny(t.S, "(encoding/binary.") }
				pre := and(full, func(x X) bool { n, ok := bufLen(x, x.arg(1)); return ok && n == 4 })
				okR := q.when(both(resVal("io.ReadFull", 1, 0), truth(dec, 9)))
				okR.mustPass(pre, exit, "the length isn't read")
				if fn == "ReadVarBytes" {
					body := and(full, not(pre))
					okR.mustPass(body, exit, "the bytes aren't read in full")
					okR.all(body, func(x X) bool {
						t := unslice(x.argT(1))
						if t.Op != "make" || len(t.A) == 0 {
							return true
						}
						n, ok := evalTerm(t.A[0], truth(dec, 9))
						m, ok2 := evalTerm(t.A[0], truth(dec, 1<<24+1))
						return (!ok || n == 9) && (!ok2 || m == 1<<24+1)
					}, "another number of bytes is read than the length says")
					okR.all(exit, func(x X) bool { return unslice(x.t(x.result(0))).Op == "make" && x.t(x.result(0)).Find(dec) != nil }, "something other than the bytes is returned")
					q.named(fn+"/error").when(resVal("io.ReadFull", 1, 1)).never(func(x X) bool {
						if !exit(x) {
							return false
						}
						a, _ := g.eval(x.e, x.result(1))
						return a.k == 'n'
					}, "a failed read is reported as a value")
				} else {
					okR.mustPass(skip, exit, "the bytes aren't skipped")
					okR.all(skip, func(x X) bool {
						n, ok := x.val(x.arg(2), truth(dec, 9))
						m, ok2 := x.val(x.arg(2), truth(dec, 1<<24+1))
						return (!ok || n == 9) && (!ok2 || m == 1<<24+1)
					}, "another number of bytes is skipped than the length says")
					okR.all(exit, func(x X) bool { return x.t(x.result(0)).hasCall("io.CopyN") }, "a failed skip isn't reported")
				}
			}
			c.expect(len(order) <= 1, "byte order", c.fn("dkv/fields.ReadUint64").Pos(), "writers and readers use different byte orders")
		})

	rule("cursor", "C03 C07 C08 C17",
		"a cursor reads at its position, never past its end bound, and advances by what it read",
		func(c *Check) {
			cf := func(f string) string { return "dkv/storage.Cursor." + f }
			g := c.full("(*dkv/storage.Cursor).Read")
			q := c.q("Cursor.Read", g)
			ra := call("(io.ReaderAt).ReadAt")
			rd := func(t *Term) (int64, bool) {
				if resultOf(t, 0, "(io.ReaderAt).ReadAt") {
					return 3, true
				}
				if resultOf(t, 1, "(io.ReaderAt).ReadAt") {
					return 0, true
				}
				return 0, false
			}
			sc := func(bounded, off, end int64) Asg {
				return both(rd, roles(role{fieldIs(cf("bounded")), bounded}, role{fieldIs(cf("offset")), off}, role{fieldIs(cf("endBound")), end}, role{fieldIs(cf("startBound")), 0}, role{lenOf(isParam("1")), 8}))
			}
			for _, cs := range [][4]int64{{1, 0, 20, 8}, {1, 12, 20, 8}, {1, 13, 20, 7}, {1, 19, 20, 1}, {0, 13, 0, 8}} {
				asg := sc(cs[0], cs[1], cs[2])
				w := q.named(fmt.Sprintf("Cursor.Read at %d of %d", cs[1], cs[2])).when(asg)
				w.mustPass(ra, exit, "nothing is read")
				w.all(ra, func(x X) bool {
					lo, hi, ok := windowIn(x.argT(1), isParam("1"), 8, asg)
					off, ok2 := x.val(x.arg(2), asg)
					return (!ok || lo == 0 && hi == cs[3]) && (!ok2 || off == cs[1]) && x.argT(0).isFieldOf(cf("File"))
				}, "the read isn't at the cursor's position or not limited to the bytes before the end bound")
				w.endsWith(cf("offset"), cs[1], cs[1]+3, "the position doesn't advance by what was read")
				w.all(exit, func(x X) bool {
					v, ok := x.val(x.result(0), asg)
					a, _ := g.eval(x.e, x.result(1))
					return (!ok || v == 3) && (a.k == 'n' || x.t(x.result(1)).hasCall("(io.ReaderAt).ReadAt"))
				}, "the number of bytes read isn't returned")
			}
			for _, off := range []int64{20, 21} {
				q.named("Cursor.Read at the end").when(sc(1, off, 20)).all(exit, func(x X) bool { return x.t(x.result(1)).String() == "io.EOF" }, "reading at the end bound isn't reported as the end")
			}
			q.named("Cursor.Read/error").when(resVal("(io.ReaderAt).ReadAt", 1, 1)).never(func(x X) bool {
				if !exit(x) || len(c.q("", g).sites(ra)) == 0 {
					return false
				}
				a, _ := g.eval(x.e, x.result(1))
				return a.k == 'n'
			}, "a failed read is reported as successful")
			m := c.full("(*dkv/storage.Cursor).Move")
			w := c.q("Cursor.Move", m)
			for _, cs := range [][2]int64{{1, 0}, {1, 20}, {1, 10}, {0, 50}} {
				asg := both(sc(cs[0], 5, 20), truth(isParam("1"), cs[1]))
				v := w.when(asg)
				v.mustPass(store(cf("offset")), exit, "the position isn't moved")
				v.endsWith(cf("offset"), 5, cs[1], "the position is moved elsewhere")
			}
			o := c.full("(*dkv/storage.Cursor).Offset")
			c.q("Cursor.Offset", o).all(exit, func(x X) bool { return x.t(x.result(0)).isFieldOf(cf("offset")) }, "another position is reported")
			n := c.full("dkv/storage.NewBoundedCursor")
			v := c.q("NewBoundedCursor", n)
			for f, p := range map[string]string{"File": "p0", "startBound": "p1", "endBound": "p2"} {
				v.all(store(cf(f)), func(x X) bool { return stripConv(x.t(x.stored())).String() == p }, "the cursor's "+f+" is something else")
			}
			v.mustPass(and(store(cf("bounded")), func(x X) bool { v, ok := x.val(x.stored(), nil); return !ok || v == 1 }), exit, "the cursor isn't bounded")
		})
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func stripConv(t *Term) *Term {
	for t.Op == "conv" && len(t.A) == 1 {
		t = t.A[0]
	}
	return t
}

func bodyAt(q *Q, ev Ev) map[N]bool {
	out := map[N]bool{}
	for _, x := range q.sites(ev) {
		out[x.n] = true
	}
	return out
}

// decodeLoop checks that as many elements are decoded as the first number read says.
func (q *Q) decodeLoop(rd, set Ev) {
	var first N
	q.visits(rd, func(x X) {
		if first.I == nil {
			first = x.n
		}
	})
	for n := int64(0); n <= 3; n++ {
		var asg Asg
		isFirst := func(t *Term) bool {
			t = stripConv(t)
			cn, ok := callNode(t)
			return ok && cn == first && t.Op == "extract" && t.S == "0"
		}
		asg = both(q.asg, func(t *Term) (int64, bool) {
			if isFirst(t) {
				return n, true
			}
			if t.isCall("builtin.len") && t.A[0].Op == "make" && len(t.A[0].A) > 0 && isFirst(t.A[0].A[0]) {
				return n, true
			}
			return 0, false
		})
		for _, l := range q.when(asg).loops() {
			has := false
			cnt := map[int]bool{}
			trips, ok := l.unroll(asg, 6, func(k int, vals Asg, x X) {
				if set(x) && l.within(x) {
					has = true
					cnt[k] = true
				}
			})
			if !ok || !has && n > 0 {
				continue
			}
			if int64(trips) != n && int64(len(cnt)) != n {
				q.c.fail(q.name, l.start().I.Pos(), "of %d encoded elements %d are decoded", n, trips)
				return
			}
		}
	}
	q.c.ok(q.name)
}

// sizeBeforeFooter: what is kept as the entries' size was read before the footer was written.
func (q *Q) sizeBeforeFooter(st, footer Ev) {
	loads := map[V]bool{}
	q.visits(st, func(x X) {
		switch v := x.stored(); v.X.(type) {
		case *ssa.UnOp, *ssa.Call:
			loads[v] = true
		}
	})
	const written, late = 1, 2
	q.report(q.walk(0, func(s int, x X) (int, bool, string) {
		if footer(x) {
			s |= written
		}
		if v, ok := x.n.I.(ssa.Value); ok && loads[V{x.n.C, v}] {
			s &^= late
			if s&written != 0 {
				s |= late
			}
		}
		if st(x) && s&late != 0 {
			return s, true, "the entries' size is taken after the footer was written: the footer is read as entries"
		}
		return s, false, ""
	}), "")
}
