package main

import (
	"fmt"
	"go/types"
	"slices"

	"golang.org/x/tools/go/ssa"
)

// The write-ahead log.

func init() {
	wf := func(f string) string { return "dkv/wal.Writer." + f }
	bf := func(f string) string { return "dkv/wal.bufferSegment." + f }
	sealedCase := func(v int64) Asg {
		return func(t *Term) (int64, bool) {
			if t.isCall("(*sync/atomic.Bool).Load", "(*sync/atomic.Bool).Swap") && t.A[0].hasField(wf("sealed")) {
				return v, true
			}
			if t.isCall("(*sync/atomic.Bool).CompareAndSwap") && t.A[0].hasField(wf("sealed")) {
				if old, ok := evalTerm(t.A[1], nil); ok {
					return map[bool]int64{true: 1}[old == v], true
				}
			}
			return 0, false
		}
	}
	walParts := func(del int64) []part {
		return []part{
			{'K', func(x X, v V) bool { return x.t(v).String() == "p1" }},
			{'V', func(x X, v V) bool { return del == 0 && x.t(v).String() == "p2" }},
			{'S', func(x X, v V) bool { return x.t(v).String() == map[int64]string{0: "p3", 1: "p2"}[del] }},
			{'T', func(x X, v V) bool {
				w, ok := x.val(v, nil)
				return ok && w == del
			}},
		}
	}
	orders := func(c *Check) (string, string) {
		dest := func(x X, v V) bool {
			return x.loadedFrom(v, wf("activeBuffer")) || x.t(v).isFieldOf(wf("activeBuffer"))
		}
		live := c.q("Writer.Put/record", c.full("(*dkv/wal.Writer).Put")).when(sealedCase(0)).writeOrder(walParts(0), dest)
		del := c.q("Writer.Delete/record", c.full("(*dkv/wal.Writer).Delete")).when(sealedCase(0)).writeOrder(walParts(1), dest)
		return live, del
	}

	rule("wal.append", "C01 C06 C08 C17",
		"WAL records hold sequence number, key, tombstone marker and, for puts, the value, always in one order, appended to the active buffer; the latest sequence number is recorded; a full buffer is reported; a sealed log rejects writes",
		func(c *Check) {
			live, del := orders(c)
			if live != "" && del != "" {
				c.expect(len(live) == 4 && len(del) == 3 && live[:3] == del && live[3] == 'V', "record layout", c.fn("(*dkv/wal.Writer).Put").Pos(),
					"puts are written as %s and deletes as %s: a reader can't tell where the next record starts", live, del)
			}
			for _, op := range []struct{ name, seq string }{{"Put", "p3"}, {"Delete", "p2"}} {
				g := c.full("(*dkv/wal.Writer)." + op.name)
				q := c.q("Writer."+op.name, g)
				st := store(wf("latestSeqNum"))
				q.when(sealedCase(0)).mustPass(st, exit, "the record's sequence number isn't remembered for the next segment")
				q.all(st, func(x X) bool { return x.t(x.stored()).Op == "const" || x.t(x.stored()).String() == op.seq }, "another sequence number is remembered")
				q.named("Writer."+op.name+" on a sealed log").when(sealedCase(1)).never(or(exit, st), "a sealed log accepts a record")
				for _, n := range []int64{8, 9, 10, 11} {
					asg := both(sealedCase(0), roles(role{fieldIs(wf("maxSize")), 10}, role{lenOf(func(t *Term) bool { return t.isField("buf") }), n}))
					q.when(asg).all(exit, func(x X) bool {
						v, ok := x.val(x.result(0), asg)
						return !ok || v == map[bool]int64{false: 0, true: 1}[n >= 10]
					}, "the log doesn't report that it reached its maximum size, or reports it early")
				}
			}
		})

	rule("wal.read", "C01 C06 C08 C17",
		"reading a WAL decodes records exactly as they are written, skips those up to the start marker and hands out every later one, in order, with its key, value and tombstone; read errors end the replay with an error",
		func(c *Check) {
			live, del := orders(c)
			if len(live) != 4 || len(del) != 3 {
				c.undecided("WAL reader", "the written record layout is unknown")
			}
			g := c.seqBody("(*dkv/wal.Reader).All")
			g.TrackAll = true
			q := c.q("WAL replay", g)
			move := call("(*dkv/storage.Cursor).Move")
			first := func(t *Term) bool { return extractOf(t, "0", fieldsP+"ReadUint64") }
			rr := recordReader{order: live, restart: move, product: isYield, wantAll: true,
				field: map[byte]string{'K': "dkv/wal.Entry.K", 'V': "dkv/wal.Entry.V", 'T': "dkv/wal.Entry.Deleted"}}
			rr.passOver = q.skipLoop()
			ownLoop := rr.passOver != nil
			if !ownLoop {
				// records are passed over by their sequence number
				after := fieldIs("dkv/wal.Reader.startAfter")
				rr.asg = roles(role{first, 6}, role{after, 5})
				rr.skipped = roles(role{first, 5}, role{after, 5})
			}
			q.readsRecords(rr)
			// The number of records skipped: as many as lie between the first record and the start marker.
			isKey := func(x X) bool { k, w, _ := ioKind(x); return k == 'B' && !w }
			_ = isKey
			for _, cs := range [][3]int64{{5, 4, 0}, {5, 5, 1}, {5, 7, 3}, {1, 0, 0}, {1, 2, 2}, {9, 9, 1}} {
				for _, deleted := range []int64{1, 0} {
					if !ownLoop {
						break
					}
					asg := both(noIOErrors, truth(func(t *Term) bool { return extractOf(t, "0", fieldsP+"ReadTombstone") }, deleted), yieldOK,
						roles(role{first, cs[0]}, role{fieldIs("dkv/wal.Reader.startAfter"), cs[1]}))
					q.named("WAL replay/skip").when(asg).countsSkipped(c, cs)
				}
			}
			// errors are handed to the caller
			for _, op := range []string{"ReadUint64", "ReadVarBytes", "ReadTombstone", "SkipUint64", "SkipVarBytes"} {
				ev := call(fieldsP + op)
				if len(q.sites(ev)) == 0 {
					continue
				}
				bad := func(t *Term) (int64, bool) {
					if resultOf(t, 1, fieldsP+op) && op[0] == 'R' || resultOf(t, 0, fieldsP+op) && op[0] == 'S' {
						return 1, true
					}
					if v, ok := noIOErrors(t); ok {
						return v, ok
					}
					if t.isCall("errors.Is") {
						return 0, true
					}
					return 0, false
				}
				q.named("WAL replay/failed "+op).when(bad).follow(ev, func(x X) bool { return isYield(x) && anyErrProduct(x) }, or(exit, ev), "a failed read isn't reported")
			}
			eof := func(t *Term) (int64, bool) {
				if t.isCall("errors.Is") && len(t.A) == 2 {
					return map[bool]int64{true: 1}[t.A[1].String() == "io.EOF"], true
				}
				if resultOf(t, 1, fieldsP+"ReadUint64") || t.String() == "io.EOF" {
					return 1, true
				}
				return otherErrs(t)
			}
			q.named("WAL replay/end").when(eof).never(isYield, "reaching the end of the log is reported as an error or a record")
			nf := func(t *Term) (int64, bool) {
				if t.isCall("errors.Is") && len(t.A) == 2 {
					return map[bool]int64{true: 1}[t.A[1].String() != "io.EOF"], true
				}
				if resultOf(t, 1, fieldsP+"ReadUint64") || t.String() == "dkv/storage.ErrNotFound" {
					return 1, true
				}
				return otherErrs(t)
			}
			q.named("WAL replay/missing file").when(nf).mustPass(func(x X) bool { return isYield(x) && anyErrProduct(x) }, exit, "a missing log file replays as an empty one")
			// what is opened
			n := c.full("dkv/wal.NewReader")
			w := c.q("NewReader", n)
			w.mustPass(store("dkv/wal.Reader.startAfter"), exit, "the start marker isn't taken over")
			w.all(store("dkv/wal.Reader.startAfter"), func(x X) bool { return x.t(x.stored()).isFieldOf("dkv/wal.Handle.After") }, "the start marker isn't the handle's")
			w.all(store("dkv/wal.Reader.file"), func(x X) bool {
				t := x.t(x.stored())
				return t.Find(func(u *Term) bool {
					return u.Op == "call" && (u.S == "(dkv/storage.File).URI" || u.S == "(dkv/wal.Handle).URI") || u.isFieldOf("dkv/wal.Handle.file")
				}) != nil
			}, "another file is read")
		})

	rule("wal.rotate", "C01 C06 C08 C17",
		"rotating a WAL seals it and starts the next file id with all of its data, in order, each segment with its own read position; cutting seals the active segment under the latest sequence number",
		func(c *Check) {
			g := c.full("(*dkv/wal.Writer).Rotate")
			q := c.q("Writer.Rotate", g).when(sealedCase(0))
			seal := func(x X) bool {
				if !call("(*sync/atomic.Bool).CompareAndSwap", "(*sync/atomic.Bool).Store", "(*sync/atomic.Bool).Swap")(x) || !x.argT(0).hasField(wf("sealed")) {
					return false
				}
				to, ok := x.val(x.arg(-1), nil)
				return !ok || to == 1
			}
			q.mustPass(seal, exit, "the rotated log stays writable")
			c.q("Writer.Rotate twice", g).when(sealedCase(1)).never(exit, "a sealed log can be rotated again")
			q.all(store(wf("id")), func(x X) bool {
				v, ok := x.val(x.stored(), roles(role{func(t *Term) bool { return t.isFieldOf(wf("id")) || t.isField("id") }, 6}))
				return !ok || v == 7
			}, "the next log doesn't get the next file number")
			q.all(store(wf("latestSeqNum")), func(x X) bool {
				t := x.t(x.stored())
				return t.Op == "const" || t.isField("latestSeqNum")
			}, "the next log doesn't continue from this log's sequence number")
			q.mustPass(and(store(wf("latestSeqNum")), func(x X) bool { return x.t(x.stored()).isField("latestSeqNum") }), exit, "the next log starts without this log's latest sequence number")
			q.mustPass(and(store(wf("maxSize")), func(x X) bool { t := x.t(x.stored()); return t.isField("maxSize") }), exit, "the next log has another size limit")
			// segments: one new segment per sealed one and one for the active one
			isSealed := func(t *Term) bool { return t.isFieldOf(wf("sealedBuffers")) && (t.Op != "field" || len(t.A) > 0) }
			put := elemOrAppend
			whole := func(x X) bool { // a segment copied as a whole
				s, ok := x.n.I.(*ssa.Store)
				if !ok || x.n.R != nil {
					return false
				}
				_, isPtr := s.Val.Type().(*types.Pointer)
				_, zero := s.Val.(*ssa.Const)
				return typeName(s.Val.Type()) == "dkv/wal.bufferSegment" && !isPtr && !zero
			}
			buf := or(store(bf("buf")), whole)
			q.need(buf, "copied segment")
			fromSeg := func(x X) bool { return whole(x) || x.t(x.stored()).isField("buf") }
			q.all(buf, fromSeg, "a carried segment's data isn't a segment's data")
			if len(q.sites(whole)) > 0 {
				q.precede(whole, store(bf("readOffset")), "a carried segment starts partly consumed")
				q.follow(whole, store(bf("readOffset")), or(whole, exit), "a carried segment starts partly consumed")
			}
			var list *Term // all segments may be collected in one list first
			q.visits(buf, func(x X) {
				if l := segList(x.t(x.stored())); l != nil {
					list = l
				}
			})
			if list != nil {
				want := "[sealed#0 sealed#1 p0.activeBuffer]"
				got, _ := twoSealed.val(list)
				c.expect(fmt.Sprint(got) == want, q.name, g.Root.Fn.Pos(), "two sealed segments and the active one are carried into the next log as %v", got)
				q.each(func(t *Term) bool { return t.String() == list.String() }, put, "a segment isn't carried into the next log")
			} else {
				q.each(isSealed, put, "a sealed segment isn't carried into the next log")
				q.mustPass(and(buf, func(x X) bool { return x.t(x.stored()).hasField(wf("activeBuffer")) }), exit, "the active segment isn't carried into the next log")
			}
			q.visits(store(bf("readOffset")), func(x X) {
				v, ok := x.val(x.stored(), nil)
				c.expect(ok && v == 0, "carried segment", x.pos(), "a carried segment starts partly consumed")
			})
			q.all(elemOrAppend, func(x X) bool {
				v, ok := storedSegment(x)
				if !ok {
					return true
				}
				if list != nil {
					return segList(x.t(v)) == nil
				}
				t := x.t(v)
				return t.Op == "alloc" || t.Op == "unknown" || t.Op == "phi"
			}, "a segment is shared with the next log: saving this log consumes it, so the next one is saved without it")
			q.never(func(x X) bool {
				segs := func(t *Term) bool { return isSealed(unslice(t)) }
				switch {
				case list != nil: // the list itself refers to the segments, the next log's must not
					if !store(wf("sealedBuffers"))(x) {
						return false
					}
					v, ok := twoSealed.val(x.t(x.stored()))
					return ok && (slices.Contains(v, "sealed#0") || slices.Contains(v, "p0.activeBuffer"))
				case call("builtin.copy")(x), call("builtin.append")(x):
					return segs(x.argT(1))
				case call("slices.Clone")(x):
					return segs(x.argT(0))
				case call("slices.Concat")(x):
					return x.argT(0).Find(segs) != nil || anyOf(x.argT(0).L, segs)
				case store(wf("sealedBuffers"))(x):
					return segs(x.t(x.stored()))
				}
				return false
			}, "the segments are shared with the next log: saving this log consumes them, so the next one is saved without them")
			// the copied data and sequence number belong to the same segment
			q.pairedSegments(c, bf)
			q.all(store(wf("activeBuffer")), func(x X) bool { return x.t(x.stored()).Op == "alloc" }, "the next log's active segment isn't a fresh one")

			// Cut
			cut := c.full("(*dkv/wal.Writer).Cut")
			k := c.q("Writer.Cut", cut).when(sealedCase(0))
			sb, ab, ls := store(wf("sealedBuffers")), store(wf("activeBuffer")), store(bf("latestSeqNum"))
			k.mustPass(sb, exit, "the active segment isn't sealed")
			k.mustPass(ab, exit, "no new active segment is started")
			k.mustPass(ls, exit, "the sealed segment doesn't know its latest sequence number")
			k.all(ls, func(x X) bool { return x.t(x.stored()).isFieldOf(wf("latestSeqNum")) }, "the sealed segment gets another sequence number")
			k.all(sb, func(x X) bool {
				t := x.t(x.stored())
				if !t.isCall("builtin.append") {
					return true
				}
				return t.A[0].isFieldOf(wf("sealedBuffers"))
			}, "the sealed segments before it are lost or reordered")
			filled := map[V]bool{}
			k.visits(store(bf("buf")), func(x X) {
				if t := x.t(x.stored()); t.isField("buf") && t.A[0].String() == "p0.activeBuffer" && !t.Stale {
					filled[x.t(V{x.n.C, x.n.I.(*ssa.Store).Addr.(*ssa.FieldAddr).X}).V] = true
				}
			})
			k.all(sb, func(x X) bool {
				t := x.t(x.stored())
				if !t.isCall("builtin.append") || len(t.A[1].L) != 1 {
					return true
				}
				s := t.A[1].L[0]
				if s.Op == "alloc" { // a new segment with the active one's data
					return filled[s.V]
				}
				return s.String() == "p0.activeBuffer" && !s.Stale
			}, "something else than the active segment is sealed")
			k.all(ab, func(x X) bool { return x.t(x.stored()).Op == "alloc" }, "the new active segment isn't a fresh one")
			c.q("Writer.Cut on a sealed log", cut).when(sealedCase(1)).never(or(sb, ab), "a sealed log is changed")

			// sealedBuffers and truncation are guarded
			for _, op := range []string{"Rotate", "Cut", "Truncate"} {
				h := c.full("(*dkv/wal.Writer)." + op)
				c.q("Writer."+op+"/lock", h).locked(wf("mu"), unlocked, "", func(held int, x X) string {
					if (load(wf("sealedBuffers"))(x) || store(wf("sealedBuffers"))(x)) && held != wlocked && x.ownReceiver() {
						return "the sealed segments are used without holding the writer's mutex: a concurrent truncation gets lost or loses segments"
					}
					return ""
				})
			}
		})

	rule("wal.truncate", "C01 C06 C08 C17",
		"truncation keeps, in order, every segment from the first one holding a later sequence number on",
		func(c *Check) {
			g := c.full("(*dkv/wal.Writer).Truncate")
			c.q("Writer.Truncate on a sealed log", g).when(sealedCase(1)).never(store(wf("sealedBuffers")), "a sealed log is changed")
			isBuf := func(t *Term) bool { return t.isFieldOf(wf("sealedBuffers")) }
			c.truncation(g, isBuf, func(t *Term) bool { return t.isField("latestSeqNum") }, sealedCase(0), wf("sealedBuffers"))
		})

	rule("wal.save", "C01 C06 C08 C17",
		"saving a sealed WAL writes every sealed segment in order and then the active one before it saves the file; errors are returned; unsealed logs can't be saved",
		func(c *Check) {
			g := c.full("(*dkv/wal.Writer).Save")
			q := c.q("Writer.Save", g).when(sealedCase(1))
			cp := call("io.Copy", "io.CopyBuffer", "(dkv/storage.File).Write", "(io.Writer).Write")
			isFile := func(x X) bool { return x.loadedFrom(x.arg(0), wf("file")) || x.argT(0).isFieldOf(wf("file")) }
			// all segments may be collected in one list first
			var list *Term
			inList := func(x X) bool {
				l := segList(x.argT(1))
				if l != nil {
					list = l
				}
				return l != nil
			}
			active := and(cp, func(x X) bool { return x.argT(1).hasField(wf("activeBuffer")) && !inList(x) })
			sealedSeg := and(cp, func(x X) bool { return x.argT(1).hasField(wf("sealedBuffers")) && !inList(x) })
			save := and(call("(dkv/storage.File).Save"), func(x X) bool { return x.argT(0).isFieldOf(wf("file")) })
			q.all(cp, isFile, "a segment is written to something other than the log's file")
			copied := func(v int64) Asg {
				var as []Asg
				for _, n := range []string{"io.Copy", "io.CopyBuffer", "(dkv/storage.File).Write", "(io.Writer).Write"} {
					as = append(as, resVal(n, 1, v))
				}
				return both(as...)
			}
			noErr := both(sealedCase(1), copied(0))
			ok := q.named("Writer.Save/no errors").when(noErr)
			if q.visits(and(cp, inList), func(X) {}); list != nil {
				want := "[sealed#0 sealed#1 p0.activeBuffer]"
				got, _ := twoSealed.val(list)
				c.expect(fmt.Sprint(got) == want, q.name, g.Root.Fn.Pos(), "two sealed segments and the active one are saved as %v", got)
				all := func(t *Term) bool { return t.String() == list.String() }
				ok.each(all, cp, "a segment isn't written")
				ok.coversAll(all, "a segment isn't written")
			} else {
				ok.each(func(t *Term) bool { return t.isFieldOf(wf("sealedBuffers")) }, cp, "a sealed segment isn't written")
				ok.mustPass(active, exit, "the active segment isn't written")
				ok.precede(active, save, "the file is saved before the active segment is written")
				ok.neverAfter(active, sealedSeg, "segments are written out of order")
			}
			ok.mustPass(save, exit, "the file isn't saved")
			ok.neverAfter(save, cp, "data is written after the file is saved")
			q.visits(elemLoad(func(t *Term) bool { return t.isFieldOf(wf("sealedBuffers")) }), func(x X) {})
			fail := q.named("Writer.Save/failed copy").when(both(sealedCase(1), copied(1)))
			fail.neverAfter(cp, or(save, nilErrExit), "a failed write is reported as a saved log")
			fs := q.named("Writer.Save/failed save").when(both(noErr, callVal("(dkv/storage.File).Save", 1)))
			fs.never(nilErrExit, "a failed save is reported as a saved log")
			c.q("Writer.Save unsealed", g).when(sealedCase(0)).never(or(cp, save), "a log that still accepts records is saved")

			// the segment as reader and writer
			r := c.full("(*dkv/wal.bufferSegment).Read")
			isBufLen := lenOf(func(t *Term) bool { return t.isField("buf") })
			off := func(t *Term) bool { return t.isField("readOffset") }
			for _, cs := range [][2]int64{{5, 0}, {5, 4}, {5, 5}, {0, 0}} {
				asg := roles(role{isBufLen, cs[0]}, role{off, cs[1]}, role{func(t *Term) bool { return t.isCall("builtin.copy") }, 1})
				w := c.q("bufferSegment.Read", r).when(asg)
				if cs[1] >= cs[0] {
					w.all(exit, func(x X) bool { return x.t(x.result(1)).String() == "io.EOF" }, "the end of a segment isn't reported as such")
				} else {
					w.mustPass(call("builtin.copy"), exit, "data left in the segment isn't read")
					w.all(exit, func(x X) bool {
						a, _ := r.eval(x.e, x.result(1))
						v, ok := x.val(x.result(0), asg)
						return a.k == 'n' && (!ok || v == 1)
					}, "a successful read doesn't report the copied count and no error")
					w.all(call("builtin.copy"), func(x X) bool {
						lo, _, ok := window(x.argT(1), func(u *Term) bool { return u.isField("buf") }, cs[0])
						if s := x.argT(1); s.Op == "slice" && s.A[1].S != "" {
							v, okk := evalTerm(s.A[1], asg)
							return !okk || v == cs[1]
						}
						return !ok || lo == cs[1]
					}, "data is read from another position")
					w.mustPass(store(bf("readOffset")), exit, "the read position doesn't advance: the same data is read again")
					w.all(store(bf("readOffset")), func(x X) bool { v, ok := x.val(x.stored(), asg); return !ok || v == cs[1]+1 }, "the read position doesn't advance by what was read")
				}
			}
			wr := c.full("(*dkv/wal.bufferSegment).Write")
			w := c.q("bufferSegment.Write", wr)
			w.mustPass(store(bf("buf")), exit, "written data isn't kept")
			w.all(store(bf("buf")), func(x X) bool {
				t := x.t(x.stored())
				return !t.isCall("builtin.append") || t.A[0].isField("buf") && t.A[1].String() == "p1"
			}, "written data isn't appended as it is")
		})

	rule("wal.handle", "C01 C06 C08 C09 C14 C17",
		"a WAL handle refers to its own file and id, carries the start marker, and survives its document",
		func(c *Check) {
			g := c.full("(*dkv/wal.Writer).Handle")
			q := c.q("Writer.Handle", g)
			hf := func(f string) string { return "dkv/wal.Handle." + f }
			for f, want := range map[string]func(t *Term) bool{
				"ID": fieldIs(wf("id")), "file": fieldIs(wf("file")), "After": isParam("1"),
			} {
				q.mustPass(store(hf(f)), exit, "the handle's "+f+" isn't set")
				q.all(store(hf(f)), func(x X) bool { return want(x.t(x.stored())) }, "the handle's "+f+" is something else")
			}
			d := c.full("(dkv/wal.Handle).Document")
			q = c.q("Handle.Document", d)
			df := func(f string) string { return "dkv/wal.HandleDocument." + f }
			q.mustPass(store(df("URI")), exit, "the document lacks the file")
			q.mustPass(store(df("After")), exit, "the document lacks the start marker")
			q.all(store(df("URI")), func(x X) bool {
				t := x.t(x.stored())
				return t.isCall("(dkv/storage.File).URI") && t.A[0].isField("file")
			}, "the document names another file")
			q.all(store(df("After")), func(x X) bool { return x.t(x.stored()).isField("After") }, "the document has another start marker")
			n := c.full("dkv/wal.NewHandle")
			q = c.q("NewHandle", n)
			q.mustPass(store(hf("After")), exit, "the start marker isn't restored")
			q.mustPass(store(hf("file")), exit, "the file isn't restored")
			q.mustPass(store(hf("ID")), exit, "the id isn't restored")
			q.all(store(hf("After")), func(x X) bool { return x.t(x.stored()).isField("After") }, "another start marker is restored")
			q.all(store(hf("file")), func(x X) bool {
				t := x.t(x.stored())
				return t.isCall("(dkv/storage.FileSystem).Open") && t.A[1].isField("URI")
			}, "another file is restored")
			q.all(store(hf("ID")), func(x X) bool {
				return x.t(x.stored()).Find(func(u *Term) bool { return u.isField("URI") }) != nil
			}, "the id isn't the file's")
			del := c.full("(dkv/wal.Handle).Delete")
			q = c.q("Handle.Delete", del)
			q.mustPass(call("(dkv/storage.File).Delete"), exit, "the file isn't deleted")
			q.all(call("(dkv/storage.File).Delete"), func(x X) bool { return x.argT(0).isField("file") }, "another file is deleted")
			q.reports("(dkv/storage.File).Delete", 0, "a failed deletion isn't reported")
			ri := c.full("dkv/wal.NewWriter")
			q = c.q("NewWriter", ri)
			q.all(store(wf("id")), func(x X) bool { return x.t(x.stored()).String() == "p1" }, "the log gets another id")
			q.all(store(wf("maxSize")), func(x X) bool { return x.t(x.stored()).String() == "p2" }, "the log gets another size limit")
			q.all(call("(dkv/storage.FileSystem).New"), func(x X) bool {
				return x.within(x.argT(1), func(u *Term) bool { return u.String() == "p1" })
			}, "the log's file isn't named after its id")
		})
}

// elemOrAppend: an element of a slice of segments is set or appended.
var twoSealed = seqs{base: func(t *Term) (string, int, bool) {
	return "sealed", 2, t.isFieldOf("dkv/wal.Writer.sealedBuffers") && !t.Stale
}}

// segList is the list of the sealed segments and the active one that t is an element of (or of an element of).
func segList(t *Term) *Term {
	var list *Term
	t.Find(func(t *Term) bool {
		if t.Op != "index" || t.A[0].Op != "call" {
			return false
		}
		if v, ok := twoSealed.val(t.A[0]); !ok || !slices.Contains(v, "p0.activeBuffer") {
			return false
		}
		list = t.A[0]
		return true
	})
	return list
}

func elemOrAppend(x X) bool {
	_, ok := storedSegment(x)
	return ok
}

func storedSegment(x X) (V, bool) {
	if s, ok := x.n.I.(*ssa.Store); ok && x.n.R == nil {
		if _, ok := s.Addr.(*ssa.IndexAddr); ok && typeName(s.Val.Type()) == "dkv/wal.bufferSegment" {
			return V{x.n.C, s.Val}, true
		}
	}
	return V{}, false
}

// ownReceiver: the accessed struct is the root's receiver.
func (x X) ownReceiver() bool {
	var addr ssa.Value
	switch i := x.n.I.(type) {
	case *ssa.Store:
		addr = i.Addr
	case *ssa.UnOp:
		addr = i.X
	default:
		return true
	}
	if fa, ok := addr.(*ssa.FieldAddr); ok {
		return x.t(V{x.n.C, fa.X}).String() == "p0"
	}
	return true
}

func isTombstoneRead(x X) bool { k, w, _ := ioKind(x); return k == 'T' && !w }

// skipLoop is the loop that reads records without handing them out.
func (q *Q) skipLoop() *Loop {
	asg := both(noIOErrors, yieldOK)
	for _, l := range q.when(asg).loops() {
		yields, ops := false, false
		l.step(asg, func(x X) {
			if l.within(x) {
				yields = yields || isYield(x)
				ops = ops || isTombstoneRead(x)
			}
		})
		if ops && !yields {
			return l
		}
	}
	return nil
}

// countsSkipped: with the first record's number, the start marker and the count of cs, exactly that many records are passed over.
func (q *Q) countsSkipped(c *Check, cs [3]int64) {
	isOp := isTombstoneRead
	if l := q.skipLoop(); l != nil {
		skips := map[int]bool{}
		n, ok := l.unroll(q.asg, 8, func(k int, _ Asg, x X) {
			if isOp(x) && l.within(x) {
				skips[k] = true
			}
		})
		if n > 8 {
			c.fail(q.name, l.start().I.Pos(), "with first record %d and start marker %d, more than %d records are skipped: some kinds of record aren't counted", cs[0], cs[1], cs[2])
			return
		}
		if !ok {
			c.soft(q.name, "the loop that skips records isn't understood")
			return
		}
		if n := len(skips); int64(n) != cs[2] {
			c.fail(q.name, l.start().I.Pos(), "with first record %d and start marker %d, %d records are skipped instead of %d", cs[0], cs[1], n, cs[2])
			return
		}
		c.ok(q.name)
		return
	}
	c.soft(q.name, "no loop skips records")
}

// pairedSegments: a carried segment's data and sequence number come from the same place.
func (q *Q) pairedSegments(c *Check, bf func(string) string) {
	cell := func(x X) V { return V{x.n.C, x.n.I.(*ssa.Store).Addr.(*ssa.FieldAddr).X} }
	from := map[V]string{}
	kind := func(t *Term) string {
		switch {
		case t.hasField("dkv/wal.Writer.activeBuffer"):
			return "active"
		case t.isFieldOf("dkv/wal.Writer.latestSeqNum"):
			return "active"
		case t.hasField("dkv/wal.Writer.sealedBuffers"):
			return "sealed"
		}
		return ""
	}
	q.visits(store(bf("buf")), func(x X) { from[cell(x)] = kind(x.t(x.stored())) })
	seqs := map[V]bool{}
	good := true
	// does writing keep the active segment's own sequence number up to date?
	activeKnows := len(c.q("Writer.Put", c.full("(*dkv/wal.Writer).Put")).sites(store(bf("latestSeqNum")))) > 0
	q.visits(store(bf("latestSeqNum")), func(x X) {
		k := kind(x.t(x.stored()))
		seqs[cell(x)] = true
		if x.t(x.stored()).hasField("dkv/wal.Writer.activeBuffer") && !activeKnows {
			good = false
			c.fail(q.name, x.pos(), "the active segment gets a sequence number that is only set when it is sealed, so its entries are truncated too early")
		}
		if f := from[cell(x)]; k != "" && f != "" && f != k {
			good = false
			c.fail(q.name, x.pos(), "a carried %s segment gets the sequence number of the %s one", f, k)
		}
	})
	for v, f := range from {
		if f != "" && !seqs[v] {
			good = false
			c.fail(q.name, v.X.Pos(), "a carried segment has no sequence number, so it is truncated too early")
		}
	}
	if good {
		c.ok(q.name + "/segments")
	}
}

// truncation: the kept part of a list of segments starts with the first one whose sequence number is later than parameter 1.
func (c *Check) truncation(g *Graph, isBuf, isSeq func(*Term) bool, base Asg, field string) {
	vals := []int64{5, 8, 11}
	elemSeq := func(more Asg) Asg {
		return func(t *Term) (int64, bool) {
			if !isSeq(t) || t.Stale || len(t.A) == 0 {
				return 0, false
			}
			e := t.A[0]
			for e.Op == "field" && len(e.A) > 0 && e.S != "" && e.A[0].Op == "index" {
				e = e.A[0]
			}
			if e.Op != "index" || !isBuf(unslice(e.A[0])) {
				return 0, false
			}
			i, ok := elemIndex(e, more)
			if !ok || i < 0 || i >= int64(len(vals)) {
				return 0, false
			}
			return vals[i], true
		}
	}
	for _, cs := range [][2]int64{{4, 0}, {5, 1}, {7, 1}, {8, 2}, {10, 2}, {11, 3}, {12, 3}} {
		name := "Writer.Truncate"
		q := c.q(name, g)
		asg0 := both(base, lenAsg(isBuf, 3), truth(isParam("1"), cs[0]))
		understood := false
		for _, l := range q.when(asg0).loops() {
			if len(l.phis) == 0 {
				continue
			}
			got := map[[2]int64]bool{}
			unknown, kept := false, false
			// element values depend on the loop variables of the iteration
			var full Asg
			full = func(t *Term) (int64, bool) {
				if v, ok := asg0(t); ok {
					return v, ok
				}
				return 0, false
			}
			l.scenario = func(vals Asg) Asg { return both(vals, elemSeq(vals), full) }
			_, ok := l.unroll(full, 5, func(k int, here Asg, x X) {
				if store(field)(x) {
					t := x.t(x.stored())
					if a, _ := g.eval(x.e, x.stored()); a.k == 'n' {
						got[[2]int64{3, 3}] = true
						return
					}
					if t.Op == "make" {
						got[[2]int64{3, 3}] = true
						return
					}
					lo, hi, ok := windowIn(t, isBuf, 3, here)
					if !ok {
						unknown = true
					}
					if lo >= hi {
						lo, hi = 3, 3
					}
					got[[2]int64{lo, hi}] = true
				}
				if exit(x) {
					kept = true
				}
			})
			if !ok || unknown {
				continue
			}
			understood = true
			if len(got) == 0 && kept {
				got[[2]int64{0, 3}] = true
			}
			want := [2]int64{cs[1], 3}
			for w := range got {
				if w[0] > want[0] || w[1] != want[1] { // keeping covered segments is harmless: replays skip them
					c.fail(name, l.start().I.Pos(), "with segments up to %v, truncating to %d keeps segments %d..%d instead of %d..3", vals, cs[0], w[0], w[1], cs[1])
					return
				}
			}
		}
		if !understood {
			c.soft(name, "the truncation isn't a loop over the segments that is understood")
			return
		}
	}
	c.ok("Writer.Truncate")
}

func anyOf(ts []*Term, p func(*Term) bool) bool {
	for _, t := range ts {
		if p(t) {
			return true
		}
	}
	return false
}
