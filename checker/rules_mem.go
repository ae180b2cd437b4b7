package main

import "go/token"

// Memtables, entry merging, the merge iterator and the zip tree.

func init() {
	rule("kv.order", "C03 C06 C07 C18 C19",
		"entries of several tables are merged in key order, and of two entries with the same key the one with the higher sequence number is kept",
		func(c *Check) {
			g := c.full("dkv/kv.MergeEntries")
			q := c.q("kv.MergeEntries", g)
			m := call("dkv/mergesort.Merge")
			q.need(m, "merge")
			q.all(m, func(x X) bool { return x.argT(0).String() == "p0" }, "not all the given iterators are merged")
			if h := q.fnArg(m, 1); h != nil {
				c.signTable("merge order", h, attr(isParam("0"), "Key", "key"), attr(isParam("1"), "Key", "key"), "entries aren't merged in ascending key order")
			} else {
				c.soft("merge order", "comparison isn't a function literal")
			}
			if h := q.fnArg(m, 2); h != nil {
				sa, sb := attr(isParam("0"), "SeqNum", "seqNum"), attr(isParam("1"), "SeqNum", "seqNum")
				for _, s := range []int64{-1, 1} {
					c.q("merge pick", h).when(both(order(sa, sb, s), roles(role{sa, 10 + s}, role{sb, 10}))).all(exit, func(x X) bool {
						want := "p0"
						if s < 0 {
							want = "p1"
						}
						r := x.t(x.result(0)).String()
						return r == want || r != "p0" && r != "p1"
					}, "the older of two entries with the same key is kept")
				}
			} else {
				c.soft("merge pick", "selection isn't a function literal")
			}
		})

	rule("merge.iter", "C03 C07 C18 C19",
		"the deduplicating merge advances the iterator it took an item from, pushes what it yields, replaces equal items by the picked one, yields an item once a different one follows and yields the last one",
		func(c *Check) {
			g := c.full("dkv/mergesort.Merge")
			q := c.q("mergesort.Merge", g)
			push, pop := call("(*util/ds.Heap).Push"), call("(*util/ds.Heap).Pop")
			pull := func(x X) bool { c := x.common(); return c != nil && callName(c) == "iter.Pull" }
			q.each(isParam("0"), or(pull, call("iter.Pull")), "an input iterator is left out")
			nh := call("util/ds.NewHeap")
			if h := q.fnArg(nh, 0); h != nil {
				a := func(t *Term) bool { return t.Find(strIs("p0")) != nil && t.Op != "call" }
				b := func(t *Term) bool { return t.Find(strIs("p1")) != nil && t.Op != "call" }
				for _, s := range []int64{-1, 0, 1} {
					asg := func(t *Term) (int64, bool) {
						if t.Op == "call" && t.S == "" && len(t.A) == 3 {
							if a(t.A[1]) && b(t.A[2]) {
								return s, true
							}
							if b(t.A[1]) && a(t.A[2]) {
								return -s, true
							}
						}
						return 0, false
					}
					c.q("mergesort heap order", h).when(asg).all(exit, func(x X) bool {
						v, ok := x.val(x.result(0), asg)
						return !ok || sign(v) == s
					}, "the heap isn't ordered by the given comparison")
				}
			}
			b := c.seqBody("dkv/mergesort.Merge")
			w := c.q("mergesort.Merge iterator", b)
			popOK := func(v int64) Asg { return resVal("(*util/ds.Heap).Pop", 1, v) }
			next := and(callOf(func(t *Term) bool { return t.Op != "closure" }), func(x X) bool { return len(x.common().Args) == 0 })
			w.when(popOK(1)).follow(pop, next, or(pop, exit), "the iterator an item came from isn't advanced")
			nextOK := func(v int64) Asg {
				return func(t *Term) (int64, bool) {
					if t.Op == "extract" && t.S == "1" && t.A[0].Op == "call" && t.A[0].S == "" {
						return v, true
					}
					return 0, false
				}
			}
			w.when(both(popOK(1), nextOK(1))).follow(next, push, or(pop, exit), "an item read from an iterator is dropped")
			w.when(both(popOK(1), nextOK(0))).never(push, "an exhausted iterator contributes an item")
			isCmp := func(t *Term) bool {
				return t.Op == "call" && t.S == "" && len(t.A) == 3 && hasSuffix(t.A[0].String(), "p1")
			}
			w.when(both(popOK(1), truth(isCmp, 0))).never(isYield, "an item is yielded although the next one is the same")
			w.when(both(popOK(1), truth(isCmp, 1))).reached(isYield, "an item followed by a different one isn't yielded")
			cmpCall := callOf(func(t *Term) bool { return hasSuffix(t.String(), "p1") && t.Op == "param" })
			w.when(both(popOK(1), truth(isCmp, -1))).follow(cmpCall, isYield, or(pop, exit), "an item followed by a different one isn't yielded")
			end := *w
			end.name = "mergesort.Merge iterator/end"
			end.mark = func(s int, x X, a Atom) int {
				if a.Op == token.ILLEGAL && resultOf(b.Term(x.e, a.X), 1, "(*util/ds.Heap).Pop") {
					if a.Val {
						return 0
					}
					return 1
				}
				return s
			}
			last := false
			end.walk(0, func(s int, x X) (int, bool, string) {
				last = last || s == 1 && isYield(x)
				return s, false, ""
			})
			c.expect(last, end.name, b.Root.Fn.Pos(), "the last item isn't yielded")
		})

	rule("memlist.get", "C03 C07 C08",
		"the memtable list is searched from the newest table to the oldest; the first table that has the key (even deleted) answers, and only a miss in every table is a miss",
		func(c *Check) {
			g := c.full("(*dkv/memtable.List).Get")
			q := c.q("List.Get", g)
			get := call("(*dkv/ziptree.ZipTree).Get")
			q.need(get, "table lookup")
			q.all(get, func(x X) bool {
				if o := g.visitOrder(x.e, x.recvTable()); o != 0 {
					return o < 0
				}
				return true
			}, "tables are searched oldest first, so an overwritten or deleted value is returned")
			q.all(get, func(x X) bool { return x.argT(1).String() == "p1" }, "another key is looked up")
			q.when(resVal("(*dkv/ziptree.ZipTree).Get", 1, 1)).notBetween(get, get, exit, "the search goes on after a table that has the key")
			hit := q.named("List.Get/hit").when(resVal("(*dkv/ziptree.ZipTree).Get", 1, 1))
			hit.allAfter(get, exit, func(x X) bool {
				a, _ := g.eval(x.e, x.result(1))
				return a.k != 'x' && x.t(x.result(1)).Op != "global"
			}, "a table's entry isn't returned")
			miss := q.named("List.Get/miss").when(both(resVal("(*dkv/ziptree.ZipTree).Get", 1, 0), roles(role{func(t *Term) bool { return t.Op == "global" && t.S == "dkv/kv.ErrNotFound" }, 9})))
			miss.all(exit, func(x X) bool {
				return x.t(x.result(1)).Find(func(t *Term) bool { return t.Op == "global" && t.S == "dkv/kv.ErrNotFound" }) != nil
			}, "a key in none of the tables isn't reported as not found")
		})

	rule("memlist.queue", "C03 C07 C08",
		"writes go to the last table of the memtable list, sealed tables are all but the last, rotation appends a new table, dequeuing removes exactly the given tables from the front, scans merge every table",
		func(c *Check) {
			tables := func(t *Term) bool { return t.Op == "field" && t.S == "tables" || t.isCall("builtin.append") }
			for _, op := range []string{"Put", "Delete"} {
				g := c.full("(*dkv/memtable.List)." + op)
				put := call("(*dkv/ziptree.ZipTree).Put")
				q := c.q("List."+op, g)
				q.mustPass(put, exit, "the write isn't applied")
				q.all(put, func(x X) bool {
					ix := x.argT(0).Find(func(t *Term) bool { return t.Op == "index" })
					if ix == nil {
						return true
					}
					v, ok := evalTerm(ix.A[1], truth(lenOf(func(*Term) bool { return true }), 7))
					return !ok || v == 6
				}, "the write doesn't go to the active (last) table")
			}
			g := c.full("(*dkv/memtable.List).Sealed")
			c.q("List.Sealed", g).all(exit, func(x X) bool {
				t := x.t(x.result(0))
				if t.Op != "slice" {
					return !tables(t)
				}
				a := truth(lenOf(func(*Term) bool { return true }), 7)
				hi, ok := evalTerm(t.A[2], a)
				lo, okl := evalTerm(t.A[1], a)
				if ok && hi != 6 || t.A[2].S == "" && t.A[2].Op == "const" {
					return false
				}
				return !okl || lo == 0
			}, "the sealed tables aren't all but the last")
			isTables := fieldIs("dkv/memtable.List.tables")
			four := seqs{base: func(t *Term) (string, int, bool) {
				if isParam("1")(t) {
					return "p", 1, true
				}
				return "t", 4, isTables(t)
			}}
			r := c.full("(*dkv/memtable.List).Rotate")
			q := c.q("List.Rotate", r)
			st := store("dkv/memtable.List.tables")
			q.mustPass(st, exit, "no new active table is added")
			q.all(st, func(x X) bool {
				t := x.t(x.stored())
				if !t.isCall("builtin.append") {
					return true
				}
				v, ok := four.val(t)
				return t.A[0].Find(func(u *Term) bool { return u.isField("tables") }) != nil && (!ok || len(v) == 5 && v[0] == "t#0" && v[3] == "t#3")
			}, "the new active table isn't appended to the existing ones")
			q.never(overwrites(isTables), "tables that a reader holds are overwritten in place")
			q.locked("dkv/memtable.List.tablesMu", unlocked, "", lockedAccess("dkv/memtable.List.tables"))
			d := c.full("(*dkv/memtable.List).Dequeue")
			q = c.q("List.Dequeue", d)
			popped := false // one table at a time
			for _, x := range q.sites(st) {
				popped = popped || inLoop(x)
			}
			if popped {
				q.each(isParam("1"), st, "the tables aren't removed")
			} else {
				q.mustPass(st, exit, "the tables aren't removed")
			}
			q.all(st, func(x X) bool {
				v, ok := four.val(x.t(x.stored()))
				return !ok || len(v) == 3 && v[0] == "t#1" && v[2] == "t#3"
			}, "the list doesn't keep exactly the tables after the removed ones")
			q.never(overwrites(isTables), "tables that a reader holds are overwritten in place")
			q.locked("dkv/memtable.List.tablesMu", unlocked, "", lockedAccess("dkv/memtable.List.tables"))
			for _, m := range []string{"Get", "Put", "ScanPrefix", "Sealed"} {
				h := c.full("(*dkv/memtable.List)." + m)
				c.q("List."+m+"/lock", h).locked("dkv/memtable.List.tablesMu", unlocked, "", lockedAccess("dkv/memtable.List.tables"))
			}
			s := c.full("(*dkv/memtable.List).ScanPrefix")
			q = c.q("List.ScanPrefix", s)
			scan := call("(*dkv/memtable.MemTable).ScanPrefix")
			s.Inline = noInline("(*dkv/memtable.MemTable).ScanPrefix", s.Inline)
			q.each(func(t *Term) bool { return t.isFieldOf("dkv/memtable.List.tables") }, scan, "a table is left out of the scan")
			q.all(scan, func(x X) bool { return x.argT(1).String() == "p1" }, "another prefix is scanned")
			q.all(exit, func(x X) bool {
				return x.t(x.result(0)).Find(func(t *Term) bool { return t.isCall("dkv/kv.MergeEntries") }) != nil
			}, "the tables aren't merged keeping the newest entry")
		})

	rule("memtable.entry", "C03 C07 C08",
		"a memtable records a put with its value and a delete as a tombstone, both with the given sequence number, reads them back as such, and yields every entry of a scan including deletes",
		func(c *Check) {
			for _, op := range []string{"Put", "Delete"} {
				g := c.full("(*dkv/memtable.MemTable)." + op)
				q := c.q("MemTable."+op, g)
				put := call("(*dkv/ziptree.ZipTree).Put")
				q.mustPass(put, exit, "the entry isn't stored")
				node := call("dkv/ziptree.NewNode")
				if len(q.sites(node)) > 0 {
					q.all(node, func(x X) bool {
						return x.argT(0).String() == "p1" && (op != "Put" || x.argT(1).String() == "p2") && (op != "Delete" || x.argT(1).String() == "nil")
					}, "the entry isn't stored under its key with its value")
				}
				seq := store("dkv/memtable.meta.seqNum")
				q.all(seq, func(x X) bool {
					want := "p3"
					if op == "Delete" {
						want = "p2"
					}
					return x.t(x.stored()).String() == want
				}, "the entry isn't stored with its sequence number")
				// the flag written must be the one read back by isDelete
			}
			del := map[string]string{}
			for _, op := range []string{"Put", "Delete"} {
				g := c.full("(*dkv/memtable.MemTable)." + op)
				v := "0"
				c.q("flag of "+op, g).visits(store("dkv/memtable.meta.flag"), func(x X) { v = x.t(x.stored()).String() })
				del[op] = v
			}
			c.expect(del["Put"] != del["Delete"], "MemTable put/delete flags", 0, "puts and deletes are recorded with the same flag %s", del["Put"])
			gg := c.full("(*dkv/memtable.MemTable).Get")
			for op, want := range map[string]int64{"Put": 0, "Delete": 1} {
				v, ok := parseInt(del[op])
				if !ok {
					c.soft("flag of "+op, "flag isn't a constant")
					continue
				}
				asg := both(roles(role{func(t *Term) bool { return t.Op == "field" && t.S == "flag" }, v}), resVal("(*dkv/ziptree.ZipTree).Get", 1, 1))
				q := c.q("reading an entry of "+op, gg).when(asg)
				q.all(store("dkv/memtable.Entry.isDelete"), func(x X) bool {
					r, ok := x.val(x.stored(), asg)
					return !ok || r == want
				}, "an entry isn't read back as the operation that wrote it")
			}
			for f, want := range map[string]string{"key": "Key", "value": "Value", "seqNum": "seqNum"} {
				c.q("entry "+f, gg).all(store("dkv/memtable.Entry."+f), func(x X) bool { return lastField(x.t(x.stored())) == want }, "an entry is read back with another "+f)
			}
			q := c.q("MemTable.Get", gg)
			q.named("MemTable.Get/found").when(resVal("(*dkv/ziptree.ZipTree).Get", 1, 1)).all(exit, func(x X) bool { return isNilT(x, x.result(1), "-") }, "an entry of the table isn't returned")
			q.named("MemTable.Get/missing").when(resVal("(*dkv/ziptree.ZipTree).Get", 1, 0)).all(exit, func(x X) bool { return x.t(x.result(1)).String() == "dkv/kv.ErrNotFound" }, "a missing key isn't reported as not found")
			for _, m := range []string{"ScanPrefix", "All"} {
				b := c.seqBody("(*dkv/memtable.MemTable)." + m)
				w := c.q("MemTable."+m, b)
				// the iterator may be made before the returned function runs
				asc := callOf(func(t *Term) bool { return t.isCall("(*dkv/ziptree.ZipTree).AscendPrefix") })
				w.all(asc, func(x X) bool {
					t := x.t(V{x.n.C, x.common().Value}).A[1].String()
					return m == "All" && (t == "nil" || t == "zero") || m == "ScanPrefix" && t == "p1" || hasSuffix(t, "p1")
				}, "the wrong entries are scanned")
				coll := func(t *Term) bool { return t.isCall("(*dkv/ziptree.ZipTree).AscendPrefix") }
				w.each(coll, isYield, "an entry (possibly a delete, which must mask older entries) is left out")
			}
		})

	rule("memtable.full", "C07 C08",
		"a memtable's size grows by each stored entry, shrinks by what it replaces, and the table is full beyond its limit",
		func(c *Check) {
			for _, op := range []string{"Put", "Delete"} {
				g := c.full("(*dkv/memtable.MemTable)." + op)
				size := fieldIs("dkv/memtable.MemTable.size")
				kvs := func(t *Term) bool { return t.isCall("dkv/sst.KVFlushSize", "dkv/sst.FlushSize") }
				repl := func(t *Term) bool {
					return kvs(t) && t.Find(func(u *Term) bool { return u.isCall("(*dkv/ziptree.ZipTree).Put") }) != nil
				}
				asg := func(replaced int64) Asg {
					return roles(role{size, 100}, role{repl, 7}, role{kvs, 20}, role{func(t *Term) bool { return t.isCall("(*dkv/ziptree.ZipTree).Put") }, replaced})
				}
				st := store("dkv/memtable.MemTable.size")
				for r, want := range map[int64]int64{0: 120, 1: 113} {
					q := c.q("MemTable."+op+" size", g).when(asg(r))
					// the last store of every path
					q.report(q.walk(0, func(s int, x X) (int, bool, string) {
						if st(x) {
							v, ok := x.val(x.stored(), asg(r))
							if !ok {
								return -1, false, ""
							}
							return int(v), false, ""
						}
						if exit(x) && s != -1 && s != int(want) {
							return s, true, "the size doesn't match the entries stored"
						}
						return s, false, ""
					}), "")
				}
				for _, k := range []struct{ size, limit, want int64 }{{201, 200, 1}, {100, 200, 0}} {
					a := roles(role{fieldIs("dkv/memtable.MemTable.memSize"), k.limit}, role{size, k.size}, role{kvs, 0}, role{func(t *Term) bool { return t.isCall("(*dkv/ziptree.ZipTree).Put") }, 0})
					c.q("MemTable."+op+" full", g).when(a).all(exit, func(x X) bool {
						v, ok := x.val(x.result(0), a)
						return !ok || v == k.want
					}, "the table isn't reported full beyond its limit, or is before it")
				}
			}
		})

	rule("ziptree.search", "C03 C07 C19",
		"the zip tree descends left for smaller keys and right for greater ones, finds equal keys, and keeps that order when inserting, replacing and scanning",
		func(c *Check) {
			left, right := load("dkv/ziptree.Node.left"), load("dkv/ziptree.Node.right")
			stL, stR := store("dkv/ziptree.Node.left"), store("dkv/ziptree.Node.right")
			isKey := func(t *Term) bool { return t.String() == "p1" || t.String() == "p1.Key" }
			isNode := func(t *Term) bool { return t.Op == "field" && t.S == "Key" && t.String() != "p1.Key" }
			g := c.full("(*dkv/ziptree.ZipTree).Get")
			q := c.q("ZipTree.Get", g)
			lt, eq, gt := q.when(order(isKey, isNode, -1)), q.when(order(isKey, isNode, 0)), q.when(order(isKey, isNode, 1))
			lt.never(right, "a key smaller than the node's is searched to its right")
			lt.reached(left, "a key smaller than the node's isn't searched to its left")
			gt.never(left, "a key greater than the node's is searched to its left")
			gt.reached(right, "a key greater than the node's isn't searched to its right")
			eq.never(or(left, right), "the search goes past a node with the key")
			found := func(v int64) Ev {
				return and(exit, func(x X) bool {
					r, ok := x.val(x.result(1), nil)
					if !ok {
						a, _ := g.eval(x.e, x.result(1))
						return a.k == map[int64]byte{0: 'f', 1: 't'}[v]
					}
					return r == v
				})
			}
			eq.reached(and(exit, not(found(0))), "a present key isn't found")
			lt.never(found(1), "an absent key is found")
			gt.never(found(1), "an absent key is found")

			p := c.full("(*dkv/ziptree.ZipTree).Put")
			q = c.q("ZipTree.Put", p)
			old := func(x X) bool { return true }
			_ = old
			lt, eq, gt = q.when(order(isKey, isNode, -1)), q.when(order(isKey, isNode, 0)), q.when(order(isKey, isNode, 1))
			// every node compares greater: the new node becomes the leftmost
			isNew := func(x X, side string) bool {
				s, ok := x.n.I.(*ssaStore)
				if !ok {
					return false
				}
				return x.t(V{x.n.C, s.Addr}).String() == "p1."+side
			}
			notNil := func(x X) bool {
				a, _ := p.eval(x.e, x.stored())
				return a.k != 'n'
			}
			newVal := func(x X) bool { return x.t(x.stored()).String() == "p1" }
			lt.never(and(stR, newVal), "a smaller node becomes a right child")
			gt.never(and(stL, newVal), "a greater node becomes a left child")
			lt.reached(and(stL, newVal), "a smaller node isn't inserted to the left")
			gt.reached(and(stR, newVal), "a greater node isn't inserted to the right")
			lt.never(and(stL, func(x X) bool { return isNew(x, "left") }, notNilTree), "a subtree of greater keys is put left of the new node")
			gt.never(and(stR, func(x X) bool { return isNew(x, "right") }, notNilTree), "a subtree of smaller keys is put right of the new node")
			lt.named("ZipTree.Put/unzip smaller").never(right, "the search path of a smaller key goes right")
			gt.named("ZipTree.Put/unzip greater").never(left, "the search path of a greater key goes left")
			_ = notNil
			// replacement keeps both subtrees and the rank
			for side, ev := range map[string]Ev{"left": stL, "right": stR} {
				eq.named("ZipTree.Put/replace keeps "+side).mustPass(and(ev, func(x X) bool {
					return isNew(x, side) && lastField(x.t(x.stored())) == side
				}), and(exit, func(x X) bool { a, _ := p.eval(x.e, x.result(0)); return a.k == 'x' || replacedRet(x) }), "replacing a node loses its "+side+" subtree")
			}
			eq.named("ZipTree.Put/replace keeps rank").mustPass(store("dkv/ziptree.Node.rank"), and(exit, replacedRet), "replacing a node loses its rank")
			link := or(and(store("dkv/ziptree.ZipTree.root"), newVal), and(or(stL, stR), newVal))
			q.named("ZipTree.Put/link").mustPass(link, exit, "the node isn't linked into the tree")

			b := c.seqBody("(*dkv/ziptree.ZipTree).AscendPrefix")
			isPre := func(t *Term) bool { return hasSuffix(t.String(), "p1") && t.Op == "param" }
			q = c.q("ZipTree.AscendPrefix", b)
			push := and(call("builtin.append"), func(x X) bool { return true })
			pre := func(s int64, has int64) Asg {
				return both(order(isPre, isNode, s), roles(role{func(t *Term) bool { return t.isCall("bytes.HasPrefix") && isNode(t.A[0]) && isPre(t.A[1]) }, has}))
			}
			q.when(pre(-1, 1)).reached(isYield, "entries with the prefix aren't yielded")
			q.when(pre(0, 1)).reached(isYield, "the entry equal to the prefix isn't yielded")
			q.when(pre(-1, 0)).never(isYield, "an entry without the prefix is yielded")
			q.when(pre(1, 0)).never(or(isYield, push), "an entry before the prefix is yielded")
			q.when(pre(1, 0)).never(left, "the scan looks for the prefix left of smaller keys")
			q.when(pre(1, 0)).reached(right, "the scan doesn't look for the prefix right of smaller keys")
			q.named("ZipTree.AscendPrefix/after a yield").when(both(pre(-1, 1), yieldOK)).follow(isYield, right, or(isYield, exit), "the right subtree of a yielded node isn't scanned")
		})
}

func replacedRet(x X) bool { return x.t(x.result(0)).Op != "const" }

// notNilTree: the stored subtree isn't known to be nil on this path.
func notNilTree(x X) bool {
	a, _ := x.g.eval(x.e, x.stored())
	return a.k == 'x'
}

// recvTable is the table whose zip tree is searched at this point.
func (x X) recvTable() V {
	t := x.argT(0) // table.zt
	for t != nil && t.Op == "field" && len(t.A) > 0 {
		t = t.A[0]
	}
	if t == nil {
		return V{}
	}
	return t.V
}

// lockedAccess: the field is read or replaced only while the mutex is held (for writing, when replaced).
func lockedAccess(field string) func(h int, x X) string {
	return func(h int, x X) string {
		if store(field)(x) && h != wlocked {
			return field + " is replaced without the lock"
		}
		if load(field)(x) && h == unlocked {
			return field + " is read without the lock"
		}
		return ""
	}
}

func noInline(name string, base func(*Ctx, *ssaFunction) bool) func(*Ctx, *ssaFunction) bool {
	return func(c *Ctx, f *ssaFunction) bool { return fname(f) != name && base(c, f) }
}
