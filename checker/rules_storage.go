package main

import (
	"fmt"
	"path"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Files: where they are, what is in them and how failures are reported.

// folds: in a string scenario ev is reached and the string get gives there is always want.
func (q *Q) folds(asg Asg, ev Ev, get func(x X) (string, bool), want, why string) {
	n, soft := 0, 0
	w := q.when(asg)
	w.visits(ev, func(x X) {
		n++
		v, ok := get(x)
		if !ok {
			soft++
			return
		}
		q.c.expect(v == want, q.name, x.pos(), "%s: it is %q, not %q", why, v, want)
	})
	if n == 0 {
		q.c.fail(q.name, q.g.Root.Fn.Pos(), "%s: no path does it", why)
	} else if soft > 0 {
		q.c.soft(q.name, "not a foldable string: "+why)
	}
}

// argStr gives the string of argument i (receiver first) in the scenario.
func argStr(i int, asg Asg) func(x X) (string, bool) {
	return func(x X) (string, bool) { return x.str(x.argT(i), asg) }
}

func resStr(i int, asg Asg) func(x X) (string, bool) {
	return func(x X) (string, bool) { return x.str(x.t(x.result(i)), asg) }
}

// listArg gives element i of a variadic argument.
func listArg(arg, i int, asg Asg) func(x X) (string, bool) {
	return func(x X) (string, bool) {
		t := x.argT(arg)
		if i >= len(t.L) {
			return "", false
		}
		return x.str(t.L[i], asg)
	}
}

// fieldStr gives the string (or string pointer) stored in a field of the struct passed as argument i.
func fieldStr(i int, field string, asg Asg) func(x X) (string, bool) {
	return func(x X) (string, bool) {
		v, ok := x.inputField(i, field)
		if !ok {
			return "", false
		}
		return x.deref(v, asg)
	}
}

// reports: when result i of a call is an error the function doesn't succeed.
func (q *Q) reports(name string, i int, why string) {
	if len(q.sites(call(name))) == 0 {
		return
	}
	q.named(q.name+"/failed "+name).when(both(q.asg, errCase(name, i, 1, nil))).neverAfter(call(name), nilErrExit, why)
}

// notFound: a missing file gives the sentinel, other failures another error.
func (q *Q) notFound(name string, i int, isMissing, sentinel string) {
	if len(q.sites(call(name))) == 0 {
		q.c.fail(q.name, q.g.Root.Fn.Pos(), "the file isn't looked up")
		return
	}
	for _, m := range []int64{0, 1} {
		asg := both(q.asg, callVal(isMissing, m), errCase(name, i, 1, map[string]int64{sentinel: 2}))
		w := q.named(fmt.Sprintf("%s/failed, missing %d", q.name, m)).when(asg)
		w.neverAfter(call(name), nilErrExit, "a failure is reported as success")
		w.visits(exit, func(x X) {
			n := q.g.Root.Fn.Signature.Results().Len()
			t := x.t(x.result(n - 1))
			if t.Op == "const" {
				return
			}
			is := x.within(t, func(u *Term) bool { return u.Op == "global" && u.S == sentinel })
			c := q.c
			if m == 1 {
				c.expect(is, q.name, x.pos(), "a missing file isn't reported as missing")
			} else {
				c.expect(!is, q.name, x.pos(), "another failure is reported as a missing file")
			}
		})
	}
}

func inMode(field string, mode int64) Asg { return truth(fieldIs(field), mode) }

func init() {
	const st = "dkv/storage."
	df := func(f string) string { return st + "DiskFile." + f }
	disk := "(*dkv/storage.DiskFile)."
	localFS := "(*dkv/storage.LocalFilesystem)."
	dir := fieldIs(st + "LocalFilesystem.Dir")

	// files of the local file system: where New and Open put them
	type place struct{ dir, path, want string }
	mk := func(c *Check, fn string, p place, extra Asg) map[string]string {
		g := c.full(localFS + fn)
		asg := strs(extra, srole{dir, p.dir}, srole{isParam("1"), p.path})
		return c.q("LocalFilesystem."+fn, g).builds(st+"DiskFile", asg)
	}
	rule("fs.local.path", "C08 C09 C14 C17",
		"a local file is written, renamed, opened, deleted and named at one and the same path, also when it is opened by its URI",
		func(c *Check) {
			for _, p := range []place{
				{"/d", "a.sst", "/d/a.sst"}, {"/d/e", "x/y.wal", "/d/e/x/y.wal"}, {"rel", "000.wal", "rel/000.wal"},
				{"open /d/e", "x/y.wal", "/d/e/x/y.wal"}, {"open /d", "a.sst", "/d/a.sst"}, {"open /d", "/other/b.sst", "/other/b.sst"}, {"open rel", "/other/b.sst", "/other/b.sst"},
			} {
				fn := "New"
				if d, ok := strings.CutPrefix(p.dir, "open "); ok {
					p.dir, fn = d, "Open"
				}
				f := mk(c, fn, p, nil)
				if len(f) == 0 {
					c.soft("LocalFilesystem."+fn, "the file's path isn't recognised")
					continue
				}
				asg := strs(nil, having(f)...)
				name := func(m string) string { return fmt.Sprintf("DiskFile.%s of %s(%s) in %s", m, fn, p.path, p.dir) }
				at := func(m string, asg Asg, ev Ev, get func(x X) (string, bool), want, why string) {
					c.q(name(m), c.full(disk+m)).folds(asg, ev, get, want, why)
				}
				abs := p.want
				if !path.IsAbs(abs) {
					abs = path.Join("/cwd", abs)
				}
				rd := both(inMode(df("fileMode"), 0), truth(fieldIs(df("osFile")), 0), asg)
				wr := both(inMode(df("fileMode"), 1), asg)
				at("ReadAt", rd, call("os.Open"), argStr(0, rd), p.want, "another file is read")
				at("URI", asg, exit, resStr(0, asg), abs, "the URI is another file's")
				at("Delete", rd, call("os.Remove"), argStr(0, rd), p.want, "another file is deleted")
				if fn == "New" {
					at("Save", wr, call("os.Rename"), argStr(1, wr), p.want, "the file is saved elsewhere")
					at("Save", wr, call("os.CreateTemp"), argStr(0, both(truth(fieldIs(df("osFile")), 0), wr)), path.Dir(p.want), "the temporary file isn't in the directory of the file")
					if s := c.q(name("Save"), c.full(disk+"Save")); len(s.sites(call("os.Open"))) > 0 {
						s.folds(wr, call("os.Open"), argStr(0, wr), p.want, "another file than the saved one is read")
					}
				}
				g := c.full(disk + "CreateDeleteFunc")
				var v V
				c.q("DiskFile.CreateDeleteFunc", g).visits(exit, func(x X) { v = x.result(0) })
				if h := c.rootAt(g, v); v.X != nil && h != nil {
					c.q(name("CreateDeleteFunc"), h).visits(call("os.Remove"), func(x X) {
						s, ok := x.str(x.argT(0), asg)
						if !ok && x.argT(0).Op == "alloc" {
							s, ok = x.deref(x.arg(0), asg)
						}
						if !ok {
							c.soft("DiskFile.CreateDeleteFunc", "the path isn't recognised")
							return
						}
						c.expect(s == abs || s == p.want, "DiskFile.CreateDeleteFunc", x.pos(), "it deletes %s, not %s", s, abs)
					})
					dq := c.q("DiskFile.CreateDeleteFunc", h)
					dq.mustPass(call("os.Remove"), nilErrExit, "the file isn't deleted")
					dq.reports("os.Remove", 0, "a failed deletion is reported as success")
				} else {
					c.soft("DiskFile.CreateDeleteFunc", "the returned function isn't recognised")
				}
			}
			for m, want := range map[string]int64{"New": 1, "Open": 0} {
				q := c.q("LocalFilesystem."+m, c.full(localFS+m))
				q.visits(store(df("fileMode")), func(x X) {
					v, ok := x.val(x.stored(), nil)
					c.expect(!ok || v == want, q.name, x.pos(), "the file is in the wrong mode")
				})
			}
			// copies
			cp := c.q("LocalFilesystem.Copy", c.full(localFS+"Copy"))
			isCp := func(x X) bool {
				s, ok := x.argT(0).constStr()
				return call("os/exec.Command")(x) && ok && s == "cp"
			}
			if len(cp.sites(isCp)) == 0 {
				c.soft("LocalFilesystem.Copy", "not a cp command")
				return
			}
			asg := strs(nil, srole{dir, "/d"}, srole{isParam("1"), "/src/a.sst"}, srole{isParam("2"), "x/b.sst"})
			cp.folds(asg, isCp, func(x X) (string, bool) {
				l := x.argT(1).L
				if len(l) < 2 {
					return "", false
				}
				return x.str(l[len(l)-2], asg)
			}, "/src/a.sst", "another file is copied")
			cp.folds(asg, isCp, func(x X) (string, bool) {
				l := x.argT(1).L
				if len(l) < 2 {
					return "", false
				}
				return x.str(l[len(l)-1], asg)
			}, "/d/x/b.sst", "the copy is elsewhere")
			run := func(x X) bool {
				return call("(*os/exec.Cmd).CombinedOutput", "(*os/exec.Cmd).Run")(x) && isCmd(x.argT(0), "cp")
			}
			cp.mustPass(run, nilErrExit, "nothing is copied")
			cp.when(cmdFails("cp")).never(nilErrExit, "a failed copy is reported as success")
		})

	rule("fs.local.save", "C08 C09 C17",
		"a local file appears under its name only by renaming the completely written, synced and closed temporary file; any failure is reported; everything written is passed on",
		func(c *Check) {
			q := c.q("DiskFile.Save", c.full(disk+"Save")).when(inMode(df("fileMode"), 1))
			sync, cls, ren := call("(*os.File).Sync"), call("(*os.File).Close"), call("os.Rename")
			q.mustPass(ren, nilErrExit, "the file isn't saved")
			q.mustPass(sync, nilErrExit, "the data isn't synced: it is lost in a crash")
			q.precede(sync, ren, "the file is renamed before its data is synced")
			q.all(sync, func(x X) bool { return isTmpFile(x.argT(0)) }, "another file is synced")
			q.all(ren, func(x X) bool { return x.argT(0).isCall("(*os.File).Name") && isTmpFile(x.argT(0).A[0]) }, "another file is renamed")
			q.neverAfter(ren, func(x X) bool { return sync(x) && isTmpFile(x.argT(0)) }, "the file is renamed before its data is synced")
			q.mustPass(store(df("fileMode")), nilErrExit, "the saved file can't be deleted and can be written again")
			q.all(store(df("fileMode")), func(x X) bool { v, ok := x.val(x.stored(), nil); return ok && v == 0 }, "the saved file isn't readable")
			q.mustPass(or(store(df("osFile")), func(x X) bool { return false }), nilErrExit, "the saved file is read through the closed temporary file")
			q.all(store(df("osFile")), func(x X) bool {
				t := x.t(x.stored())
				return extractOf(t, "0", "os.Open") || t.Op == "const" || extractOf(t, "0", "os.CreateTemp")
			}, "the file is read through another file")
			q.neverAfter(ren, and(store(df("osFile")), func(x X) bool { return x.t(x.stored()).hasCall("os.CreateTemp") }), "the saved file is read through the closed temporary file")
			for n, i := range map[string]int{"(*os.File).Sync": 0, "(*os.File).Close": 0, "os.Rename": 0, "os.CreateTemp": 1, "os.Open": 1} {
				q.reports(n, i, "a failure is reported as success")
				if n == "(*os.File).Sync" || n == "(*os.File).Close" {
					q.named("DiskFile.Save/failed "+n).when(both(inMode(df("fileMode"), 1), errCase(n, i, 1, nil))).neverAfter(call(n), ren, "a file that couldn't be written completely appears under its name")
				}
			}
			_ = cls
			// writing
			w := c.q("DiskFile.Write", c.full(disk+"Write")).when(inMode(df("fileMode"), 1))
			wr := call("(*os.File).Write")
			w.mustPass(wr, nilErrExit, "data isn't written")
			w.all(wr, func(x X) bool { return isTmpFile(x.argT(0)) && x.argT(1).String() == "p1" }, "something else is written, or it is written elsewhere")
			w.neverAfter(wr, wr, "data is written twice")
			w.reports("(*os.File).Write", 1, "a failed write is reported as success")
			w.reports("os.CreateTemp", 1, "a failed write is reported as success")
			w.all(exit, func(x X) bool {
				t := x.t(x.result(0))
				return t.Op == "const" || extractOf(t, "0", "(*os.File).Write")
			}, "the count of written bytes isn't passed on")
			grow := roles(role{fieldIs(df("size")), 10}, role{func(t *Term) bool { return extractOf(t, "0", "(*os.File).Write") }, 3}, role{lenOf(isParam("1")), 3})
			w.all(store(df("size")), func(x X) bool { v, ok := evalTerm(x.t(x.stored()), grow); return ok && v == 13 }, "the file's size is wrong")
			// nothing writes to the file under its own name
			for _, m := range []string{"Write", "Save"} {
				c.q("DiskFile."+m, c.full(disk+m)).never(call("os.Create", "os.OpenFile", "os.WriteFile"), "the file is written under its own name: a crash leaves part of it")
			}
			// reading
			r := c.q("DiskFile.ReadAt", c.full(disk+"ReadAt"))
			rd := call("(*os.File).ReadAt")
			r.all(rd, func(x X) bool { return x.argT(1).String() == "p1" && x.argT(2).String() == "p2" }, "other bytes are read")
			r.follow(rd, exit, rd, "the file is read twice")
			r.all(exit, func(x X) bool {
				t, e := x.t(x.result(0)), x.t(x.result(1))
				return t.Op == "const" || extractOf(t, "0", "(*os.File).ReadAt") && (extractOf(e, "1", "(*os.File).ReadAt") || e.Op != "const")
			}, "the result of reading isn't passed on")
			r.when(truth(fieldIs(df("osFile")), 0)).notFound("os.Open", 1, "errors.Is", st+"ErrNotFound")
			r.reports("(*os.File).ReadAt", 1, "a failed read is reported as success")
			d := c.q("DiskFile.Delete", c.full(disk+"Delete")).when(inMode(df("fileMode"), 0))
			d.mustPass(call("os.Remove"), nilErrExit, "the file isn't deleted")
			d.reports("os.Remove", 0, "a failed deletion is reported as success")
		})

	memF, memFS := "(*dkv/storage.MemoryFile).", "(*dkv/storage.MemoryFilesystem)."
	mf := func(f string) string { return st + "MemoryFile." + f }
	const mapGet, mapPut, mapDelete = "(*util/ds.LockingMap).Get", "(*util/ds.LockingMap).Put", "(*util/ds.LockingMap).Delete"
	rule("fs.memory", "C07 C08 C09 C14 C17",
		"a file in memory is saved, read, deleted and copied under one and the same path with everything written to it; a missing file is reported as missing",
		func(c *Check) {
			wd := fieldIs(st + "MemoryFilesystem.workingDir")
			for _, p := range []struct{ fn, dir, path, want string }{
				{"New", "/", "a.sst", "/a.sst"}, {"New", "/w", "x/y.wal", "/w/x/y.wal"}, {"New", "/w", "memory:///w/b", "/w/b"}, {"Open", "/w", "x/y.wal", "/w/x/y.wal"},
				{"Open", "/w", "memory:///w/x/y.wal", "/w/x/y.wal"}, {"Open", "/w", "memory:///v/b.sst", "/v/b.sst"}, {"Open", "/", "/v/b.sst", "/v/b.sst"},
			} {
				g := c.full(memFS + p.fn)
				f := c.q("MemoryFilesystem."+p.fn, g).builds(st+"MemoryFile", strs(nil, srole{wd, p.dir}, srole{isParam("1"), p.path}))
				if len(f) == 0 {
					c.soft("MemoryFilesystem."+p.fn, "the file's path isn't recognised")
					continue
				}
				asg := strs(nil, having(f)...)
				rd := both(inMode(mf("fileMode"), 0), truth(fieldIs(mf("didLoad")), 0), asg)
				wr := both(inMode(mf("fileMode"), 1), asg)
				at := func(m string, asg Asg, ev Ev, get func(x X) (string, bool), want, why string) {
					c.q(fmt.Sprintf("MemoryFile.%s of %s(%s) in %s", m, p.fn, p.path, p.dir), c.full(memF+m)).folds(asg, ev, get, want, why)
				}
				at("ReadAt", rd, call(mapGet), argStr(1, rd), p.want, "another file is read")
				at("URI", asg, exit, resStr(0, asg), "memory://"+p.want, "the URI is another file's")
				at("Delete", rd, call(mapDelete), argStr(1, rd), p.want, "another file is deleted")
				if p.fn == "New" {
					at("Save", wr, call(mapPut), argStr(1, wr), p.want, "the file is saved elsewhere")
				}
				d := c.full(memF + "CreateDeleteFunc")
				var v V
				c.q("MemoryFile.CreateDeleteFunc", d).visits(exit, func(x X) { v = x.result(0) })
				if h := c.rootAt(d, v); v.X != nil && h != nil {
					dq := c.q("MemoryFile.CreateDeleteFunc", h)
					dq.mustPass(call(mapDelete), exit, "the file isn't deleted")
					dq.visits(call(mapDelete), func(x X) {
						s, ok := x.str(x.argT(1), asg)
						c.expect(!ok || s == p.want, dq.name, x.pos(), "it deletes %s, not %s", s, p.want)
					})
				}
			}
			for m, want := range map[string]int64{"New": 1, "Open": 0} {
				q := c.q("MemoryFilesystem."+m, c.full(memFS+m))
				q.visits(store(mf("fileMode")), func(x X) {
					v, ok := x.val(x.stored(), nil)
					c.expect(!ok || v == want, q.name, x.pos(), "the file is in the wrong mode")
				})
				q.visits(store(mf("fs")), func(x X) {
					c.expect(x.t(x.stored()).String() == "p0", q.name, x.pos(), "the file belongs to another file system")
				})
			}
			s := c.q("MemoryFile.Save", c.full(memF+"Save")).when(inMode(mf("fileMode"), 1))
			put := call(mapPut)
			s.mustPass(put, nilErrExit, "the file isn't saved")
			s.all(put, func(x X) bool { return x.argT(0).isField("files") && x.argT(2).String() == "p0" }, "another file is saved")
			s.mustPass(store(mf("buf")), nilErrExit, "the saved file is empty")
			s.all(store(mf("buf")), func(x X) bool {
				t := x.t(x.stored())
				return t.Find(func(u *Term) bool { return u.isCall("(*bytes.Buffer).Bytes") && u.A[0].isFieldOf(mf("writer")) }) != nil && t.Op != "slice"
			}, "the saved file hasn't everything written")
			s.precede(store(mf("buf")), put, "the file is visible before its content")
			s.mustPass(store(mf("fileMode")), nilErrExit, "the saved file can't be read")
			s.all(store(mf("fileMode")), func(x X) bool { v, ok := x.val(x.stored(), nil); return ok && v == 0 }, "the saved file can't be read")
			w := c.q("MemoryFile.Write", c.full(memF+"Write")).when(inMode(mf("fileMode"), 1))
			wr := call("(*bytes.Buffer).Write")
			w.mustPass(wr, exit, "data isn't written")
			w.all(wr, func(x X) bool { return x.argT(0).isFieldOf(mf("writer")) && x.argT(1).String() == "p1" }, "something else is written")
			w.neverAfter(wr, wr, "data is written twice")
			grow := roles(role{fieldIs(mf("size")), 10}, role{func(t *Term) bool { return extractOf(t, "0", "(*bytes.Buffer).Write") }, 3}, role{lenOf(isParam("1")), 3})
			w.all(store(mf("size")), func(x X) bool { v, ok := evalTerm(x.t(x.stored()), grow); return ok && v == 13 }, "the file's size is wrong")
			r := c.q("MemoryFile.ReadAt", c.full(memF+"ReadAt")).when(both(inMode(mf("fileMode"), 0), truth(fieldIs(mf("didLoad")), 0)))
			rd := call("(*bytes.Reader).ReadAt")
			found := func(v int64) Asg {
				return both(r.asg, truth(func(t *Term) bool { return extractOf(t, "1", mapGet) }, v), truth(func(t *Term) bool { return extractOf(t, "0", mapGet) }, v))
			}
			r.when(found(1)).all(rd, func(x X) bool { return x.argT(1).String() == "p1" && x.argT(2).String() == "p2" }, "other bytes are read")
			r.when(found(1)).all(exit, func(x X) bool {
				return extractOf(x.t(x.result(0)), "0", "(*bytes.Reader).ReadAt") && extractOf(x.t(x.result(1)), "1", "(*bytes.Reader).ReadAt")
			}, "the result of reading isn't passed on")
			r.when(found(1)).all(or(call("bytes.NewReader"), func(x X) bool { return false }), func(x X) bool {
				t := x.argT(0)
				return t.isFieldOf(mf("buf")) && (t.A[0].String() == "p0" || t.hasCall(mapGet)) || t.isField("buf")
			}, "something other than the saved file is read")
			r.when(found(1)).visits(store(mf("buf")), func(x X) {
				t := x.t(x.stored())
				c.expect(t.isFieldOf(mf("buf")) && t.A[0].hasCall(mapGet), r.name, x.pos(), "something other than the saved file is read")
			})
			m := r.named("MemoryFile.ReadAt/missing").when(found(0))
			m.never(nilErrExit, "a missing file is read as empty")
			m.all(exit, func(x X) bool {
				return x.within(x.t(x.result(1)), func(u *Term) bool { return u.Op == "global" && u.S == st+"ErrNotFound" })
			}, "a missing file isn't reported as missing")
			m.never(store(mf("didLoad")), "a file that is missing now is never found again")
			cq := c.q("MemoryFilesystem.Copy", c.full(memFS+"Copy"))
			asg := strs(truth(func(t *Term) bool { return extractOf(t, "1", mapGet) }, 1), srole{wd, "/w"}, srole{isParam("1"), "memory:///w/a.sst"}, srole{isParam("2"), "x/b.sst"})
			cq.folds(asg, call(mapGet), argStr(1, asg), "/w/a.sst", "another file is copied")
			cq.folds(asg, call(mapPut), argStr(1, asg), "/w/x/b.sst", "the copy is elsewhere")
			cq.when(asg).mustPass(call(mapPut), nilErrExit, "nothing is copied")
			cq.all(call(mapPut), func(x X) bool { return x.argT(2).hasCall(mapGet) }, "something else is copied")
			cq.never(func(x X) bool {
				s, ok := x.n.I.(*ssa.Store)
				if !ok || x.n.R != nil || x.n.After {
					return false
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				return ok && x.t(V{x.n.C, fa.X}).hasCall(mapGet)
			}, "copying changes the source file")
			cq.never(call("(*util/ds.LockingMap).Delete"), "copying removes a file")
			cq.when(truth(func(t *Term) bool { return extractOf(t, "1", mapGet) }, 0)).never(nilErrExit, "a failed copy is reported as success")
			// the same files in another working directory
			wq := c.q("MemoryFilesystem.WithWorkingDir", c.full(memFS+"WithWorkingDir"))
			wq.visits(store(st+"MemoryFilesystem.files"), func(x X) {})
			share := and(store(st+"MemoryFilesystem.files"), func(x X) bool { t := x.t(x.stored()); return t.isField("files") && t.A[0].String() == "p0" })
			wq.mustPass(share, exit, "files saved in one working directory aren't found from another")
			for _, mt := range []string{"Save", "Write", "ReadAt"} {
				g := c.full(memF + mt)
				c.q("MemoryFile."+mt, g).locked(c.mutexOf("dkv/storage.MemoryFile", "mu"), unlocked, "the file is read and written at the same time", func(h int, x X) string {
					for _, f := range []string{"buf", "reader", "didLoad", "size"} {
						if m := lockedAccess(mf(f))(h, x); m != "" {
							return m
						}
					}
					return ""
				})
			}
		})

	const s3in = "s3"
	s3op := func(m string) Ev {
		return call("(storage/objstore.S3Service)."+m, "(*storage/objstore.S3StorageWithUsage)."+m)
	}
	s3err := func(m string, v int64) Asg {
		return both(errCase("(storage/objstore.S3Service)."+m, 1, v, map[string]int64{st + "ErrNotFound": 2, "storage/locations.ErrNotFound": 2}), errCase("(*storage/objstore.S3StorageWithUsage)."+m, 1, v, nil))
	}
	s3missing := func(c *Check, q *Q, m, sentinel string) {
		for _, miss := range []int64{0, 1} {
			w := q.named(fmt.Sprintf("%s/failed, missing %d", q.name, miss)).when(both(q.asg, callVal("errors.As", miss), s3err(m, 1)))
			w.never(nilErrExit, "a failure is reported as success")
			w.visits(exit, func(x X) {
				t := x.t(x.result(q.g.Root.Fn.Signature.Results().Len() - 1))
				is := x.within(t, func(u *Term) bool { return u.Op == "global" && u.S == sentinel })
				c.expect(is == (miss == 1), q.name, x.pos(), "a missing object and another failure aren't told apart")
			})
		}
		q.visits(call("errors.As"), func(x X) {
			c.expect(x.argT(0).hasCall("(storage/objstore.S3Service)."+m, "(*storage/objstore.S3StorageWithUsage)."+m), q.name, x.pos(), "it isn't the request's error that is examined")
		})
	}
	so := func(f string) string { return st + "S3Object." + f }
	s3F := "(*dkv/storage.S3Object)."
	rule("fs.s3", "C08 C09 C14",
		"an S3 file is put, read, deleted and named under one and the same bucket and key, also when it is opened by its URI; failures are reported",
		func(c *Check) {
			for _, p := range []struct{ fn, bucket, prefix, name, wb, wk string }{
				{"New", "b", "", "a.sst", "b", "a.sst"}, {"New", "b", "p", "a.sst", "b", "p/a.sst"}, {"New", "b", "p/q/", "x/a.wal", "b", "p/q/x/a.wal"},
				{"Open", "b", "p", "a.sst", "b", "p/a.sst"}, {"Open", "b", "p/", "s3://b/p/a.sst", "b", "p/a.sst"}, {"Open", "b", "p", "s3://other/x/a.sst", "other", "x/a.sst"}, {"Open", "b", "", "s3://b/a.sst", "b", "a.sst"},
			} {
				fs := c.q("NewS3FileSystem", c.full("dkv/storage.NewS3FileSystem")).builds(st+"S3FileSystem", strs(nil, srole{isParam("1"), p.bucket}, srole{isParam("2"), p.prefix}))
				g := c.full("(*dkv/storage.S3FileSystem)." + p.fn)
				f := c.q("S3FileSystem."+p.fn, g).builds(st+"S3Object", strs(nil, append(having(fs), srole{isParam("1"), p.name})...))
				if len(f) == 0 || len(fs) == 0 {
					c.soft("S3FileSystem."+p.fn, "the object's key isn't recognised")
					continue
				}
				asg := strs(nil, append(having(f), having(fs)...)...)
				rd := both(inMode(so("fileMode"), 0), truth(fieldIs(so("reader")), 0), asg)
				wr := both(inMode(so("fileMode"), 1), asg)
				name := fmt.Sprintf(" of %s(%s) in s3://%s/%s", p.fn, p.name, p.bucket, p.prefix)
				ops := []struct {
					m, op string
					asg   Asg
				}{{"ReadAt", "GetObject", rd}, {"Delete", "DeleteObject", rd}, {"Save", "PutObject", wr}}
				for _, o := range ops {
					if o.m == "Save" && p.fn != "New" {
						continue
					}
					q := c.q("S3Object."+o.m+name, c.full(s3F+o.m))
					q.folds(o.asg, s3op(o.op), fieldStr(2, "Bucket", o.asg), p.wb, "another bucket")
					q.folds(o.asg, s3op(o.op), fieldStr(2, "Key", o.asg), p.wk, "another object")
				}
				c.q("S3Object.URI"+name, c.full(s3F+"URI")).folds(asg, exit, resStr(0, asg), "s3://"+p.wb+"/"+p.wk, "the URI is another object's")
				d := c.full(s3F + "CreateDeleteFunc")
				var v V
				c.q("S3Object.CreateDeleteFunc", d).visits(exit, func(x X) { v = x.result(0) })
				if v.X == nil {
					continue
				}
				if h := c.rootAt(d, v); h != nil {
					dq := c.q("S3Object.CreateDeleteFunc"+name, h)
					dq.mustPass(s3op("DeleteObject"), exit, "the object isn't deleted")
					dq.when(s3err("DeleteObject", 1)).never(nilErrExit, "a failed deletion is reported as success")
					for f, want := range map[string]string{"Bucket": p.wb, "Key": p.wk} {
						dq.visits(s3op("DeleteObject"), func(x X) {
							s, ok := fieldStr(2, f, asg)(x)
							if !ok {
								// a copy made when the function was created
								if w, isIn := x.inputField(2, f); isIn {
									s, ok = x.deref(outer(d, w), asg)
								}
							}
							if !ok {
								c.soft(dq.name, "the deleted object isn't recognised")
								return
							}
							c.expect(s == want, dq.name, x.pos(), "it deletes another object: %s %s, not %s", f, s, want)
						})
					}
				}
			}
			for m, want := range map[string]int64{"New": 1, "Open": 0} {
				q := c.q("S3FileSystem."+m, c.full("(*dkv/storage.S3FileSystem)."+m))
				q.visits(store(so("fileMode")), func(x X) {
					v, ok := x.val(x.stored(), nil)
					c.expect(!ok || v == want, q.name, x.pos(), "the file is in the wrong mode")
				})
			}
			s := c.q("S3Object.Save", c.full(s3F+"Save")).when(inMode(so("fileMode"), 1))
			s.mustPass(s3op("PutObject"), exit, "the object isn't saved")
			s.named("S3Object.Save/failed").when(both(s.asg, s3err("PutObject", 1))).never(nilErrExit, "a failed save is reported as success")
			isAll := func(t *Term) bool {
				return t.isCall("(*bytes.Buffer).Bytes") && t.A[0].isFieldOf(so("buffer"))
			}
			s.all(s3op("PutObject"), func(x X) bool {
				v, ok := x.inputField(2, "Body")
				if !ok {
					return false
				}
				t := x.t(v)
				return t.isCall("bytes.NewReader") && isAll(t.A[0]) || t.isFieldOf(so("buffer"))
			}, "the saved object hasn't everything written")
			s.visits(store(so("reader")), func(x X) {
				t := x.t(x.stored())
				c.expect(t.isCall("bytes.NewReader") && isAll(t.A[0]) || t.Op == "const", s.name, x.pos(), "something other than the saved object is read")
			})
			w := c.q("S3Object.Write", c.full(s3F+"Write")).when(inMode(so("fileMode"), 1))
			wr := call("(*bytes.Buffer).Write")
			w.mustPass(wr, exit, "data isn't written")
			w.neverAfter(wr, wr, "data is written twice")
			w.all(wr, func(x X) bool { return x.argT(0).isFieldOf(so("buffer")) && x.argT(1).String() == "p1" }, "something else is written")
			grow := roles(role{fieldIs(so("size")), 10}, role{func(t *Term) bool { return extractOf(t, "0", "(*bytes.Buffer).Write") }, 3}, role{lenOf(isParam("1")), 3})
			w.all(store(so("size")), func(x X) bool { v, ok := evalTerm(x.t(x.stored()), grow); return ok && v == 13 }, "the file's size is wrong")
			r := c.q("S3Object.ReadAt", c.full(s3F+"ReadAt")).when(truth(fieldIs(so("reader")), 0))
			s3missing(c, r, "GetObject", st+"ErrNotFound")
			r.reports("io.ReadAll", 1, "an object that couldn't be read completely is taken for complete")
			r.when(both(r.asg, errCase("io.ReadAll", 1, 1, nil))).never(and(store(so("reader")), func(x X) bool { return true }), "an object that couldn't be read completely is kept")
			rd := call("(*bytes.Reader).ReadAt")
			r.all(rd, func(x X) bool { return x.argT(1).String() == "p1" && x.argT(2).String() == "p2" }, "other bytes are read")
			r.visits(store(so("reader")), func(x X) {
				c.expect(x.t(x.stored()).hasCall("io.ReadAll"), r.name, x.pos(), "something other than the object is read")
			})
			d := c.q("S3Object.Delete", c.full(s3F+"Delete")).when(both(inMode(so("fileMode"), 0), s3err("DeleteObject", 1)))
			d.never(nilErrExit, "a failed deletion is reported as success")
			// copies
			cq := c.q("S3FileSystem.Copy", c.full("(*dkv/storage.S3FileSystem).Copy"))
			for _, p := range [][3]string{{"s3://other/x/a.sst", "b", "p/d/b.sst"}, {"s3://b/p/a.sst", "b", "p/d/b.sst"}} {
				asg := strs(nil, srole{fieldIs(st + "S3FileSystem.bucket"), p[1]}, srole{fieldIs(st + "S3FileSystem.prefix"), "p/"}, srole{isParam("1"), p[0]}, srole{isParam("2"), "d/b.sst"})
				cq.folds(asg, s3op("CopyObject"), fieldStr(2, "CopySource", asg), p[0][len("s3://"):], "another object is copied")
				cq.folds(asg, s3op("CopyObject"), fieldStr(2, "Bucket", asg), p[1], "the copy is in another bucket")
				cq.folds(asg, s3op("CopyObject"), fieldStr(2, "Key", asg), p[2], "the copy is elsewhere")
			}
			cq.mustPass(s3op("CopyObject"), nilErrExit, "nothing is copied")
			cq.when(s3err("CopyObject", 1)).never(nilErrExit, "a failed copy is reported as success")
		})

	rule("fs.paths", "C06 C08 C13 C14",
		"joining keeps the scheme of a location, a location's scheme decides where its files are, and a whole file is read from its start to its end",
		func(c *Check) {
			q := c.q("storage.Join", c.full("dkv/storage.Join"))
			for _, p := range []struct {
				base string
				rest []string
				want string
			}{{"s3://b/p", []string{"x/y"}, "s3://b/p/x/y"}, {"/d", []string{"a"}, "/d/a"}, {"/d/", []string{"a", "b"}, "/d/a/b"}, {"memory:///d", []string{"x"}, "memory:///d/x"}, {"s3://b", []string{"k"}, "s3://b/k"}, {"memory://", []string{"k"}, "memory://k"}, {"s3://b/p/", nil, "s3://b/p/"}} {
				asg := strs(nil, srole{isParam("0"), p.base}, srole{isParam("1"), list(p.rest)})
				q.named(fmt.Sprintf("storage.Join(%s, %s)", p.base, strings.Join(p.rest, ", "))).folds(asg, exit, resStr(0, asg), p.want, "the location is another one")
			}
			f := c.full("dkv/storage.NewFileSystemFromLocation")
			f.Inline = noInline("dkv/storage.NewS3FileSystemFromURI", noInline("dkv/storage.NewLocalFilesystem", noInline(memFS+"WithWorkingDir", f.Inline)))
			fq := c.q("NewFileSystemFromLocation", f)
			for _, p := range []struct {
				loc, call string
				arg       int
				want      string
			}{{"s3://b/p", "dkv/storage.NewS3FileSystemFromURI", 0, "s3://b/p"}, {"memory:///w", memFS + "WithWorkingDir", 1, "/w"}, {"/d/e", "dkv/storage.NewLocalFilesystem", 0, "/d/e"}, {"rel", "dkv/storage.NewLocalFilesystem", 0, "rel"}} {
				asg := strs(nil, srole{isParam("0"), p.loc})
				fq.named("NewFileSystemFromLocation("+p.loc+")").folds(asg, call(p.call), argStr(p.arg, asg), p.want, "another location")
				fq.when(asg).all(exit, func(x X) bool { return x.t(x.result(0)).hasCall(p.call) }, "another file system is used")
			}
			l := c.full("dkv/storage.NewLocalFilesystem")
			c.q("NewLocalFilesystem", l).folds(strs(nil, srole{isParam("0"), "/d/e"}), store(st+"LocalFilesystem.Dir"), func(x X) (string, bool) {
				return x.str(x.t(x.stored()), strs(nil, srole{isParam("0"), "/d/e"}))
			}, "/d/e", "another directory")
			u := c.full("dkv/storage.NewS3FileSystemFromURI")
			u.Inline = noInline("dkv/storage.NewS3FileSystem", u.Inline)
			uq := c.q("NewS3FileSystemFromURI", u)
			for _, p := range [][3]string{{"s3://b/p/q", "b", "p/q"}, {"s3://b", "b", ""}} {
				asg := strs(nil, srole{isParam("0"), p[0]})
				uq.folds(asg, call("dkv/storage.NewS3FileSystem"), argStr(1, asg), p[1], "another bucket")
				uq.folds(asg, call("dkv/storage.NewS3FileSystem"), argStr(2, asg), p[2], "another prefix")
			}
			r := c.q("storage.ReadAll", c.full("dkv/storage.ReadAll"))
			r.all(exit, func(x X) bool {
				return resultOf(x.t(x.result(0)), 0, "io.ReadAll") && resultOf(x.t(x.result(1)), 1, "io.ReadAll")
			}, "not the whole file is read")
			r.visits(store(st+"Cursor.File"), func(x X) {
				c.expect(x.t(x.stored()).String() == "p0", r.name, x.pos(), "another file is read")
			})
			r.visits(store(st+"Cursor.offset"), func(x X) {
				v, ok := x.val(x.stored(), nil)
				c.expect(ok && v == 0, r.name, x.pos(), "the file isn't read from its start")
			})
		})

	rule("objstore.usage", "C08 C09 C14",
		"counting the requests to S3 changes neither the requests nor their results",
		func(c *Check) {
			for _, m := range []string{"CopyObject", "GetObject", "HeadObject", "ListObjectsV2", "PutObject", "DeleteObject"} {
				fn := "(*storage/objstore.S3StorageWithUsage)." + m
				if c.P.lookup(fn) == nil {
					continue
				}
				q := c.q("S3StorageWithUsage."+m, c.full(fn))
				in := "(storage/objstore.S3Service)." + m
				q.all(call(in), func(x X) bool { return x.argT(2).String() == "p2" }, "another request is made")
				q.neverAfter(call(in), call(in), "the request is made twice")
				q.all(exit, func(x X) bool {
					return extractOf(x.t(x.result(0)), "0", in) && extractOf(x.t(x.result(1)), "1", in)
				}, "the result isn't passed on")
			}
		})
	_ = s3in
}

// outer moves a captured variable of a function literal to the function creating it.
func outer(g *Graph, v V) V {
	fv, ok := v.X.(*ssa.FreeVar)
	if !ok {
		return v
	}
	for _, b := range g.Root.Fn.Blocks {
		for _, i := range b.Instrs {
			mc, ok := i.(*ssa.MakeClosure)
			if !ok || mc.Fn != fv.Parent() {
				continue
			}
			for j, f := range mc.Fn.(*ssa.Function).FreeVars {
				if f == fv {
					return V{g.Root, mc.Bindings[j]}
				}
			}
		}
	}
	return v
}

// isTmpFile matches the temporary file of a file being written.
func isTmpFile(t *Term) bool {
	switch t.Op {
	case "set", "phi":
		for _, a := range t.A {
			if !isTmpFile(a) {
				return false
			}
		}
		return true
	}
	return t.isField("osFile") || extractOf(t, "0", "os.CreateTemp") || t.Op == "const" && t.S == "nil"
}
