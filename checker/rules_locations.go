package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Storage locations: where snapshots and savepoints are written, listed and read.

func init() {
	const loc = "storage/locations."
	const notFound = loc + "ErrNotFound"
	dirM := "(*storage/locations.LocalDirectory)."
	dirPath := fieldIs(loc + "LocalDirectory.Path")

	isCp := func(x X) bool {
		if !call("os/exec.Command")(x) {
			return false
		}
		s, ok := x.argT(0).constStr()
		return ok && s == "cp"
	}
	rule("loc.local.path", "C13 C14",
		"a directory's files are written, read, removed, listed, named and copied at one and the same absolute path, whether they are given by a relative path or by the one returned",
		func(c *Check) {
			for _, base := range []string{"/d", "/d/e/", "rel"} {
				asg := strs(nil, srole{isParam("0"), base})
				f := c.q("NewLocalDirectory", c.full("storage/locations.NewLocalDirectory")).builds(loc+"LocalDirectory", asg)
				p, ok := f[loc+"LocalDirectory.Path"]
				if !ok {
					c.soft("NewLocalDirectory", "the directory's path isn't recognised")
					continue
				}
				want := strings.TrimSuffix(base, "/")
				if base == "rel" {
					want = "/cwd/rel"
				}
				c.expect(strings.HasPrefix(p, "/"), "NewLocalDirectory", c.fn("storage/locations.NewLocalDirectory").Pos(), "the directory %q has the path %q: files listed in it can't be told apart from files relative to it", base, p)
				for _, file := range []string{"a.snapshot", "x/b.savepoint", "abs"} {
					full := want + "/" + file
					arg := file
					if file == "abs" {
						full = want + "/x/c"
						arg = full
					}
					asg := strs(nil, srole{dirPath, p}, srole{isParam("1"), arg})
					q := func(m string) *Q {
						return c.q(fmt.Sprintf("LocalDirectory.%s(%s) in %s", m, arg, base), c.full(dirM+m))
					}
					if file != "abs" {
						q("Write").folds(asg, call("os.Rename"), argStr(1, asg), full, "the file is written elsewhere")
						q("Write").when(asg).visits(nilErrExit, func(x X) {
							s, ok := x.str(x.t(x.result(0)), asg)
							c.expect(!ok || s == full, "LocalDirectory.Write", x.pos(), "the returned URI %q isn't the file's path %q", s, full)
						})
						q("Write").folds(asg, call("os.CreateTemp"), argStr(0, asg), full[:strings.LastIndex(full, "/")], "the temporary file isn't in the directory of the file")
						q("URI").when(asg).visits(nilErrExit, func(x X) {
							s, ok := x.str(x.t(x.result(0)), asg)
							c.expect(!ok || s == full || strings.ReplaceAll(s, "//", "/") == full, "LocalDirectory.URI", x.pos(), "the URI %q isn't the file's path %q", s, full)
						})
					}
					q("Read").folds(asg, call("os.Open", "os.ReadFile"), argStr(0, asg), full, "another file is read")
					isName := func(t *Term) bool { return t.Op == "index" && isParam("1")(unslice(t.A[0])) }
					el := strs(nil, srole{dirPath, p}, srole{isName, arg})
					q("Remove").folds(el, call("os.Remove"), argStr(0, el), full, "another file is removed")
					cp := strs(nil, srole{dirPath, p}, srole{isParam("1"), "/src/s"}, srole{isParam("2"), arg})
					if cq := q("Copy"); len(cq.sites(isCp)) > 0 {
						last := func(k int) func(x X) (string, bool) {
							return func(x X) (string, bool) {
								l := x.argT(1).L
								if len(l) < 2 {
									return "", false
								}
								return x.str(l[len(l)-k], cp)
							}
						}
						cq.folds(cp, isCp, last(2), "/src/s", "another file is copied")
						cq.folds(cp, isCp, last(1), full, "the copy is elsewhere")
					}
				}
				l := c.full(dirM + "List")
				var v V
				c.q("LocalDirectory.List", l).visits(exit, func(x X) { v = x.result(0) })
				if v.X == nil {
					continue
				}
				if h := c.rootAt(l, v); h != nil {
					asg := strs(nil, srole{dirPath, p}, srole{func(t *Term) bool { return t.isField("Path") }, p})
					c.q("LocalDirectory.List of "+base, h).folds(asg, call("path/filepath.WalkDir", "path/filepath.Walk"), argStr(0, asg), strings.TrimSuffix(p, "/"), "another directory is listed")
				}
			}
		})

	rule("loc.local.io", "C12 C13 C14",
		"a written file appears only once it is complete, a read gives all of it or an error, a missing file is told apart from a failure, listing gives every file, and removing goes on after a missing one",
		func(c *Check) {
			w := c.q("LocalDirectory.Write", c.full(dirM+"Write"))
			cp, ren := call("io.Copy"), call("os.Rename")
			w.mustPass(ren, nilErrExit, "the file isn't written")
			w.precede(cp, ren, "the file appears before its content")
			w.precede(call("(*os.File).Close"), ren, "the file appears before its content")
			w.all(cp, func(x X) bool {
				return x.argT(1).String() == "p2" && x.argT(0).hasCall("os.CreateTemp")
			}, "something else is written, or it is written under the final name")
			w.all(ren, func(x X) bool { return x.argT(0).isCall("(*os.File).Name") && x.argT(0).hasCall("os.CreateTemp") }, "another file is renamed")
			w.never(call("os.Create", "os.OpenFile", "os.WriteFile"), "the file is written under its final name: a crash leaves part of it")
			w.neverAfter(call("os.Remove"), ren, "the written file is removed")
			for _, e := range []struct {
				n string
				i int
			}{{"os.MkdirAll", 0}, {"os.CreateTemp", 1}, {"io.Copy", 1}, {"(*os.File).Close", 0}, {"os.Chmod", 0}, {"os.Rename", 0}} {
				w.reports(e.n, e.i, "a failed write is reported as success")
				if e.n == "io.Copy" || e.n == "(*os.File).Close" {
					w.named("LocalDirectory.Write/failed "+e.n).when(errCase(e.n, e.i, 1, nil)).neverAfter(call(e.n), ren, "a partially written file appears under its name")
				}
			}
			r := c.q("LocalDirectory.Read", c.full(dirM+"Read"))
			if len(r.sites(call("os.Open"))) > 0 {
				r.notFound("os.Open", 1, "errors.Is", notFound)
				r.reports("io.ReadAll", 1, "part of a file is taken for all of it")
				r.all(and(okExit, func(x X) bool { return nilErrExit(x) || x.t(x.result(0)).String() != "nil" }), func(x X) bool { return extractOf(x.t(x.result(0)), "0", "io.ReadAll") }, "something other than the file's content is returned")
				r.notBetween(call("os.Open"), call("(*os.File).Close"), call("io.ReadAll"), "the file is closed before it is read")
			} else {
				r.notFound("os.ReadFile", 1, "errors.Is", notFound)
			}
			u := c.q("LocalDirectory.URI", c.full(dirM+"URI"))
			u.notFound("os.Stat", 1, "errors.Is", notFound)
			m := c.q("LocalDirectory.Remove", c.full(dirM+"Remove"))
			m.each(isParam("1"), call("os.Remove"), "a file isn't removed")
			m.named("LocalDirectory.Remove/missing file").when(both(errCase("os.Remove", 0, 1, nil), callVal("errors.As", 1), callVal("errors.Is", 1))).each(isParam("1"), call("os.Remove"), "files following a missing one aren't removed")
			m.named("LocalDirectory.Remove/failed").when(both(errCase("os.Remove", 0, 1, nil), callVal("errors.As", 0), callVal("errors.Is", 0))).neverAfter(call("os.Remove"), nilErrExit, "a failure is reported as success")
			k := c.q("LocalDirectory.Copy", c.full(dirM+"Copy"))
			if len(k.sites(call("os.Stat"))) > 0 {
				k.notFound("os.Stat", 1, "errors.Is", notFound)
			}
			run := func(x X) bool {
				return call("(*os/exec.Cmd).CombinedOutput", "(*os/exec.Cmd).Run")(x) && isCmd(x.argT(0), "cp")
			}
			if len(k.sites(isCp)) > 0 {
				k.mustPass(run, nilErrExit, "nothing is copied")
				k.when(cmdFails("cp")).never(nilErrExit, "a failed copy is reported as success")
			}
			// listing
			l := c.full(dirM + "List")
			var v V
			c.q("LocalDirectory.List", l).visits(exit, func(x X) { v = x.result(0) })
			h := c.rootAt(l, v)
			if h == nil {
				c.soft("LocalDirectory.List", "the listing isn't a function literal")
				return
			}
			h.Inline = func(_ *Ctx, f *ssa.Function) bool { return pkgOf(f) == "storage/locations" }
			q := c.q("LocalDirectory.List", h)
			walk := call("path/filepath.WalkDir", "path/filepath.Walk")
			q.mustPass(walk, exit, "nothing is listed")
			b := q.fnArg(walk, 1)
			if b == nil {
				c.soft("LocalDirectory.List", "the visitor isn't a function literal")
				return
			}
			bq := c.q("LocalDirectory.List visitor", b)
			yield := func(x X) bool {
				cc := x.common()
				return cc != nil && x.n.R == nil && !cc.IsInvoke() && cc.StaticCallee() == nil && len(cc.Args) == 2 && callName(cc) != "builtin.len"
			}
			isErr := isParam("2")
			isDir := func(v int64) Asg {
				return func(t *Term) (int64, bool) {
					if t.Op == "call" && strings.HasSuffix(t.S, ".IsDir") {
						return v, true
					}
					return 0, false
				}
			}
			fileAsg := both(isDir(0), truth(isErr, 0))
			bq.named("LocalDirectory.List/file").when(fileAsg).mustPass(yield, exit, "a file isn't listed")
			bq.named("LocalDirectory.List/file").when(fileAsg).all(yield, func(x X) bool {
				return x.t(V{x.n.C, x.common().Args[0]}).String() == "p0"
			}, "the listed path isn't the file's")
			goOn := func(y int64) Asg {
				return both(fileAsg, func(t *Term) (int64, bool) {
					if t.Op == "call" && t.V.X != nil && len(t.A) >= 2 && isBoolV(t.V) && !strings.HasSuffix(t.S, ".IsDir") && !strings.Contains(t.S, "errors.") {
						return y, true
					}
					return 0, false
				})
			}
			bq.named("LocalDirectory.List/go on").when(goOn(1)).all(exit, func(x X) bool {
				a, _ := b.eval(x.e, x.result(0))
				return a.k == 'n'
			}, "listing stops after the first file")
			bq.named("LocalDirectory.List/stop").when(goOn(0)).never(nilErrExit, "listing goes on after it was stopped")
			bq.named("LocalDirectory.List/directory").when(both(isDir(1), truth(isErr, 0))).never(yield, "a directory is listed as a file")
			bq.named("LocalDirectory.List/directory").when(both(isDir(1), truth(isErr, 0))).all(exit, func(x X) bool {
				a, _ := b.eval(x.e, x.result(0))
				return a.k == 'n'
			}, "files in directories aren't listed")
			bq.named("LocalDirectory.List/failure").when(both(isDir(0), truth(isErr, 1), callVal("errors.Is", 0))).all(exit, func(x X) bool {
				t := x.t(x.result(0))
				return isErr(t) || x.within(t, isErr)
			}, "a failure to list isn't reported: the newest snapshot can be missing")
			for _, stop := range []int64{0, 1} {
				w := q.when(both(errCase("path/filepath.WalkDir", 0, 1, nil), callVal("errors.Is", stop), func(t *Term) (int64, bool) {
					if stopFlag(t) {
						return 0, true
					}
					return 1, isYieldTerm(t)
				}))
				own := func(x X) bool { return yield(x) && !inCallback(x) }
				told := false // the visitor may as well stop the walk without an error
				q.visits(call("errors.Is"), func(x X) { told = told || !inCallback(x) })
				if stop == 1 && told {
					w.never(own, "stopping is reported as a failure")
				} else {
					w.follow(walk, own, exit, "a failure to list isn't reported: the newest snapshot can be missing")
				}
			}
		})

	s3M := "(*storage/locations.S3Location)."
	sl := func(f string) string { return loc + "S3Location." + f }
	op := func(m string) Ev { return call("(storage/objstore.S3Service)." + m) }
	fails := func(m string) Asg {
		return errCase("(storage/objstore.S3Service)."+m, 1, 1, map[string]int64{notFound: 2})
	}
	rule("loc.s3", "C12 C13 C14",
		"an S3 location's objects are written, read, removed, listed, named and copied under one and the same key, given by a relative path or by URI; failures are reported and missing objects told apart",
		func(c *Check) {
			for _, l := range []struct{ path, bucket, prefix string }{{"s3://b", "b", ""}, {"s3://b/p", "b", "p/"}, {"s3://b/p/q/", "b", "p/q/"}, {"b/p", "b", "p/"}} {
				asg := strs(nil, srole{isParam("1"), l.path})
				f := c.q("NewS3Location", c.full("storage/locations.NewS3Location")).builds(loc+"S3Location", asg)
				if len(f) == 0 {
					c.soft("NewS3Location", "bucket and prefix aren't recognised")
					continue
				}
				for n, w := range map[string]string{"bucket": l.bucket, "prefix": l.prefix} {
					if got, ok := f[sl(n)]; ok {
						c.expect(got == w, "NewS3Location", c.fn("storage/locations.NewS3Location").Pos(), "the %s of %s is %q, not %q", n, l.path, got, w)
					}
				}
				for _, arg := range []string{"a.snapshot", "x/b", "uri"} {
					key := l.prefix + arg
					if arg == "uri" {
						key = l.prefix + "x/c"
						arg = "s3://b/" + key
					}
					asg := strs(nil, append(having(f), srole{isParam("1"), arg})...)
					q := func(m string) *Q {
						return c.q(fmt.Sprintf("S3Location.%s(%s) in %s", m, arg, l.path), c.full(s3M+m))
					}
					for m, o := range map[string]string{"Write": "PutObject", "Read": "GetObject", "URI": "HeadObject"} {
						q(m).folds(asg, op(o), fieldStr(2, "Bucket", asg), l.bucket, "another bucket")
						q(m).folds(asg, op(o), fieldStr(2, "Key", asg), key, "another object")
						if m != "Read" {
							q(m).when(asg).visits(nilErrExit, func(x X) {
								s, ok := x.str(x.t(x.result(0)), asg)
								c.expect(!ok || s == "s3://"+l.bucket+"/"+key, "S3Location."+m, x.pos(), "the URI %q isn't the object's", s)
							})
						}
					}
					isName := func(t *Term) bool { return t.Op == "index" && isParam("1")(unslice(t.A[0])) }
					el := strs(nil, append(having(f), srole{isName, arg})...)
					q("Remove").folds(el, op("DeleteObject"), fieldStr(2, "Bucket", el), l.bucket, "another bucket")
					q("Remove").folds(el, op("DeleteObject"), fieldStr(2, "Key", el), key, "another object is removed")
					cp := strs(nil, append(having(f), srole{isParam("1"), "s3://b/src/s"}, srole{isParam("2"), arg})...)
					q("Copy").folds(cp, op("CopyObject"), fieldStr(2, "CopySource", cp), "b/src/s", "another object is copied")
					q("Copy").folds(cp, op("CopyObject"), fieldStr(2, "Bucket", cp), l.bucket, "the copy is in another bucket")
					q("Copy").folds(cp, op("CopyObject"), fieldStr(2, "Key", cp), key, "the copy is elsewhere")
				}
				lg := c.full(s3M + "List")
				var v V
				c.q("S3Location.List", lg).visits(exit, func(x X) { v = x.result(0) })
				h := c.rootAt(lg, v)
				if v.X == nil || h == nil {
					c.soft("S3Location.List", "the listing isn't a function literal")
					continue
				}
				lq := c.q("S3Location.List of "+l.path, h)
				la := strs(nil, append(having(f), srole{func(t *Term) bool {
					return t.isField("Key") || t.Op == "un" && t.Find(func(u *Term) bool { return u.isField("Key") }) != nil
				}, l.prefix + "x"})...)
				for n, w := range map[string]string{"Bucket": l.bucket, "Prefix": l.prefix} {
					lq.folds(la, op("ListObjectsV2"), fieldStr(2, n, la), w, "other objects are listed")
				}
				y := func(x X) bool { return isYield(x) && x.yieldArg(1).String() == "nil" }
				lq.when(la).visits(y, func(x X) {
					s, ok := x.str(x.yieldArg(0), la)
					c.expect(!ok || s == "s3://"+l.bucket+"/"+l.prefix+"x", "S3Location.List", x.pos(), "the listed URI %q isn't the object's", s)
				})
				cont := func(t *Term) bool { return t.isField("Contents") }
				lq.when(errCase("(storage/objstore.S3Service).ListObjectsV2", 1, 0, nil)).each(cont, y, "an object isn't listed")
				lq.when(fails("ListObjectsV2")).mustPass(func(x X) bool { return isYield(x) && x.yieldArg(1).String() != "nil" }, exit, "a failure to list isn't reported: the newest snapshot can be missing")
			}
			w := c.q("S3Location.Write", c.full(s3M+"Write"))
			w.mustPass(op("PutObject"), nilErrExit, "the object isn't written")
			w.all(op("PutObject"), func(x X) bool {
				v, ok := x.inputField(2, "Body")
				return ok && x.t(v).String() == "p2"
			}, "something else is written")
			w.when(fails("PutObject")).never(nilErrExit, "a failed write is reported as success")
			missing := func(m, o string) {
				q := c.q("S3Location."+m, c.full(s3M+m))
				for _, miss := range []int64{0, 1} {
					k := q.named(fmt.Sprintf("S3Location.%s/failed, missing %d", m, miss)).when(both(fails(o), callVal("errors.As", miss)))
					k.never(nilErrExit, "a failure is reported as success")
					k.visits(exit, func(x X) {
						t := x.t(x.result(q.g.Root.Fn.Signature.Results().Len() - 1))
						is := x.within(t, func(u *Term) bool { return u.Op == "global" && u.S == notFound })
						if t.hasCall("errors.New") {
							return // another check
						}
						c.expect(is == (miss == 1), k.name, x.pos(), "a missing object and another failure aren't told apart")
					})
				}
			}
			missing("Read", "GetObject")
			missing("URI", "HeadObject")
			missing("Copy", "CopyObject")
			r := c.q("S3Location.Read", c.full(s3M+"Read"))
			r.when(errCase("(storage/objstore.S3Service).GetObject", 1, 0, nil)).wholeRead()
			m := c.q("S3Location.Remove", c.full(s3M+"Remove"))
			m.each(isParam("1"), op("DeleteObject"), "an object isn't removed")
			m.named("S3Location.Remove/failed").when(fails("DeleteObject")).each(isParam("1"), op("DeleteObject"), "objects following one that couldn't be removed aren't removed")
			c.q("S3Location.Copy", c.full(s3M+"Copy")).mustPass(op("CopyObject"), nilErrExit, "nothing is copied")
		})

	rule("loc.read", "C13 C14",
		"a location or file given by a path is the S3 one exactly if the path has S3's scheme; reading it gives all of it or an error",
		func(c *Check) {
			n := c.full("storage/locations.New")
			n.Inline = noInline("storage/locations.NewS3Location", noInline("storage/locations.NewLocalDirectory", n.Inline))
			q := c.q("locations.New", n)
			for _, p := range [][2]string{{"s3://b/p", "storage/locations.NewS3Location"}, {"/d/e", "storage/locations.NewLocalDirectory"}, {"rel", "storage/locations.NewLocalDirectory"}} {
				asg := strs(both(errCase("github.com/aws/aws-sdk-go-v2/config.LoadDefaultConfig", 1, 0, nil), errCase("storage/locations.NewS3Location", 1, 0, nil)), srole{isParam("0"), p[0]})
				i := 0
				if strings.Contains(p[1], "S3") {
					i = 1
				}
				w := q.named("locations.New(" + p[0] + ")").when(asg)
				w.folds(asg, call(p[1]), argStr(i, asg), p[0], "another location")
				w.all(exit, func(x X) bool { return x.t(x.result(0)).hasCall(p[1]) }, "another location is used")
			}
			q.reports("storage/locations.NewS3Location", 1, "a failure is reported as success")
			f := c.full("storage/locations.ReadFile")
			f.Inline = noInline("storage/locations.ReadS3File", noInline("storage/locations.ReadLocalFile", f.Inline))
			fq := c.q("locations.ReadFile", f)
			for _, p := range [][2]string{{"s3://b/p", "storage/locations.ReadS3File"}, {"/d/e", "storage/locations.ReadLocalFile"}, {"rel", "storage/locations.ReadLocalFile"}} {
				asg := strs(errCase("github.com/aws/aws-sdk-go-v2/config.LoadDefaultConfig", 1, 0, nil), srole{isParam("0"), p[0]})
				i := 0
				if strings.Contains(p[1], "S3") {
					i = 1
				}
				w := fq.named("locations.ReadFile(" + p[0] + ")").when(asg)
				w.folds(asg, call(p[1]), argStr(i, asg), p[0], "another file")
				w.all(exit, func(x X) bool {
					return extractOf(x.t(x.result(0)), "0", p[1]) && extractOf(x.t(x.result(1)), "1", p[1])
				}, "something else is returned")
			}
			l := c.q("locations.ReadLocalFile", c.full("storage/locations.ReadLocalFile"))
			asg := strs(nil, srole{isParam("0"), "/d/e"})
			if len(l.sites(call("os.Open"))) > 0 {
				l.folds(asg, call("os.Open"), argStr(0, asg), "/d/e", "another file is read")
				l.notFound("os.Open", 1, "errors.Is", notFound)
				l.when(errCase("os.Open", 1, 0, nil)).all(exit, func(x X) bool {
					return extractOf(x.t(x.result(0)), "0", "io.ReadAll") && extractOf(x.t(x.result(1)), "1", "io.ReadAll")
				}, "something other than the whole file is returned")
			}
			s := c.q("locations.ReadS3File", c.full("storage/locations.ReadS3File"))
			for _, p := range [][3]string{{"s3://b/p/q", "b", "p/q"}, {"b/k", "b", "k"}} {
				asg := strs(nil, srole{isParam("1"), p[0]})
				s.folds(asg, op("GetObject"), fieldStr(2, "Bucket", asg), p[1], "another bucket")
				s.folds(asg, op("GetObject"), fieldStr(2, "Key", asg), p[2], "another object is read")
			}
			for _, miss := range []int64{0, 1} {
				k := s.named(fmt.Sprintf("locations.ReadS3File/failed, missing %d", miss)).when(both(fails("GetObject"), callVal("errors.As", miss), strs(nil, srole{isParam("1"), "s3://b/k"})))
				k.never(nilErrExit, "a failure is reported as success")
				k.visits(exit, func(x X) {
					is := x.within(x.t(x.result(1)), func(u *Term) bool { return u.Op == "global" && u.S == notFound })
					c.expect(is == (miss == 1), k.name, x.pos(), "a missing object and another failure aren't told apart")
				})
			}
			ok := strs(errCase("(storage/objstore.S3Service).GetObject", 1, 0, nil), srole{isParam("1"), "s3://b/k"})
			s.when(ok).wholeRead()
		})
}

func isCmd(t *Term, name string) bool {
	return t.Find(func(u *Term) bool {
		if !u.isCall("os/exec.Command") {
			return false
		}
		s, ok := u.A[0].constStr()
		return ok && s == name
	}) != nil
}

// cmdFails is the scenario in which running the named command fails and running others succeeds.
func cmdFails(name string) Asg {
	return func(t *Term) (int64, bool) {
		if resultOf(t, 1, "(*os/exec.Cmd).CombinedOutput", "(*os/exec.Cmd).Output") || resultOf(t, 0, "(*os/exec.Cmd).Run") {
			if isCmd(t, name) {
				return 1, true
			}
			return 0, true
		}
		return 0, false
	}
}

// inCallback: x runs in a function passed to another one.
func inCallback(x X) bool {
	for c := x.n.C; c != nil; c = c.Parent {
		if c.CB {
			return true
		}
	}
	return false
}

// wholeRead: what io.ReadAll gave is returned, and its failure is reported.
func (q *Q) wholeRead() {
	q.mustPass(call("io.ReadAll"), nilErrExit, "the object isn't read")
	q.all(and(exit, func(x X) bool {
		a, _ := x.g.eval(x.e, x.result(1))
		return a.k != 'x'
	}), func(x X) bool {
		return extractOf(x.t(x.result(0)), "0", "io.ReadAll")
	}, "something other than the whole object is returned")
	q.when(both(q.asg, errCase("io.ReadAll", 1, 1, nil))).neverAfter(call("io.ReadAll"), nilErrExit, "a partial read is reported as success")
	q.when(both(q.asg, errCase("io.ReadAll", 1, 0, nil))).neverAfter(call("io.ReadAll"), func(x X) bool {
		if !exit(x) {
			return false
		}
		a, _ := x.g.eval(x.e, x.result(1))
		return a.k == 'x'
	}, "a complete read fails")
}
