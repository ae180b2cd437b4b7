package main

// Loading: lists /repo's packages and their dependencies with the build's own Go, parses and
// type-checks everything from source (dependencies without function bodies) and builds SSA.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

const modPath = "reduction.dev/reduction"

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	Imports    []string
	ImportMap  map[string]string
	Standard   bool
	Module     *struct {
		Path      string
		GoVersion string
		Main      bool
	}
	Error *struct{ Err string }
}

// Prog is the analysed program.
type Prog struct {
	Fset  *token.FileSet
	SSA   *ssa.Program
	Pkgs  map[string]*types.Package // by import path
	Repo  []*ssa.Package
	Info  map[string]*types.Info
	Files map[string][]*ast.File
	Funcs []*ssa.Function // every function with a body in /repo (incl. closures, instances)
	NFile int
	root  string

	closCache map[*ssa.Function]*ssa.MakeClosure
	mods      map[*ssa.Function]map[string]bool
	callers   map[*ssa.Function][]ssa.CallInstruction
}

type loadError struct{ msgs []string }

func (e *loadError) Error() string { return strings.Join(e.msgs, "\n") }

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOROOT", "PATH", "GOTOOLCHAIN", "GOFLAGS", "GOPROXY", "GOSUMDB", "GOWORK", "GOENV", "GOEXPERIMENT", "CGO_ENABLED", "HOME", "GOPATH", "GOOS", "GOARCH":
			continue
		}
		env = append(env, e)
	}
	goroot := "/opt/veriftools/go1.24.13"
	return append(env, "GOROOT="+goroot, "PATH="+goroot+"/bin:/usr/local/bin:/usr/bin:/bin", "GOTOOLCHAIN=local",
		"GOFLAGS=", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off", "GOENV=off", "GOEXPERIMENT=synctest", "CGO_ENABLED=0",
		"HOME=/root", "GOPATH=/root/go")
}

var skipPkgs = map[string]bool{modPath + "/e2e": true, modPath + "/rundev": true}

// replaceFiles substitutes source files (development: checking mutants without copying the tree).
var replaceFiles = map[string]string{}

func Load(repo, stubs, scratch string) (*Prog, error) {
	ov := exec.Command("bash", filepath.Join(stubs, "overlay.sh"), repo, scratch)
	if out, err := ov.CombinedOutput(); err != nil {
		return nil, &loadError{[]string{"preparing the overlay failed: " + err.Error() + ": " + string(out)}}
	}
	var ovl struct{ Replace map[string]string }
	data, err := os.ReadFile(filepath.Join(scratch, "overlay.json"))
	if err != nil {
		return nil, err
	}
	if err := json.Unmarshal(data, &ovl); err != nil {
		return nil, err
	}
	for orig, file := range replaceFiles {
		ovl.Replace[orig] = file
	}
	flags := []string{"-modfile=" + filepath.Join(scratch, "go.mod"), "-overlay=" + filepath.Join(scratch, "overlay.json")}
	run := func(args ...string) ([]byte, error) {
		cmd := exec.Command("/opt/veriftools/go1.24.13/bin/go", args...)
		cmd.Dir = repo
		cmd.Env = goEnv()
		var errb bytes.Buffer
		cmd.Stderr = &errb
		out, err := cmd.Output()
		if err != nil {
			return nil, fmt.Errorf("go %s: %v: %s", strings.Join(args, " "), err, errb.String())
		}
		return out, nil
	}
	out, err := run(append(append([]string{"list", "-e", "-find"}, flags...), "-f", "{{.ImportPath}}", "./...")...)
	if err != nil {
		return nil, &loadError{[]string{err.Error()}}
	}
	var roots []string
	for _, l := range strings.Fields(string(out)) {
		if !skipPkgs[l] {
			roots = append(roots, l)
		}
	}
	out, err = run(append(append([]string{"list", "-e", "-deps"}, flags...), append([]string{"-json=ImportPath,Dir,Name,GoFiles,Imports,ImportMap,Standard,Module,Error"}, roots...)...)...)
	if err != nil {
		return nil, &loadError{[]string{err.Error()}}
	}
	var lps []*listPkg
	dec := json.NewDecoder(bytes.NewReader(out))
	for dec.More() {
		lp := &listPkg{}
		if err := dec.Decode(lp); err != nil {
			return nil, err
		}
		lps = append(lps, lp)
	}
	fset := token.NewFileSet()
	p := &Prog{Fset: fset, Pkgs: map[string]*types.Package{}, Info: map[string]*types.Info{}, Files: map[string][]*ast.File{}, root: repo}
	byPath := map[string]*listPkg{}
	for _, lp := range lps {
		byPath[lp.ImportPath] = lp
	}
	isRepo := func(lp *listPkg) bool {
		return lp.ImportPath == modPath || strings.HasPrefix(lp.ImportPath, modPath+"/")
	}
	type node struct {
		lp   *listPkg
		done chan struct{}
		pkg  *types.Package
		errs []string
	}
	nodes := map[string]*node{}
	for _, lp := range lps {
		for _, f := range lp.GoFiles {
			// a replaced file may import what go list doesn't know of
			if r, ok := replaceFiles[filepath.Join(lp.Dir, f)]; ok && r != "" {
				if af, err := parser.ParseFile(token.NewFileSet(), r, nil, parser.ImportsOnly); err == nil {
					for _, im := range af.Imports {
						if path, err := strconv.Unquote(im.Path.Value); err == nil && path != "C" && !slices.Contains(lp.Imports, path) {
							lp.Imports = append(lp.Imports, path)
						}
					}
				}
			}
		}
		nodes[lp.ImportPath] = &node{lp: lp, done: make(chan struct{})}
	}
	var mu sync.Mutex
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	for _, lp := range lps {
		n := nodes[lp.ImportPath]
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer close(n.done)
			if lp.ImportPath == "unsafe" {
				n.pkg = types.Unsafe
				return
			}
			for _, im := range lp.Imports {
				if d := nodes[im]; d != nil {
					<-d.done
				}
			}
			sem <- struct{}{}
			defer func() { <-sem }()
			if lp.Error != nil && isRepo(lp) {
				n.errs = append(n.errs, lp.ImportPath+": "+lp.Error.Err)
			}
			var files []*ast.File
			for _, f := range lp.GoFiles {
				path := f
				if !filepath.IsAbs(path) {
					path = filepath.Join(lp.Dir, f)
				}
				src := path
				if r, ok := ovl.Replace[path]; ok {
					src = r
				}
				if src == "" {
					continue
				}
				b, err := os.ReadFile(src)
				if err != nil {
					n.errs = append(n.errs, err.Error())
					continue
				}
				mode := parser.SkipObjectResolution
				if isRepo(lp) {
					mode |= parser.ParseComments
				}
				af, err := parser.ParseFile(fset, path, b, mode)
				if err != nil {
					n.errs = append(n.errs, err.Error())
				}
				if af != nil {
					files = append(files, af)
				}
			}
			info := &types.Info{
				Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
				Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}, Scopes: map[ast.Node]*types.Scope{},
				Selections: map[*ast.SelectorExpr]*types.Selection{}, FileVersions: map[*ast.File]string{},
			}
			gv := "go1.24"
			if lp.Module != nil && lp.Module.GoVersion != "" {
				gv = "go" + lp.Module.GoVersion
			}
			conf := types.Config{
				Sizes:            types.SizesFor("gc", "amd64"),
				IgnoreFuncBodies: !isRepo(lp),
				GoVersion:        gv,
				Importer: impFunc(func(path string) (*types.Package, error) {
					if path == "unsafe" {
						return types.Unsafe, nil
					}
					if m, ok := lp.ImportMap[path]; ok {
						path = m
					}
					if d := nodes[path]; d != nil && d.pkg != nil {
						return d.pkg, nil
					}
					return nil, fmt.Errorf("package %s is not available", path)
				}),
				Error: func(err error) {
					if isRepo(lp) {
						n.errs = append(n.errs, err.Error())
					}
				},
			}
			if !isRepo(lp) {
				info = nil
			}
			n.pkg, _ = conf.Check(lp.ImportPath, fset, files, info)
			mu.Lock()
			p.Pkgs[lp.ImportPath] = n.pkg
			if isRepo(lp) {
				p.Info[lp.ImportPath] = info
				p.Files[lp.ImportPath] = files
				p.NFile += len(files)
			}
			mu.Unlock()
		}()
	}
	wg.Wait()
	var errs []string
	for _, lp := range lps {
		if isRepo(lp) {
			errs = append(errs, nodes[lp.ImportPath].errs...)
		}
	}
	if len(errs) > 0 {
		return nil, &loadError{errs}
	}
	prog := ssa.NewProgram(fset, ssa.InstantiateGenerics)
	p.SSA = prog
	for _, lp := range lps { // -deps lists dependencies first
		n := nodes[lp.ImportPath]
		if n.pkg == nil || n.pkg == types.Unsafe {
			continue
		}
		if isRepo(lp) {
			p.Repo = append(p.Repo, prog.CreatePackage(n.pkg, p.Files[lp.ImportPath], p.Info[lp.ImportPath], true))
		} else {
			prog.CreatePackage(n.pkg, nil, nil, true)
		}
	}
	prog.Build()
	p.collect()
	return p, nil
}

type impFunc func(string) (*types.Package, error)

func (f impFunc) Import(p string) (*types.Package, error) { return f(p) }

// collect enumerates every function of /repo that has a body, including closures, methods of
// all named types, and the generic instances that are reachable from them.
func (p *Prog) collect() {
	seen := map[*ssa.Function]bool{}
	p.callers = map[*ssa.Function][]ssa.CallInstruction{}
	p.closCache = map[*ssa.Function]*ssa.MakeClosure{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		if f.Blocks == nil || !p.inRepo(f) {
			return
		}
		p.Funcs = append(p.Funcs, f)
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
				}
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					p.closCache[mc.Fn.(*ssa.Function)] = mc
				}
				if c, ok := ins.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						visit(g)
						p.callers[g] = append(p.callers[g], c)
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	for _, sp := range p.Repo {
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				visit(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					if named, ok := m.Type().(*types.Named); ok && named.TypeParams().Len() > 0 {
						for i := 0; i < named.NumMethods(); i++ {
							visit(p.SSA.FuncValue(named.Method(i)))
						}
						continue
					}
					ms := p.SSA.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						visit(p.SSA.MethodValue(ms.At(i)))
					}
				}
			}
		}
	}
}

func (p *Prog) inRepo(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		return strings.HasPrefix(f.Pkg.Pkg.Path()+"/", modPath+"/")
	}
	if f.Object() != nil && f.Object().Pkg() != nil { // wrappers
		return strings.HasPrefix(f.Object().Pkg().Path()+"/", modPath+"/")
	}
	return false
}
