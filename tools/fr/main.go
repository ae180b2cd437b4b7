// fr OUTDIR REPO SPEC NAME: write the files of a hand-written variant. SPEC: variants separated by ====, files by ++++;
// a file is its path and Go declarations: those the file has are replaced, others are added.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

func key(d ast.Decl) string {
	switch x := d.(type) {
	case *ast.FuncDecl:
		if x.Recv != nil {
			t := x.Recv.List[0].Type
			if s, ok := t.(*ast.StarExpr); ok {
				t = s.X
			}
			switch i := t.(type) {
			case *ast.IndexExpr:
				t = i.X
			case *ast.IndexListExpr:
				t = i.X
			}
			return t.(*ast.Ident).Name + "." + x.Name.Name
		}
		return x.Name.Name
	case *ast.GenDecl:
		if x.Tok == token.IMPORT {
			return "import"
		}
		if len(x.Specs) == 0 {
			return ""
		}
		switch s := x.Specs[0].(type) {
		case *ast.TypeSpec:
			return "type " + s.Name.Name
		case *ast.ValueSpec:
			return "value " + s.Names[0].Name
		}
	}
	return ""
}

func main() {
	out, repo, spec, name := os.Args[1], os.Args[2], os.Args[3], os.Args[4]
	b, err := os.ReadFile(spec)
	must(err)
	for _, v := range strings.Split(strings.Trim(string(b), "\n"), "\n====\n") {
		title, rest, _ := strings.Cut(v, "\n")
		if strings.TrimPrefix(title, "# ") != name {
			continue
		}
		for _, f := range strings.Split(rest, "\n++++\n") {
			path, decls, _ := strings.Cut(f, "\n")
			src, err := os.ReadFile(filepath.Join(repo, path))
			must(err)
			fset := token.NewFileSet()
			old, err := parser.ParseFile(fset, "", src, parser.ParseComments)
			must(err)
			pre := "package p\n"
			nw, err := parser.ParseFile(fset, "", pre+decls, parser.ParseComments)
			if err != nil {
				fmt.Println(title, err)
				os.Exit(1)
			}
			text := func(d ast.Decl) string {
				return (pre + decls)[fset.Position(d.Pos()).Offset:fset.Position(d.End()).Offset]
			}
			type edit struct {
				lo, hi int
				s      string
			}
			var es []edit
			tail := ""
			for _, d := range nw.Decls {
				hit := false
				for _, o := range old.Decls {
					if key(o) == key(d) && key(d) != "" {
						es = append(es, edit{fset.Position(o.Pos()).Offset, fset.Position(o.End()).Offset, text(d)})
						hit = true
					}
				}
				if !hit {
					tail += "\n" + text(d) + "\n"
				}
			}
			sort.Slice(es, func(i, j int) bool { return es[i].lo > es[j].lo })
			s := string(src)
			for _, e := range es {
				s = s[:e.lo] + e.s + s[e.hi:]
			}
			s += tail
			cmd := exec.Command("goimports")
			cmd.Dir = repo
			cmd.Stdin = bytes.NewReader([]byte(s))
			var eb bytes.Buffer
			cmd.Stderr = &eb
			o, err := cmd.Output()
			if err != nil {
				fmt.Println(title, eb.String())
				os.Exit(1)
			}
			must(os.WriteFile(filepath.Join(out, strings.ReplaceAll(path, "/", "__")), o, 0o644))
		}
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
