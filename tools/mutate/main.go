// mutate lists small syntactic mutants of Go files: mutate OUTDIR FILE... writes OUTDIR/NNNN.go and OUTDIR/index.tsv.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
)

type mut struct {
	from, to int
	text     string
	desc     string
}

var swapNames = [][2]string{{"start", "end"}, {"Start", "End"}, {"left", "right"}, {"min", "max"}, {"First", "Last"}, {"first", "last"}, {"low", "high"}, {"additions", "removals"}, {"Latest", "First"}, {"before", "after"}}

func main() {
	out := os.Args[1]
	os.MkdirAll(out, 0o755)
	idx, _ := os.Create(filepath.Join(out, "index.tsv"))
	n := 0
	for _, f := range os.Args[2:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		txt := func(a, b token.Pos) string { return string(src[off(a):off(b)]) }
		var ms []mut
		add := func(a, b token.Pos, t, d string) { ms = append(ms, mut{off(a), off(b), t, d}) }
		names := map[string]bool{}
		ast.Inspect(af, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				names[id.Name] = true
			}
			return true
		})
		stmts := func(l []ast.Stmt) {
			for i, s := range l {
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt, *ast.GoStmt:
					add(s.Pos(), s.End(), "", "delete: "+one(txt(s.Pos(), s.End())))
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						add(s.Pos(), s.End(), "", "delete: "+one(txt(s.Pos(), s.End())))
					}
				case *ast.BranchStmt:
					add(s.Pos(), s.End(), "", "delete: "+one(txt(s.Pos(), s.End())))
					if x.Label == nil {
						switch x.Tok {
						case token.CONTINUE:
							add(s.Pos(), s.End(), "break", "continue->break")
						case token.BREAK:
							add(s.Pos(), s.End(), "continue", "break->continue")
						}
					}
				case *ast.IfStmt:
					if x.Else == nil {
						add(s.Pos(), s.End(), "", "delete if: "+one(txt(s.Pos(), x.Body.Pos())))
					}
				case *ast.RangeStmt, *ast.ForStmt:
					add(s.Pos(), s.End(), "", "delete loop: "+one(txt(s.Pos(), s.End())))
				case *ast.ReturnStmt:
					for j, r := range x.Results {
						if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
							add(r.Pos(), r.End(), "nil", "return err->nil")
						}
						_ = j
					}
				}
				if i+1 < len(l) {
					a, b := s, l[i+1]
					if _, ok := b.(*ast.ReturnStmt); ok {
						continue
					}
					add(a.Pos(), b.End(), txt(b.Pos(), b.End())+"\n"+txt(a.Pos(), a.End()), "swap stmts: "+one(txt(a.Pos(), a.End()))+" <> "+one(txt(b.Pos(), b.End())))
				}
			}
		}
		ast.Inspect(af, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
			case *ast.CommClause:
				stmts(x.Body)
			case *ast.IfStmt:
				add(x.Cond.Pos(), x.Cond.End(), "!("+txt(x.Cond.Pos(), x.Cond.End())+")", "negate: "+one(txt(x.Cond.Pos(), x.Cond.End())))
			case *ast.BinaryExpr:
				alt := map[token.Token][]string{token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
					token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"}}
				for _, o := range alt[x.Op] {
					p := x.OpPos
					ms = append(ms, mut{off(p), off(p) + len(x.Op.String()), o, "op " + x.Op.String() + "->" + o + ": " + one(txt(x.Pos(), x.End()))})
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						add(x.Pos(), x.End(), strconv.FormatInt(v+1, 10), fmt.Sprintf("lit %d->%d", v, v+1))
						if v > 0 {
							add(x.Pos(), x.End(), strconv.FormatInt(v-1, 10), fmt.Sprintf("lit %d->%d", v, v-1))
						}
					}
				}
			case *ast.Ident:
				switch x.Name {
				case "true":
					add(x.Pos(), x.End(), "false", "true->false")
				case "false":
					add(x.Pos(), x.End(), "true", "false->true")
				case "Lock":
				default:
					for _, p := range swapNames {
						for k := range 2 {
							if strings.Contains(x.Name, p[k]) {
								r := strings.Replace(x.Name, p[k], p[1-k], 1)
								if names[r] {
									add(x.Pos(), x.End(), r, "name "+x.Name+"->"+r)
								}
							}
						}
					}
				}
			case *ast.CallExpr:
				for i := 0; i+1 < len(x.Args); i++ {
					a, b := x.Args[i], x.Args[i+1]
					add(a.Pos(), b.End(), txt(b.Pos(), b.End())+txt(a.End(), b.Pos())+txt(a.Pos(), a.End()), "swap args: "+one(txt(x.Pos(), x.End())))
				}
			case *ast.SliceExpr:
				if x.Low != nil && x.High == nil {
					add(x.Low.Pos(), x.Low.End(), "("+txt(x.Low.Pos(), x.Low.End())+")+1", "slice low+1")
				}
				if x.High != nil {
					add(x.High.Pos(), x.High.End(), "("+txt(x.High.Pos(), x.High.End())+")-1", "slice high-1")
				}
			}
			return true
		})
		for _, m := range ms {
			s := string(src[:m.from]) + m.text + string(src[m.to:])
			name := fmt.Sprintf("%05d.go", n)
			n++
			os.WriteFile(filepath.Join(out, name), []byte(s), 0o644)
			fmt.Fprintf(idx, "%s\t%s\t%d\t%s\n", name, f, strings.Count(string(src[:m.from]), "\n")+1, m.desc)
		}
	}
	idx.Close()
	fmt.Println(n)
}

var ws = regexp.MustCompile(`\s+`)

func one(s string) string {
	s = ws.ReplaceAllString(s, " ")
	if len(s) > 90 {
		s = s[:90] + "…"
	}
	return s
}
