package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
)

// Development: writes variants of the repository's files that behave the same, to measure false alarms.
// refactorAll applies one kind of rewriting everywhere it applies (in functions whose name contains fn) and writes
// OUT/<kind>/<path with _ for />, one file per source file that changed.
func refactorAll(p *Prog, kind, out, fn string) {
	for path, files := range p.Files {
		if !strings.HasPrefix(path, modPath) || strings.Contains(path, "/proto/") {
			continue
		}
		for _, f := range files {
			name := p.Fset.Position(f.Package).Filename
			if strings.HasSuffix(name, ".pb.go") || !strings.HasPrefix(name, p.root+"/") {
				continue
			}
			r := &refac{p: p, info: p.Info[path], pkg: p.Pkgs[path], file: f, kind: kind}
			var add []ast.Decl
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil || fn != "" && fd.Name.Name != fn {
					continue
				}
				if fn == "" && fd.Name.Name == "init" {
					continue
				}
				r.fd = fd
				before := r.n
				r.fun(fd)
				if r.n > before {
					fmt.Printf("%s\t%s\t%s\t%d\n", kind, name, fd.Name.Name, r.n-before)
				}
				add = append(add, r.decls...)
				r.decls = nil
			}
			if r.n == 0 {
				continue
			}
			f.Decls = append(f.Decls, add...)
			var keep []*ast.CommentGroup
			for _, cg := range f.Comments {
				if cg.Pos() < f.Package {
					keep = append(keep, cg)
				}
			}
			f.Comments = keep
			f.Doc = nil
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					d.Doc = nil
				case *ast.GenDecl:
					d.Doc = nil
				}
			}
			var buf bytes.Buffer
			if err := format.Node(&buf, p.Fset, f); err != nil {
				fmt.Println("ERROR", name, err)
				continue
			}
			dir := filepath.Join(out, kind)
			os.MkdirAll(dir, 0o755)
			rel := strings.TrimPrefix(name, p.root+"/")
			os.WriteFile(filepath.Join(dir, strings.ReplaceAll(rel, "/", "__")), buf.Bytes(), 0o644)
		}
	}
}

type refac struct {
	p     *Prog
	info  *types.Info
	pkg   *types.Package
	file  *ast.File
	fd    *ast.FuncDecl
	kind  string
	n, id int
	decls []ast.Decl
}

func (r *refac) fresh() *ast.Ident {
	r.id++
	return ast.NewIdent(fmt.Sprintf("tmp%s%d", strings.Title(r.fd.Name.Name), r.id))
}

func (r *refac) fun(fd *ast.FuncDecl) {
	switch r.kind {
	case "outline":
		r.outline(fd)
		return
	}
	astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
		switch n := c.Node().(type) {
		case *ast.BlockStmt:
			n.List = r.list(n.List, c)
		case *ast.CaseClause:
			n.Body = r.list(n.Body, c)
		case *ast.CommClause:
			n.Body = r.list(n.Body, c)
		case *ast.BinaryExpr:
			if e := r.binary(n); e != nil {
				r.n++
				c.Replace(e)
			}
		case *ast.CallExpr:
			if r.kind == "capacity" && r.isBuiltin(n, "make") {
				t := r.info.TypeOf(n)
				switch t.Underlying().(type) {
				case *types.Map:
					if len(n.Args) == 1 {
						n.Args = append(n.Args, &ast.BasicLit{Kind: token.INT, Value: "4"})
						r.n++
					}
				case *types.Slice:
					if lit, ok := n.Args[1].(*ast.BasicLit); ok && len(n.Args) == 2 && lit.Value == "0" {
						n.Args = append(n.Args, &ast.BasicLit{Kind: token.INT, Value: "4"})
						r.n++
					}
				}
			}
		}
		return true
	})
}

func (r *refac) isBuiltin(c *ast.CallExpr, name string) bool {
	id, ok := ast.Unparen(c.Fun).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

func (r *refac) isConst(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	return ok && (tv.Value != nil || tv.IsNil() || tv.IsType())
}

func (r *refac) hasCall(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			if tv, ok := r.info.Types[x.Fun]; ok && tv.IsType() {
				return true
			}
			if r.isBuiltin(x, "len") || r.isBuiltin(x, "cap") {
				return true
			}
			found = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		case *ast.FuncLit:
			found = true
		}
		return !found
	})
	return found
}

func (r *refac) isFloat(e ast.Expr) bool {
	t := r.info.TypeOf(e)
	if t == nil {
		return true
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

var opposite = map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR}
var flipped = map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}

func (r *refac) neg(e ast.Expr) ast.Expr {
	switch x := ast.Unparen(e).(type) {
	case *ast.UnaryExpr:
		if x.Op == token.NOT {
			return x.X
		}
	case *ast.BinaryExpr:
		if o, ok := opposite[x.Op]; ok && !r.isFloat(x.X) && !r.isTypeParam(x.X) {
			return &ast.BinaryExpr{X: x.X, Op: o, Y: x.Y}
		}
	}
	return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: e}}
}

func (r *refac) isTypeParam(e ast.Expr) bool {
	t := r.info.TypeOf(e)
	if t == nil {
		return true
	}
	_, ok := t.(*types.TypeParam)
	return ok
}

func (r *refac) binary(b *ast.BinaryExpr) ast.Expr {
	switch r.kind {
	case "flip":
		if o, ok := flipped[b.Op]; ok && !(r.hasCall(b.X) && r.hasCall(b.Y)) {
			return &ast.BinaryExpr{X: paren(b.Y), Op: o, Y: paren(b.X)}
		}
	case "demorgan":
		if b.Op == token.LAND || b.Op == token.LOR {
			o := token.LOR
			if b.Op == token.LOR {
				o = token.LAND
			}
			return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: &ast.BinaryExpr{X: paren(r.neg(b.X)), Op: o, Y: paren(r.neg(b.Y))}}}
		}
	case "lenzero":
		c, ok := ast.Unparen(b.X).(*ast.CallExpr)
		lit, ok2 := b.Y.(*ast.BasicLit)
		if ok && ok2 && lit.Value == "0" && r.isBuiltin(c, "len") {
			switch b.Op {
			case token.EQL:
				return &ast.BinaryExpr{X: b.X, Op: token.LSS, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}
			case token.NEQ:
				return &ast.BinaryExpr{X: b.X, Op: token.GTR, Y: b.Y}
			case token.GTR:
				return &ast.BinaryExpr{X: b.X, Op: token.GEQ, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}
			}
		}
	case "arith":
		// x + y -> y + x of integers, x - c -> x + -c
		t := r.info.TypeOf(b)
		if t == nil {
			return nil
		}
		bt, ok := t.Underlying().(*types.Basic)
		if ok && bt.Info()&types.IsInteger != 0 && (b.Op == token.ADD || b.Op == token.MUL) && !(r.hasCall(b.X) && r.hasCall(b.Y)) {
			return &ast.BinaryExpr{X: paren(b.Y), Op: b.Op, Y: paren(b.X)}
		}
	}
	return nil
}

func paren(e ast.Expr) ast.Expr {
	switch e.(type) {
	case *ast.BinaryExpr:
		return &ast.ParenExpr{X: e}
	}
	return e
}

func terminates(l []ast.Stmt) bool {
	if len(l) == 0 {
		return false
	}
	switch s := l[len(l)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return s.Tok == token.BREAK || s.Tok == token.CONTINUE || s.Tok == token.GOTO
	case *ast.ExprStmt:
		if c, ok := s.X.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "panic" {
				return true
			}
		}
	case *ast.BlockStmt:
		return terminates(s.List)
	case *ast.IfStmt:
		if s.Else == nil || !terminates(s.Body.List) {
			return false
		}
		switch e := s.Else.(type) {
		case *ast.BlockStmt:
			return terminates(e.List)
		case *ast.IfStmt:
			return terminates([]ast.Stmt{e})
		}
	}
	return false
}

func returns(l []ast.Stmt) bool {
	if len(l) == 0 {
		return false
	}
	switch s := l[len(l)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.ExprStmt:
		return terminates(l)
	case *ast.BlockStmt:
		return returns(s.List)
	case *ast.IfStmt:
		return s.Else != nil && returns(s.Body.List) && func() bool {
			switch e := s.Else.(type) {
			case *ast.BlockStmt:
				return returns(e.List)
			case *ast.IfStmt:
				return returns([]ast.Stmt{e})
			}
			return false
		}()
	}
	return false
}

// hasBranch: the statements contain a branch of the given kind that would refer to something outside.
func hasBranch(n ast.Node, toks ...token.Token) bool {
	found := false
	var walk func(n ast.Node, loop, sw bool)
	walk = func(n ast.Node, loop, sw bool) {
		ast.Inspect(n, func(m ast.Node) bool {
			if m == n {
				return true
			}
			switch x := m.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ForStmt, *ast.RangeStmt:
				walk(m, true, true)
				return false
			case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				walk(m, loop, true)
				return false
			case *ast.ReturnStmt:
				for _, t := range toks {
					if t == token.RETURN {
						found = true
					}
				}
			case *ast.LabeledStmt:
				found = true
			case *ast.BranchStmt:
				for _, t := range toks {
					if t == x.Tok && (x.Label != nil || t == token.GOTO || t == token.CONTINUE && !loop || t == token.BREAK && !sw) {
						found = true
					}
				}
			}
			return true
		})
	}
	walk(&ast.BlockStmt{List: []ast.Stmt{&ast.BlockStmt{List: stmtsOf(n)}}}, false, false)
	return found
}

func stmtsOf(n ast.Node) []ast.Stmt {
	switch x := n.(type) {
	case *ast.BlockStmt:
		return x.List
	case ast.Stmt:
		return []ast.Stmt{x}
	}
	return nil
}

func (r *refac) list(l []ast.Stmt, c *astutil.Cursor) []ast.Stmt {
	var out []ast.Stmt
	isFnBody := false
	switch c.Parent().(type) {
	case *ast.FuncDecl, *ast.FuncLit:
		isFnBody = true
	}
	if c.Node() == ast.Node(r.fd.Body) {
		isFnBody = true
	}
	if r.kind == "swap" {
		for i := 0; i+1 < len(l); i++ {
			if r.independent(l[i], l[i+1]) {
				l[i], l[i+1] = l[i+1], l[i]
				r.n++
				i++
			}
		}
		return l
	}
	for i := 0; i < len(l); i++ {
		s := l[i]
		rest := l[i+1:]
		if ifs, ok := s.(*ast.IfStmt); ok {
			switch r.kind {
			case "elseify":
				if isFnBody && ifs.Init == nil && ifs.Else == nil && len(rest) > 0 && returns(ifs.Body.List) && !declaresLabel(rest) {
					if returns(rest) || r.noResults(c) {
						r.n++
						n := &ast.IfStmt{If: ifs.If, Cond: r.neg(ifs.Cond), Body: &ast.BlockStmt{List: r.list(append([]ast.Stmt{}, rest...), c)}, Else: ifs.Body}
						return append(out, n)
					}
				}
			case "errmerge":
				// if err != nil { return err }; return nil
				if e := r.onlyErr(ifs, rest); e != nil {
					r.n++
					if ifs.Init != nil {
						as := ifs.Init.(*ast.AssignStmt)
						return append(out, &ast.ReturnStmt{Results: []ast.Expr{as.Rhs[0]}})
					}
					return append(out, &ast.ReturnStmt{Results: []ast.Expr{e}})
				}
			}
		}
		out = append(out, r.stmt(s)...)
	}
	return out
}

func declaresLabel(l []ast.Stmt) bool {
	for _, s := range l {
		if _, ok := s.(*ast.LabeledStmt); ok {
			return true
		}
	}
	return false
}

func (r *refac) noResults(c *astutil.Cursor) bool {
	switch p := c.Parent().(type) {
	case *ast.FuncLit:
		return p.Type.Results == nil
	case *ast.FuncDecl:
		return p.Type.Results == nil
	}
	return c.Node() == ast.Node(r.fd.Body) && r.fd.Type.Results == nil
}

func (r *refac) isErr(e ast.Expr) bool {
	t := r.info.TypeOf(e)
	return t != nil && t.String() == "error"
}

func isIdent(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == name
}

func (r *refac) onlyErr(ifs *ast.IfStmt, rest []ast.Stmt) ast.Expr {
	if ifs.Else != nil || len(rest) != 1 || len(ifs.Body.List) != 1 {
		return nil
	}
	ret, ok := rest[0].(*ast.ReturnStmt)
	ret2, ok2 := ifs.Body.List[0].(*ast.ReturnStmt)
	if !ok || !ok2 || len(ret.Results) != 1 || len(ret2.Results) != 1 || !isIdent(ret.Results[0], "nil") {
		return nil
	}
	b, ok := ifs.Cond.(*ast.BinaryExpr)
	if !ok || b.Op != token.NEQ || !isIdent(b.Y, "nil") || !r.isErr(b.X) {
		return nil
	}
	id, ok := b.X.(*ast.Ident)
	if !ok || !isIdent(ret2.Results[0], id.Name) {
		return nil
	}
	if ifs.Init != nil {
		as, ok := ifs.Init.(*ast.AssignStmt)
		if !ok || len(as.Lhs) != 1 || len(as.Rhs) != 1 || as.Tok != token.DEFINE || !r.isErr(as.Rhs[0]) {
			return nil
		}
	}
	return id
}

func define(lhs []ast.Expr, rhs ...ast.Expr) *ast.AssignStmt {
	return &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
}

func (r *refac) simple(e ast.Expr) bool {
	switch x := ast.Unparen(e).(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return r.simple(x.X)
	}
	return false
}

// hoist gives the expressions' temporaries.
func (r *refac) hoist(es []ast.Expr) (pre []ast.Stmt) {
	for i, e := range es {
		if r.isConst(e) {
			continue
		}
		switch ast.Unparen(e).(type) {
		case *ast.Ident, *ast.FuncLit, *ast.BasicLit:
			continue
		}
		if _, ok := r.info.TypeOf(e).(*types.Signature); ok {
			continue
		}
		if t, ok := r.info.TypeOf(e).(*types.Basic); ok && t.Info()&types.IsUntyped != 0 {
			continue
		}
		id := r.fresh()
		pre = append(pre, define([]ast.Expr{id}, e))
		es[i] = id
	}
	return
}

func (r *refac) stmt(s ast.Stmt) []ast.Stmt {
	switch x := s.(type) {
	case *ast.IfStmt:
		switch r.kind {
		case "invif":
			if b, ok := x.Else.(*ast.BlockStmt); ok {
				r.n++
				x.Cond = r.neg(x.Cond)
				x.Body, x.Else = b, x.Body
			}
		case "unelse":
			if b, ok := x.Else.(*ast.BlockStmt); ok && terminates(x.Body.List) && x.Init == nil {
				r.n++
				x.Else = nil
				return []ast.Stmt{x, b}
			}
		case "splitand":
			if b, ok := ast.Unparen(x.Cond).(*ast.BinaryExpr); ok && b.Op == token.LAND && x.Else == nil {
				r.n++
				x.Cond = b.X
				x.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.IfStmt{Cond: b.Y, Body: x.Body}}}
			}
		case "splitor":
			if b, ok := ast.Unparen(x.Cond).(*ast.BinaryExpr); ok && b.Op == token.LOR && x.Else == nil && x.Init == nil && terminates(x.Body.List) && !declaresLabel(x.Body.List) {
				r.n++
				return []ast.Stmt{&ast.IfStmt{Cond: b.X, Body: x.Body}, &ast.IfStmt{Cond: b.Y, Body: x.Body}}
			}
		case "iftemp":
			if x.Init == nil && !r.isConst(x.Cond) {
				if _, ok := x.Cond.(*ast.Ident); !ok {
					r.n++
					id := r.fresh()
					e := x.Cond
					x.Cond = id
					return []ast.Stmt{define([]ast.Expr{id}, e), x}
				}
			}
		case "ifinit":
			if x.Init != nil {
				r.n++
				in := x.Init
				x.Init = nil
				return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{in, x}}}
			}
		case "ifswitch":
			if !hasBranch(x, token.BREAK) {
				if sw := r.toSwitch(x); sw != nil {
					r.n++
					return []ast.Stmt{sw}
				}
			}
		case "outcond":
			if x.Init == nil && !r.isConst(x.Cond) {
				if e := r.extract(x.Cond); e != nil {
					r.n++
					x.Cond = e
				}
			}
		case "outbody":
			if st := r.extractBody(x.Body); st != nil {
				r.n++
				x.Body = &ast.BlockStmt{List: st}
			}
		}
	case *ast.ReturnStmt:
		switch r.kind {
		case "tempret":
			if len(x.Results) == 1 {
				if tup, ok := r.info.TypeOf(x.Results[0]).(*types.Tuple); ok {
					var ids []ast.Expr
					for i := 0; i < tup.Len(); i++ {
						ids = append(ids, r.fresh())
					}
					d := define(ids, x.Results[0])
					x.Results = ids
					r.n++
					return []ast.Stmt{d, x}
				}
			}
			if pre := r.hoist(x.Results); len(pre) > 0 {
				r.n++
				return append(pre, x)
			}
		case "errsplit":
			if len(x.Results) == 1 && r.isErr(x.Results[0]) {
				if _, ok := x.Results[0].(*ast.CallExpr); ok {
					r.n++
					id := r.fresh()
					return []ast.Stmt{
						&ast.IfStmt{Init: define([]ast.Expr{id}, x.Results[0]), Cond: &ast.BinaryExpr{X: id, Op: token.NEQ, Y: ast.NewIdent("nil")},
							Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{id}}}}},
						&ast.ReturnStmt{Results: []ast.Expr{ast.NewIdent("nil")}},
					}
				}
			}
		case "outcall":
			for i, e := range x.Results {
				if c, ok := e.(*ast.CallExpr); ok {
					if n := r.extract(c); n != nil {
						r.n++
						x.Results[i] = n
					}
				}
			}
		case "litsplit":
			for i, e := range x.Results {
				if i > 0 && r.hasCall(x.Results[0]) {
					continue
				}
				if l, amp := asLit(e); l != nil && r.structLit(l) && !(len(x.Results) > i+1 && r.anyCall(x.Results[i+1:])) {
					id := r.fresh()
					pre := r.splitLit(id, l, amp)
					x.Results[i] = id
					r.n++
					return append(pre, x)
				}
			}
		}
	case *ast.ExprStmt:
		if c, ok := x.X.(*ast.CallExpr); ok {
			if r.kind == "temparg" {
				if pre := r.hoistCall(c); len(pre) > 0 {
					r.n++
					return append(pre, x)
				}
			}
			if r.kind == "outcall" {
				if n := r.extract(c); n != nil {
					r.n++
					x.X = n
				}
			}
		}
	case *ast.AssignStmt:
		switch r.kind {
		case "temparg":
			if len(x.Rhs) == 1 && r.allSimple(x.Lhs) {
				if c, ok := x.Rhs[0].(*ast.CallExpr); ok {
					if pre := r.hoistCall(c); len(pre) > 0 {
						r.n++
						return append(pre, x)
					}
				}
			}
		case "outcall":
			if len(x.Rhs) == 1 {
				if c, ok := x.Rhs[0].(*ast.CallExpr); ok {
					if n := r.extract(c); n != nil {
						r.n++
						x.Rhs[0] = n
					}
				}
			}
		case "incr":
			if op, ok := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.OR_ASSIGN: token.OR}[x.Tok]; ok && r.simple(x.Lhs[0]) && !r.hasCall(x.Rhs[0]) {
				r.n++
				x.Tok = token.ASSIGN
				x.Rhs = []ast.Expr{&ast.BinaryExpr{X: x.Lhs[0], Op: op, Y: paren(x.Rhs[0])}}
			}
		case "litsplit":
			if len(x.Lhs) == 1 && x.Tok == token.DEFINE {
				if l, amp := asLit(x.Rhs[0]); l != nil && r.structLit(l) {
					r.n++
					return r.splitLit(x.Lhs[0].(*ast.Ident), l, amp)
				}
			}
		case "tempasg":
			if len(x.Lhs) == 1 && len(x.Rhs) == 1 && x.Tok == token.ASSIGN && !r.isConst(x.Rhs[0]) && r.simple(x.Lhs[0]) {
				if pre := r.hoist(x.Rhs); len(pre) > 0 {
					r.n++
					return append(pre, x)
				}
			}
		}
	case *ast.IncDecStmt:
		if r.kind == "incr" && r.simple(x.X) {
			r.n++
			op := token.ADD
			if x.Tok == token.DEC {
				op = token.SUB
			}
			return []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{x.X}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: x.X, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}}}}
		}
	case *ast.ForStmt:
		switch r.kind {
		case "whilebrk":
			if x.Cond != nil {
				r.n++
				x.Body.List = append([]ast.Stmt{&ast.IfStmt{Cond: r.neg(x.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}, x.Body.List...)
				x.Cond = nil
			}
		case "outbody":
			if st := r.extractBody(x.Body); st != nil {
				r.n++
				x.Body = &ast.BlockStmt{List: st}
			}
		}
	case *ast.RangeStmt:
		switch r.kind {
		case "outbody":
			if st := r.extractBody(x.Body); st != nil {
				r.n++
				x.Body = &ast.BlockStmt{List: st}
			}
		case "rangetemp":
			if _, ok := x.X.(*ast.Ident); !ok && !r.isConst(x.X) {
				r.n++
				id := r.fresh()
				d := define([]ast.Expr{id}, x.X)
				x.X = id
				return []ast.Stmt{d, x}
			}
		case "rangeidx":
			if n := r.rangeIdx(x); n != nil {
				r.n++
				return n
			}
		}
	case *ast.SwitchStmt:
		if r.kind == "switchif" {
			if n := r.toIf(x); n != nil {
				r.n++
				return []ast.Stmt{n}
			}
		}
	}
	return []ast.Stmt{s}
}

func (r *refac) anyCall(es []ast.Expr) bool {
	for _, e := range es {
		if r.hasCall(e) {
			return true
		}
	}
	return false
}

func (r *refac) allSimple(es []ast.Expr) bool {
	for _, e := range es {
		if !r.simple(e) {
			return false
		}
	}
	return true
}

func (r *refac) hoistCall(c *ast.CallExpr) []ast.Stmt {
	if tv, ok := r.info.Types[c.Fun]; ok && (tv.IsType() || tv.IsBuiltin()) {
		return nil
	}
	switch f := ast.Unparen(c.Fun).(type) {
	case *ast.SelectorExpr:
		if !r.simple(f.X) {
			return nil
		}
	case *ast.Ident:
	default:
		return nil
	}
	// a generic function's arguments keep their types
	for _, a := range c.Args {
		if _, ok := r.info.TypeOf(a).(*types.Tuple); ok {
			return nil
		}
	}
	return r.hoist(c.Args)
}

func asLit(e ast.Expr) (*ast.CompositeLit, bool) {
	switch x := e.(type) {
	case *ast.CompositeLit:
		return x, false
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			if l, ok := x.X.(*ast.CompositeLit); ok {
				return l, true
			}
		}
	}
	return nil, false
}

func (r *refac) structLit(l *ast.CompositeLit) bool {
	t := r.info.TypeOf(l)
	if t == nil || l.Type == nil || len(l.Elts) == 0 {
		return false
	}
	if _, ok := t.Underlying().(*types.Struct); !ok {
		return false
	}
	for _, e := range l.Elts {
		if _, ok := e.(*ast.KeyValueExpr); !ok {
			return false
		}
	}
	return true
}

func (r *refac) splitLit(id *ast.Ident, l *ast.CompositeLit, amp bool) []ast.Stmt {
	var e ast.Expr = &ast.CompositeLit{Type: l.Type}
	if amp {
		e = &ast.UnaryExpr{Op: token.AND, X: e}
	}
	// the values are evaluated before the variable exists (they may refer to a variable of the same name)
	out := []ast.Stmt{}
	tmp := r.fresh()
	out = append(out, define([]ast.Expr{tmp}, e))
	for _, el := range l.Elts {
		kv := el.(*ast.KeyValueExpr)
		out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{&ast.SelectorExpr{X: tmp, Sel: kv.Key.(*ast.Ident)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{kv.Value}})
	}
	return append(out, define([]ast.Expr{id}, tmp))
}

func (r *refac) rangeIdx(x *ast.RangeStmt) []ast.Stmt {
	t := r.info.TypeOf(x.X)
	if t == nil || x.Tok == token.ASSIGN {
		return nil
	}
	zero := &ast.BasicLit{Kind: token.INT, Value: "0"}
	var key *ast.Ident
	if id, ok := x.Key.(*ast.Ident); ok && id.Name != "_" {
		key = id
	} else {
		key = r.fresh()
	}
	assigned := false
	ast.Inspect(x.Body, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.AssignStmt:
			for _, l := range s.Lhs {
				if isIdent(l, key.Name) {
					assigned = true
				}
			}
		case *ast.IncDecStmt:
			if isIdent(s.X, key.Name) {
				assigned = true
			}
		case *ast.LabeledStmt:
			assigned = true
		}
		return true
	})
	if assigned {
		return nil
	}
	coll := r.fresh()
	switch u := t.Underlying().(type) {
	case *types.Slice:
		body := x.Body.List
		if id, ok := x.Value.(*ast.Ident); ok && id.Name != "_" {
			body = []ast.Stmt{define([]ast.Expr{id}, &ast.IndexExpr{X: coll, Index: key}), &ast.BlockStmt{List: body}}
		}
		return []ast.Stmt{define([]ast.Expr{coll}, x.X), &ast.ForStmt{Init: define([]ast.Expr{key}, zero),
			Cond: &ast.BinaryExpr{X: key, Op: token.LSS, Y: &ast.CallExpr{Fun: ast.NewIdent("len"), Args: []ast.Expr{coll}}},
			Post: &ast.IncDecStmt{X: key, Tok: token.INC}, Body: &ast.BlockStmt{List: body}}}
	case *types.Basic:
		if u.Kind() == types.Int && !r.isConst(x.X) {
			return []ast.Stmt{define([]ast.Expr{coll}, x.X), &ast.ForStmt{Init: define([]ast.Expr{key}, zero),
				Cond: &ast.BinaryExpr{X: key, Op: token.LSS, Y: coll}, Post: &ast.IncDecStmt{X: key, Tok: token.INC}, Body: x.Body}}
		}
	}
	return nil
}

func (r *refac) toSwitch(x *ast.IfStmt) ast.Stmt {
	if x.Else == nil {
		return nil
	}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	for {
		if x.Init != nil {
			return nil
		}
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{x.Cond}, Body: x.Body.List})
		switch e := x.Else.(type) {
		case *ast.IfStmt:
			x = e
			continue
		case *ast.BlockStmt:
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: e.List})
		}
		return sw
	}
}

func (r *refac) toIf(x *ast.SwitchStmt) ast.Stmt {
	if x.Init != nil || hasBranch(x.Body, token.FALLTHROUGH) {
		return nil
	}
	for _, c := range x.Body.List {
		if hasBranch(&ast.BlockStmt{List: c.(*ast.CaseClause).Body}, token.BREAK) {
			return nil
		}
	}
	if x.Tag != nil && !r.simple(x.Tag) {
		return nil
	}
	var def *ast.CaseClause
	var cs []*ast.CaseClause
	for _, c := range x.Body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
		} else {
			cs = append(cs, cc)
		}
	}
	var els ast.Stmt
	if def != nil {
		els = &ast.BlockStmt{List: def.Body}
	}
	for i := len(cs) - 1; i >= 0; i-- {
		var cond ast.Expr
		for _, e := range cs[i].List {
			if x.Tag != nil {
				e = &ast.BinaryExpr{X: x.Tag, Op: token.EQL, Y: paren(e)}
			}
			if cond == nil {
				cond = e
			} else {
				cond = &ast.BinaryExpr{X: cond, Op: token.LOR, Y: e}
			}
		}
		els = &ast.IfStmt{Cond: cond, Body: &ast.BlockStmt{List: cs[i].Body}, Else: els}
	}
	return els
}

// free gives the local variables an expression or statements use; ok is false if they can't be passed to a helper.
func (r *refac) free(n ast.Node) (vars []*types.Var, ok bool) {
	ok = true
	seen := map[*types.Var]bool{}
	ast.Inspect(n, func(m ast.Node) bool {
		id, is := m.(*ast.Ident)
		if !is {
			return true
		}
		o := r.info.Uses[id]
		switch v := o.(type) {
		case *types.Var:
			if v.IsField() || v.Parent() == r.pkg.Scope() || v.Pkg() != r.pkg {
				return true
			}
			if v.Pos() >= n.Pos() && v.Pos() < n.End() {
				return true
			}
			if !seen[v] {
				seen[v] = true
				vars = append(vars, v)
			}
		case *types.TypeName:
			if v.Parent() != nil && v.Parent() != r.pkg.Scope() && v.Pkg() == r.pkg {
				ok = false // local type or type parameter
			}
		case *types.Const:
			if v.Parent() != nil && v.Parent() != r.pkg.Scope() && v.Pkg() == r.pkg {
				ok = false
			}
		case nil:
			if r.info.Defs[id] == nil && id.Name != "_" && !isSelName(n, id) {
				// an identifier made by an earlier rewriting
				if strings.HasPrefix(id.Name, "tmp") {
					ok = false
				}
			}
		}
		return true
	})
	return
}

func isSelName(ast.Node, *ast.Ident) bool { return false }

func (r *refac) typeExpr(t types.Type) (ast.Expr, bool) {
	ok := true
	s := types.TypeString(t, func(p *types.Package) string {
		if p == r.pkg {
			return ""
		}
		for _, im := range r.file.Imports {
			if strings.Trim(im.Path.Value, `"`) == p.Path() {
				if im.Name != nil {
					return im.Name.Name
				}
				return p.Name()
			}
		}
		ok = false
		return "x"
	})
	if hasTypeParam(t, map[types.Type]bool{}) || localType(t, r.pkg) {
		return nil, false
	}
	return ast.NewIdent(s), ok
}

func localType(t types.Type, pkg *types.Package) bool {
	switch x := t.(type) {
	case *types.Named:
		if x.Obj().Pkg() == pkg && x.Obj().Parent() != pkg.Scope() {
			return true
		}
		if x.Obj().Pkg() != nil && x.Obj().Pkg() != pkg && !x.Obj().Exported() {
			return true
		}
		if x.TypeArgs() != nil {
			for i := 0; i < x.TypeArgs().Len(); i++ {
				if localType(x.TypeArgs().At(i), pkg) {
					return true
				}
			}
		}
	case *types.Pointer:
		return localType(x.Elem(), pkg)
	case *types.Slice:
		return localType(x.Elem(), pkg)
	case *types.Chan:
		return localType(x.Elem(), pkg)
	case *types.Map:
		return localType(x.Elem(), pkg) || localType(x.Key(), pkg)
	}
	return false
}

func hasTypeParam(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch x := t.(type) {
	case *types.TypeParam:
		return true
	case *types.Named:
		if x.TypeArgs() != nil {
			for i := 0; i < x.TypeArgs().Len(); i++ {
				if hasTypeParam(x.TypeArgs().At(i), seen) {
					return true
				}
			}
		}
	case *types.Pointer:
		return hasTypeParam(x.Elem(), seen)
	case *types.Slice:
		return hasTypeParam(x.Elem(), seen)
	case *types.Array:
		return hasTypeParam(x.Elem(), seen)
	case *types.Chan:
		return hasTypeParam(x.Elem(), seen)
	case *types.Map:
		return hasTypeParam(x.Elem(), seen) || hasTypeParam(x.Key(), seen)
	case *types.Signature:
		return hasTypeParam(x.Params(), seen) || hasTypeParam(x.Results(), seen)
	case *types.Tuple:
		for i := 0; i < x.Len(); i++ {
			if hasTypeParam(x.At(i).Type(), seen) {
				return true
			}
		}
	}
	return false
}

// helper makes a function with the given parameters; nil if a type can't be written.
func (r *refac) helper(vars []*types.Var, results types.Type, body []ast.Stmt) *ast.CallExpr {
	ft := &ast.FuncType{Params: &ast.FieldList{}}
	r.id++
	name := ast.NewIdent(fmt.Sprintf("helper%s%d", strings.Title(r.fd.Name.Name), r.id))
	if r.fd.Recv != nil {
		t := r.fd.Recv.List[0].Type
		if s, ok := t.(*ast.StarExpr); ok {
			t = s.X
		}
		if ix, ok := t.(*ast.IndexExpr); ok {
			t = ix.X
		}
		if ix, ok := t.(*ast.IndexListExpr); ok {
			t = ix.X
		}
		name.Name += t.(*ast.Ident).Name
	}
	call := &ast.CallExpr{Fun: name}
	for _, v := range vars {
		te, ok := r.typeExpr(v.Type())
		if !ok {
			return nil
		}
		ft.Params.List = append(ft.Params.List, &ast.Field{Names: []*ast.Ident{ast.NewIdent(v.Name())}, Type: te})
		arg := ast.NewIdent(v.Name())
		r.info.Uses[arg] = v
		call.Args = append(call.Args, arg)
	}
	if results != nil {
		ft.Results = &ast.FieldList{}
		var ts []types.Type
		if tup, ok := results.(*types.Tuple); ok {
			for i := 0; i < tup.Len(); i++ {
				ts = append(ts, tup.At(i).Type())
			}
		} else {
			ts = append(ts, results)
		}
		for _, t := range ts {
			te, ok := r.typeExpr(t)
			if !ok {
				return nil
			}
			ft.Results.List = append(ft.Results.List, &ast.Field{Type: te})
		}
	}
	r.decls = append(r.decls, &ast.FuncDecl{Name: name, Type: ft, Body: &ast.BlockStmt{List: body}})
	return call
}

func (r *refac) extract(e ast.Expr) ast.Expr {
	if r.fd.Type.TypeParams != nil {
		return nil
	}
	bad := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			bad = true
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				if id, ok := x.X.(*ast.Ident); ok {
					if _, ok := r.info.Uses[id].(*types.Var); ok {
						bad = true
					}
				}
			}
		case *ast.CallExpr:
			// methods with a pointer receiver on an addressable local
			if s, ok := x.Fun.(*ast.SelectorExpr); ok {
				if sel := r.info.Selections[s]; sel != nil && sel.Kind() == types.MethodVal {
					if _, ptr := sel.Recv().(*types.Pointer); !ptr {
						if sg, ok := sel.Obj().Type().(*types.Signature); ok && sg.Recv() != nil {
							if _, pr := sg.Recv().Type().(*types.Pointer); pr {
								bad = true
							}
						}
					}
				}
			}
			if r.isBuiltin(x, "recover") || r.isBuiltin(x, "append") || r.isBuiltin(x, "make") || r.isBuiltin(x, "panic") || r.isBuiltin(x, "new") {
				bad = true
			}
		}
		return true
	})
	if bad || r.isConst(e) {
		return nil
	}
	vars, ok := r.free(e)
	if !ok {
		return nil
	}
	t := r.info.TypeOf(e)
	if t == nil {
		return nil
	}
	if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		t = types.Default(t)
	}
	if tup, ok := t.(*types.Tuple); ok && tup.Len() == 0 {
		if c := r.helper(vars, nil, []ast.Stmt{&ast.ExprStmt{X: e}}); c != nil {
			return c
		}
		return nil
	}
	if c := r.helper(vars, t, []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{e}}}); c != nil {
		return c
	}
	return nil
}

func (r *refac) extractBody(b *ast.BlockStmt) []ast.Stmt {
	if r.fd.Type.TypeParams != nil || len(b.List) == 0 || b.Pos() == token.NoPos {
		return nil
	}
	if hasBranch(b, token.RETURN, token.BREAK, token.CONTINUE, token.GOTO) {
		return nil
	}
	bad := false
	local := func(id *ast.Ident) bool {
		v, ok := r.info.Uses[id].(*types.Var)
		return ok && !v.IsField() && v.Parent() != r.pkg.Scope() && !(v.Pos() >= b.Pos() && v.Pos() < b.End())
	}
	target := func(e ast.Expr) {
		for {
			switch x := ast.Unparen(e).(type) {
			case *ast.Ident:
				if x.Name != "_" && local(x) {
					bad = true
				}
				return
			case *ast.SelectorExpr:
				if _, ok := r.info.TypeOf(x.X).(*types.Pointer); ok {
					return
				}
				e = x.X
			case *ast.IndexExpr:
				if _, ok := r.info.TypeOf(x.X).Underlying().(*types.Array); !ok {
					return
				}
				e = x.X
			default:
				return
			}
		}
	}
	ast.Inspect(b, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.DeferStmt, *ast.FuncLit:
			bad = true
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				target(l)
			}
		case *ast.IncDecStmt:
			target(x.X)
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				target(x.X)
			}
		case *ast.CallExpr:
			if r.isBuiltin(x, "recover") {
				bad = true
			}
			if s, ok := x.Fun.(*ast.SelectorExpr); ok {
				if sel := r.info.Selections[s]; sel != nil && sel.Kind() == types.MethodVal {
					if sg, ok := sel.Obj().Type().(*types.Signature); ok && sg.Recv() != nil {
						if _, pr := sg.Recv().Type().(*types.Pointer); pr {
							if _, ptr := sel.Recv().(*types.Pointer); !ptr {
								bad = true
							}
						}
					}
				}
			}
		}
		return true
	})
	if bad {
		return nil
	}
	vars, ok := r.free(b)
	if !ok {
		return nil
	}
	c := r.helper(vars, nil, b.List)
	if c == nil {
		return nil
	}
	return []ast.Stmt{&ast.ExprStmt{X: c}}
}

func (r *refac) outline(fd *ast.FuncDecl) {
	if fd.Name.Name == "init" || fd.Name.Name == "main" || fd.Type.TypeParams != nil {
		return
	}
	if fd.Recv != nil && (len(fd.Recv.List[0].Names) == 0 || fd.Recv.List[0].Names[0].Name == "_") {
		return
	}
	var args []ast.Expr
	variadic := false
	for _, f := range fd.Type.Params.List {
		if len(f.Names) == 0 {
			return
		}
		for _, n := range f.Names {
			if n.Name == "_" {
				return
			}
			args = append(args, ast.NewIdent(n.Name))
		}
		if _, ok := f.Type.(*ast.Ellipsis); ok {
			variadic = true
		}
	}
	r.n++
	impl := ast.NewIdent("impl_" + fd.Name.Name)
	var fun ast.Expr = impl
	if fd.Recv != nil {
		fun = &ast.SelectorExpr{X: ast.NewIdent(fd.Recv.List[0].Names[0].Name), Sel: impl}
	}
	call := &ast.CallExpr{Fun: fun, Args: args}
	if variadic {
		call.Ellipsis = 1
	}
	r.decls = append(r.decls, &ast.FuncDecl{Recv: fd.Recv, Name: impl, Type: fd.Type, Body: fd.Body})
	var st ast.Stmt = &ast.ExprStmt{X: call}
	if fd.Type.Results != nil {
		st = &ast.ReturnStmt{Results: []ast.Expr{call}}
	}
	fd.Body = &ast.BlockStmt{List: []ast.Stmt{st}}
}

// independent: the two statements can be swapped.
func (r *refac) independent(a, b ast.Stmt) bool {
	x, ok1 := a.(*ast.AssignStmt)
	y, ok2 := b.(*ast.AssignStmt)
	if !ok1 || !ok2 || len(x.Lhs) != 1 || len(y.Lhs) != 1 || len(x.Rhs) != 1 || len(y.Rhs) != 1 {
		return false
	}
	if !r.simple(x.Lhs[0]) || !r.simple(y.Lhs[0]) || !r.pure(x.Rhs[0]) || !r.pure(y.Rhs[0]) {
		return false
	}
	wx, wy := lastName(x.Lhs[0]), lastName(y.Lhs[0])
	if wx == wy || mentions(y, wx) || mentions(x, wy) {
		return false
	}
	return true
}

func lastName(e ast.Expr) string {
	switch x := ast.Unparen(e).(type) {
	case *ast.Ident:
		return x.Name
	case *ast.SelectorExpr:
		return x.Sel.Name
	}
	return "?"
}

func mentions(n ast.Node, name string) bool {
	f := false
	ast.Inspect(n, func(m ast.Node) bool {
		if id, ok := m.(*ast.Ident); ok && id.Name == name {
			f = true
		}
		return true
	})
	return f
}

func (r *refac) pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			if tv, is := r.info.Types[x.Fun]; is && tv.IsType() {
				return true
			}
			if !r.isBuiltin(x, "len") && !r.isBuiltin(x, "make") && !r.isBuiltin(x, "cap") {
				ok = false
			}
		case *ast.IndexExpr, *ast.SliceExpr, *ast.StarExpr, *ast.FuncLit, *ast.TypeAssertExpr:
			ok = false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				ok = false
			}
		case *ast.BinaryExpr:
			if x.Op == token.QUO || x.Op == token.REM {
				ok = false
			}
		}
		return ok
	})
	return ok
}
