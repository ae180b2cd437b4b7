package main

// Conditional constant propagation of strings: in a scenario that gives some terms string constants, path and URI
// computations (concatenation, joining, trimming, splitting) are folded to constants and the branches they decide are
// followed. A string constant is represented by a number.

import (
	"go/token"
	"net/url"
	"path"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const strBase = int64(1) << 50

var (
	strIDs  = map[string]int64{}
	strVals []string
)

// strID is the number of a string constant.
func strID(s string) int64 {
	if id, ok := strIDs[s]; ok {
		return id
	}
	id := strBase + int64(len(strVals))
	strIDs[s] = id
	strVals = append(strVals, s)
	return id
}

func strOf(id int64) (string, bool) {
	if i := id - strBase; i >= 0 && i < int64(len(strVals)) {
		return strVals[i], true
	}
	return "", false
}

// srole gives the terms matching is a string constant.
type srole struct {
	is  func(*Term) bool
	val string
}

const listSep = "\x00"

const emptyList = listSep + "\x01empty"

func list(a []string) string {
	if len(a) == 0 {
		return emptyList
	}
	return listSep + strings.Join(a, listSep)
}

func unlist(s string) ([]string, bool) {
	if !strings.HasPrefix(s, listSep) {
		return nil, false
	}
	if s == emptyList {
		return nil, true
	}
	return strings.Split(s[1:], listSep), true
}

// strs is the scenario in which the given terms have the given strings (after extra, which comes first).
func strs(extra Asg, roles ...srole) Asg {
	var self Asg
	str := func(t *Term) (string, bool) {
		v, ok := evalTerm(t, self)
		if !ok {
			return "", false
		}
		return strOf(v)
	}
	num := func(t *Term) (int, bool) {
		v, ok := evalTerm(t, self)
		if _, isStr := strOf(v); isStr {
			return 0, false
		}
		return int(v), ok
	}
	ret := func(s string) (int64, bool) { return strID(s), true }
	yes := func(b bool) (int64, bool) {
		if b {
			return 1, true
		}
		return 0, true
	}
	// the arguments of a call, variadic ones expanded
	args := func(t *Term) ([]string, bool) {
		var out []string
		for _, a := range t.A {
			if a.L != nil {
				for _, e := range a.L {
					s, ok := str(e)
					if !ok {
						return nil, false
					}
					out = append(out, s)
				}
				continue
			}
			if a.Op == "const" && a.S == "nil" {
				continue
			}
			s, ok := str(a)
			if !ok {
				return nil, false
			}
			if l, ok := unlist(s); ok {
				out = append(out, l...)
				continue
			}
			out = append(out, s)
		}
		return out, true
	}
	absOf := func(s string) string {
		if filepath.IsAbs(s) {
			return filepath.Clean(s)
		}
		return filepath.Join("/cwd", s)
	}
	self = func(t *Term) (int64, bool) {
		if extra != nil {
			if v, ok := extra(t); ok {
				return v, true
			}
		}
		for _, r := range roles {
			if r.is(t) {
				return ret(r.val)
			}
		}
		switch t.Op {
		case "const":
			if strings.HasPrefix(t.S, "\"") {
				if s, err := strconv.Unquote(t.S); err == nil {
					return ret(s)
				}
			}
		case "bin":
			a, ok1 := str(t.A[0])
			b, ok2 := str(t.A[1])
			if !ok1 || !ok2 {
				return 0, false
			}
			switch t.S {
			case "+":
				return ret(a + b)
			case "<":
				return yes(a < b)
			case "<=":
				return yes(a <= b)
			case ">":
				return yes(a > b)
			case ">=":
				return yes(a >= b)
			}
		case "slice":
			s, ok := str(t.A[0])
			if !ok {
				return 0, false
			}
			l, isList := unlist(s)
			n := len(s)
			if isList {
				n = len(l)
			}
			lo, hi := 0, n
			if t.A[1].S != "" {
				if lo, ok = num(t.A[1]); !ok {
					return 0, false
				}
			}
			if t.A[2].S != "" {
				if hi, ok = num(t.A[2]); !ok {
					return 0, false
				}
			}
			if lo < 0 || hi > n || lo > hi {
				return 0, false
			}
			if isList {
				return ret(list(l[lo:hi]))
			}
			return ret(s[lo:hi])
		case "index", "lookup":
			s, ok := str(t.A[0])
			i, ok2 := num(t.A[1])
			if !ok || !ok2 {
				return 0, false
			}
			if l, isList := unlist(s); isList {
				if i >= 0 && i < len(l) {
					return ret(l[i])
				}
				return 0, false
			}
			if i >= 0 && i < len(s) {
				return int64(s[i]), true
			}
		case "field":
			if t.A[0].Op == "extract" && t.A[0].S == "0" && t.A[0].A[0].isCall("net/url.Parse") {
				if s, ok := str(t.A[0].A[0].A[0]); ok {
					if u, err := url.Parse(s); err == nil {
						switch t.S {
						case "Host":
							return ret(u.Host)
						case "Path":
							return ret(u.Path)
						case "Scheme":
							return ret(u.Scheme)
						}
					}
				}
			}
		case "extract":
			c := t.A[0]
			if c.Op != "call" {
				return 0, false
			}
			i, _ := strconv.Atoi(t.S)
			switch c.S {
			case "strings.Cut", "strings.CutPrefix", "strings.CutSuffix", "path.Split", "path/filepath.Split", "path/filepath.Abs", "path/filepath.Rel", "net/url.Parse", "strconv.ParseUint", "strconv.ParseInt", "strconv.Atoi":
			default:
				return 0, false
			}
			if strings.HasPrefix(c.S, "strconv.") {
				a, ok := str(c.A[0])
				if !ok {
					return 0, false
				}
				n, err := strconv.ParseInt(a, 10, 64)
				if i == 1 {
					return yes(err != nil)
				}
				return n, err == nil
			}
			a, ok := args(c)
			if !ok {
				return 0, false
			}
			switch c.S {
			case "strings.Cut":
				x, y, f := strings.Cut(a[0], a[1])
				switch i {
				case 0:
					return ret(x)
				case 1:
					return ret(y)
				}
				return yes(f)
			case "strings.CutPrefix", "strings.CutSuffix":
				f := strings.CutPrefix
				if c.S == "strings.CutSuffix" {
					f = strings.CutSuffix
				}
				x, ok := f(a[0], a[1])
				if i == 0 {
					return ret(x)
				}
				return yes(ok)
			case "path.Split", "path/filepath.Split":
				x, y := path.Split(a[0])
				if i == 0 {
					return ret(x)
				}
				return ret(y)
			case "path/filepath.Abs":
				if i == 0 {
					return ret(absOf(a[0]))
				}
				return 0, true
			case "path/filepath.Rel":
				x, err := filepath.Rel(a[0], a[1])
				if i == 0 {
					return ret(x)
				}
				return yes(err != nil)
			case "net/url.Parse":
				if i == 1 {
					_, err := url.Parse(a[0])
					return yes(err != nil)
				}
			}
		case "call":
			switch t.S {
			case "builtin.len":
				if s, ok := str(t.A[0]); ok {
					if l, isList := unlist(s); isList {
						return int64(len(l)), true
					}
					return int64(len(s)), true
				}
				return 0, false
			case "path.Join", "path/filepath.Join", "path.Dir", "path/filepath.Dir", "path.Base", "path/filepath.Base", "path.Clean", "path/filepath.Clean",
				"path.IsAbs", "path/filepath.IsAbs", "path.Ext", "path/filepath.Ext", "path/filepath.ToSlash", "path/filepath.FromSlash",
				"strings.HasPrefix", "strings.HasSuffix", "strings.TrimPrefix", "strings.TrimSuffix", "strings.TrimLeft", "strings.TrimRight", "strings.Trim", "strings.TrimSpace",
				"strings.Index", "strings.LastIndex", "strings.Contains", "strings.Split", "strings.ToLower", "strings.EqualFold", "util/ptr.New":
				a, ok := args(t)
				if !ok || len(a) == 0 {
					return 0, false
				}
				switch t.S {
				case "path.Join", "path/filepath.Join":
					return ret(path.Join(a...))
				case "path.Dir", "path/filepath.Dir":
					return ret(path.Dir(a[0]))
				case "path.Base", "path/filepath.Base":
					return ret(path.Base(a[0]))
				case "path.Clean", "path/filepath.Clean":
					return ret(path.Clean(a[0]))
				case "path.Ext", "path/filepath.Ext":
					return ret(path.Ext(a[0]))
				case "path/filepath.ToSlash", "path/filepath.FromSlash", "util/ptr.New":
					return ret(a[0])
				case "path.IsAbs", "path/filepath.IsAbs":
					return yes(path.IsAbs(a[0]))
				case "strings.TrimSpace":
					return ret(strings.TrimSpace(a[0]))
				case "strings.ToLower":
					return ret(strings.ToLower(a[0]))
				}
				if len(a) < 2 {
					return 0, false
				}
				switch t.S {
				case "strings.HasPrefix":
					return yes(strings.HasPrefix(a[0], a[1]))
				case "strings.HasSuffix":
					return yes(strings.HasSuffix(a[0], a[1]))
				case "strings.TrimPrefix":
					return ret(strings.TrimPrefix(a[0], a[1]))
				case "strings.TrimSuffix":
					return ret(strings.TrimSuffix(a[0], a[1]))
				case "strings.TrimLeft":
					return ret(strings.TrimLeft(a[0], a[1]))
				case "strings.TrimRight":
					return ret(strings.TrimRight(a[0], a[1]))
				case "strings.Trim":
					return ret(strings.Trim(a[0], a[1]))
				case "strings.Index":
					return int64(strings.Index(a[0], a[1])), true
				case "strings.LastIndex":
					return int64(strings.LastIndex(a[0], a[1])), true
				case "strings.Contains":
					return yes(strings.Contains(a[0], a[1]))
				case "strings.Split":
					return ret(list(strings.Split(a[0], a[1])))
				case "strings.EqualFold":
					return yes(strings.EqualFold(a[0], a[1]))
				}
			case "strings.SplitN":
				a, ok1 := str(t.A[0])
				b, ok2 := str(t.A[1])
				n, ok3 := num(t.A[2])
				if ok1 && ok2 && ok3 {
					return ret(list(strings.SplitN(a, b, n)))
				}
			}
		}
		return 0, false
	}
	return self
}

// str folds a value to a string constant.
func (x X) str(t *Term, asg Asg) (string, bool) {
	v, ok := evalTerm(t, asg)
	if !ok {
		return "", false
	}
	return strOf(v)
}

// deref folds the string a pointer refers to.
func (x X) deref(v V, asg Asg) (string, bool) {
	for i := 0; i < 10; i++ {
		switch y := v.X.(type) {
		case *ssa.Alloc, *ssa.FreeVar:
			cell, ok := x.g.cellOf(v)
			if !ok {
				return x.str(x.t(v), asg)
			}
			st, _ := x.g.storesTo(cell)
			out := ""
			for i, s := range st {
				r, ok := x.str(x.t(s), asg)
				if !ok || i > 0 && r != out {
					return "", false
				}
				out = r
			}
			return out, len(st) > 0
		case *ssa.ChangeType:
			v = V{v.C, y.X}
		default:
			return x.str(x.t(v), asg)
		}
	}
	return "", false
}

// inputField is the value stored in a field of a local struct whose address is passed as argument i.
func (x X) inputField(i int, field string) (V, bool) {
	cell, ok := x.g.cellOf(x.arg(i))
	if !ok {
		return V{}, false
	}
	var out V
	n := 0
	for _, r := range *cell.X.Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok || fieldName(fa) != field {
			continue
		}
		for _, u := range *fa.Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Addr == fa {
				out = V{cell.C, st.Val}
				n++
			}
		}
	}
	return out, n == 1
}

func fieldName(fa *ssa.FieldAddr) string {
	st := structOf(fa.X.Type())
	if st == nil {
		return ""
	}
	return st.Field(fa.Field).Name()
}

// builds gives the string constants stored in the fields of typ ("pkg.T") on the paths of the scenario.
func (q *Q) builds(typ string, asg Asg) map[string]string {
	out := map[string]string{}
	w := q.when(asg)
	w.visits(func(x X) bool {
		s, ok := x.n.I.(*ssa.Store)
		if !ok || x.n.R != nil {
			return false
		}
		_, ok = s.Addr.(*ssa.FieldAddr)
		return ok
	}, func(x X) {
		s := x.n.I.(*ssa.Store)
		fa := s.Addr.(*ssa.FieldAddr)
		f := typeName(fa.X.Type()) + "." + fieldName(fa)
		if !strings.HasPrefix(f, typ+".") {
			return
		}
		v, ok := x.str(x.t(V{x.n.C, s.Val}), asg)
		if !ok {
			return
		}
		if old, ok := out[f]; ok && old != v {
			v = "\x01several"
		}
		out[f] = v
	})
	return out
}

// having gives the fields of a struct their strings.
func having(fields map[string]string) []srole {
	var out []srole
	for f, v := range fields {
		out = append(out, srole{fieldIs(f), v})
	}
	return out
}

var _ = token.ADD
