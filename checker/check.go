package main

// Rules, obligations and the report of one property.

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Rule struct {
	ID    string
	Props []string
	Desc  string
	Run   func(c *Check)
}

var rules []*Rule

// rule registers a rule that is a necessary condition of the named properties.
func rule(id, props, desc string, run func(c *Check)) {
	for _, r := range rules {
		if r.ID == id {
			panic("duplicate rule " + id)
		}
	}
	rules = append(rules, &Rule{ID: id, Props: strings.Fields(props), Desc: desc, Run: run})
}

// Ob is one decided obligation.
type Ob struct {
	Rule      string   `json:"rule"`
	Construct string   `json:"construct"`
	OK        bool     `json:"ok"`
	Undecided bool     `json:"undecided,omitempty"`
	Soft      bool     `json:"unresolved,omitempty"`
	Reason    string   `json:"reason,omitempty"`
	Pos       string   `json:"pos,omitempty"`
	Path      []string `json:"path,omitempty"`
}

type Check struct {
	P     *Prog
	Rule  *Rule
	Obs   []Ob
	Funcs map[string]bool
	Steps int
	Sites int
}

type abort struct{ ob Ob }

func (c *Check) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := c.P.Fset.Position(p)
	return strings.TrimPrefix(q.Filename, c.P.root+"/") + fmt.Sprintf(":%d", q.Line)
}

func (c *Check) ok(construct string) {
	c.Obs = append(c.Obs, Ob{Rule: c.Rule.ID, Construct: construct, OK: true})
}

func (c *Check) fail(construct string, p token.Pos, format string, a ...any) {
	ob := Ob{Rule: c.Rule.ID, Construct: construct, Reason: fmt.Sprintf(format, a...), Pos: c.pos(p)}
	for _, o := range c.Obs {
		if !o.OK && o.Construct == ob.Construct && o.Reason == ob.Reason && o.Pos == ob.Pos {
			return
		}
	}
	c.Obs = append(c.Obs, ob)
}

// undecided ends the rule: an anchor is missing or the analysis could not be completed.
func (c *Check) undecided(construct string, format string, a ...any) {
	panic(abort{Ob{Rule: c.Rule.ID, Construct: construct, Undecided: true, Reason: fmt.Sprintf(format, a...)}})
}

// expect records the outcome of a decided condition.
func (c *Check) expect(cond bool, construct string, p token.Pos, format string, a ...any) {
	if cond {
		c.ok(construct)
	} else {
		c.fail(construct, p, format, a...)
	}
}

func runRule(p *Prog, r *Rule) (c *Check) {
	c = &Check{P: p, Rule: r, Funcs: map[string]bool{}}
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(abortRule); ok {
				return
			}
			if a, ok := x.(abort); ok {
				c.Obs = append(c.Obs, a.ob)
				return
			}
			c.Obs = append(c.Obs, Ob{Rule: r.ID, Construct: "analysis", Undecided: true,
				Reason: fmt.Sprintf("panic: %v\n%s", x, debug.Stack())})
		}
	}()
	r.Run(c)
	if len(c.Obs) == 0 {
		c.Obs = append(c.Obs, Ob{Rule: r.ID, Construct: "instances", Undecided: true, Reason: "the rule found nothing to decide"})
	}
	return c
}

// fn resolves an anchor function.
func (c *Check) fn(name string) *ssa.Function {
	f := c.P.lookup(name)
	if f == nil {
		c.undecided(name, "anchor function not found")
	}
	c.Funcs[name] = true
	return f
}

var fnIndex map[string]*ssa.Function

func (p *Prog) lookup(name string) *ssa.Function {
	if fnIndex == nil {
		fnIndex = map[string]*ssa.Function{}
		for _, f := range p.Funcs {
			if f.Parent() != nil || f.Synthetic != "" {
				continue
			}
			n := fname(f)
			if fnIndex[n] == nil || f.Origin() == nil {
				fnIndex[n] = f
			}
		}
	}
	return fnIndex[name]
}

func (c *Check) graph(root string) *Graph { return NewGraph(c.P, c.fn(root), nil) }

// graphIn inlines functions of the listed packages (besides the root's).
func (c *Check) graphIn(root string, pkgs ...string) *Graph {
	f := c.fn(root)
	rp := pkgOf(f)
	return NewGraph(c.P, f, func(_ *Ctx, g *ssa.Function) bool {
		k := pkgOf(g)
		if k == rp || plainHelper(g) {
			return true
		}
		for _, x := range pkgs {
			if k == x {
				return true
			}
		}
		return false
	})
}

func (c *Check) pathStrings(path []N) []string {
	var out []string
	last := ""
	for i := len(path) - 1; i >= 0; i-- {
		n := path[i]
		p := n.I.Pos()
		if !p.IsValid() {
			continue
		}
		s := c.pos(p)
		if s != last {
			out = append(out, s+" ("+n.C.Fn.Name()+")")
			last = s
		}
	}
	if len(out) > 60 {
		out = append(append(out[:30:30], "..."), out[len(out)-29:]...)
	}
	return out
}

// known findings: "KNOWN property=<id> rule=<rule> construct=<construct> -- <what fails>"
type known struct{ prop, rule, construct, what string }

func readKnown(file string) []known {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "KNOWN ") {
			continue
		}
		k := known{}
		head, what, _ := strings.Cut(strings.TrimPrefix(l, "KNOWN "), " -- ")
		k.what = what
		for _, f := range strings.Split(head, "; ") {
			key, v, _ := strings.Cut(f, "=")
			switch strings.TrimSpace(key) {
			case "property":
				k.prop = v
			case "rule":
				k.rule = v
			case "construct":
				k.construct = v
			}
		}
		out = append(out, k)
	}
	return out
}

type report struct {
	prop, tier, verif string
	seed              int
	start             time.Time
}

func (r report) evidence(cov map[string]any, assumptions []string, violations int) {
	ev := map[string]any{
		"property": r.prop, "tier": r.tier, "seed": r.seed, "level": "other",
		"coverage": cov, "assumptions": assumptions, "violations": violations,
		"wall_s": float64(time.Since(r.start).Milliseconds()) / 1000,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(r.verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(r.verif, "evidence", r.prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

func (r report) violation(i int, ob Ob) {
	dir := filepath.Join(r.verif, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	f := filepath.Join(dir, fmt.Sprintf("%s-%d.json", r.prop, i))
	b, _ := json.MarshalIndent(ob, "", " ")
	os.WriteFile(f, append(b, '\n'), 0o644)
	kind := "violated"
	if ob.Undecided {
		kind = "undecided"
	}
	fmt.Printf("%s %s [%s]: %s: %s\n", ob.Pos, ob.Rule, ob.Construct, kind, ob.Reason)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, f)
}

func (r report) run(p *Prog, scope string) int {
	var obs []Ob
	funcs := map[string]bool{}
	var used []map[string]any
	steps, sites := 0, 0
	for _, ru := range rules {
		hit := false
		for _, pr := range ru.Props {
			hit = hit || pr == r.prop
		}
		if !hit {
			continue
		}
		c := runRule(p, ru)
		obs = append(obs, c.Obs...)
		for f := range c.Funcs {
			funcs[f] = true
		}
		steps += c.Steps
		sites += c.Sites
		good := 0
		var cons []string
		for _, o := range c.Obs {
			if o.OK {
				good++
			}
			cons = append(cons, o.Construct)
		}
		used = append(used, map[string]any{"rule": ru.ID, "what": ru.Desc, "obligations": len(c.Obs), "discharged": good, "constructs": cons})
	}
	kn := readKnown(filepath.Join(r.verif, "known_findings.txt"))
	bad, good, knownHits, unresolved := 0, 0, 0, 0
	printed := map[string]bool{}
	var lost []Ob
	for _, o := range obs {
		if o.OK {
			good++
			continue
		}
		if o.Soft || o.Undecided {
			// not readable by the rule: recorded, and an alarm only when too little is left (below)
			unresolved++
			lost = append(lost, o)
			continue
		}
		listed := false
		for _, k := range kn {
			if k.prop == r.prop && k.rule == o.Rule && k.construct == o.Construct && !o.Undecided {
				listed = true
				if !printed[k.rule+k.construct] {
					printed[k.rule+k.construct] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.prop, k.what)
				}
			}
		}
		if listed {
			knownHits++
			continue
		}
		bad++
		r.violation(bad, o)
	}
	for _, o := range lost {
		fmt.Printf("UNRESOLVED %s [%s] %s: %s\n", o.Rule, o.Construct, o.Pos, firstLine(o.Reason))
	}
	if unresolved > 0 && unresolved*3 > len(obs) {
		bad++
		r.violation(bad, Ob{Rule: "coverage", Construct: r.prop, Undecided: true, Reason: fmt.Sprintf("%d of %d obligations could not be decided; first: %s", unresolved, len(obs), firstLine(lost[0].Reason))})
	}
	if len(used) == 0 {
		bad++
		r.violation(bad, Ob{Rule: "none", Construct: r.prop, Undecided: true, Reason: "no rule is registered for this property"})
	}
	var fs []string
	for f := range funcs {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	r.evidence(map[string]any{
		"explanation":        "static analysis: each obligation is one rule instance decided on the SSA form of /repo's current source; nothing was executed",
		"packages_analysed":  len(p.Repo),
		"files_analysed":     p.NFile,
		"functions_in_scope": len(p.Funcs),
		"anchor_functions":   fs,
		"rules":              used,
		"obligations":        len(obs),
		"discharged":         good,
		"known_findings":     knownHits,
		"unresolved":         unresolved,
		"path_steps":         steps,
		"sites_decided":      sites,
	}, assumptionsFor(r.prop), bad)
	fmt.Printf("%s: %d rules, %d obligations, %d discharged, %d known findings, %d violations (%d functions anchored, %.1fs)\n",
		r.prop, len(used), len(obs), good, knownHits, bad, len(fs), time.Since(r.start).Seconds())
	if bad > 0 {
		return 1
	}
	return 0
}

func assumptionsFor(prop string) []string {
	return []string{
		"the type-checked source and go/ssa represent what the compiler builds",
		"reduction-go and reduction-protocol are represented by the stand-ins in /verif/stubs (types and signatures only)",
		"the rules decide the structural clauses listed under coverage.rules, each a necessary condition of the property; they do not decide the property's full behaviour (DESIGN.md says per property what is left)",
	}
}

func firstLine(s string) string {
	l, _, _ := strings.Cut(s, "\n")
	return l
}
