package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

func main() {
	prop := flag.String("property", "", "property to decide")
	all := flag.Bool("all", false, "run every rule and print the outcome (development)")
	only := flag.String("rule", "", "with -all: only this rule")
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	list := flag.Bool("list", false, "list the rules")
	verbose := flag.Bool("v", false, "")
	dump := flag.String("dump", "", "print the inlined paths' terms of a function (development)")
	replace := flag.String("replace", "", "ORIG=FILE: check the tree with this file's content substituted (development)")
	first := flag.Bool("first", false, "with -all: stop at the first rule that fails (development)")
	prefer := flag.String("prefer", "", "with -all: rules to run first (development)")
	skip := flag.String("skip", "", "with -all: leave out the rules whose id starts with this (development)")
	refac := flag.String("refactor", "", "KIND:OUTDIR[:FUNC]: write behaviour-preserving variants of the files (development)")
	flag.Parse()
	if o, f, ok := strings.Cut(*replace, "="); ok {
		replaceFiles[o] = f
	} else if *replace != "" { // a directory written by -refactor
		fs, _ := filepath.Glob(filepath.Join(*replace, "*.go"))
		for _, f := range fs {
			replaceFiles[filepath.Join(*repo, strings.ReplaceAll(filepath.Base(f), "__", "/"))] = f
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	r := report{prop: *prop, tier: tier, verif: *verif, seed: seed, start: time.Now()}
	if *list {
		for _, ru := range rules {
			fmt.Println(ru.ID, ru.Props, ru.Desc)
		}
		return
	}
	scratch, err := os.MkdirTemp("", "vck")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	abs, _ := filepath.Abs(*repo)
	p, err := Load(abs, filepath.Join(*verif, "stubs"), scratch)
	os.RemoveAll(scratch)
	if err != nil {
		if _, ok := err.(*loadError); ok && *prop != "" {
			r.evidence(map[string]any{"explanation": "the source could not be type-checked: " + err.Error()}, nil, 1)
			r.violation(1, Ob{Rule: "load", Construct: "type-check", Undecided: true, Reason: err.Error()})
			os.Exit(1)
		}
		fmt.Println(err)
		os.Exit(2)
	}
	if *refac != "" {
		a := append(strings.Split(*refac, ":"), "")
		refactorAll(p, a[0], a[1], a[2])
		return
	}
	if *dump != "" {
		dumpFn(p, *dump)
		return
	}
	if *all {
		t0 := time.Now()
		bad, hard := 0, false
		props := map[string]bool{}
		rank := map[string]int{}
		for i, id := range strings.Split(*prefer, ",") {
			rank[id] = i - 1000
		}
		sort.SliceStable(rules, func(i, j int) bool { return rank[rules[i].ID] < rank[rules[j].ID] })
		for _, ru := range rules {
			if *first && hard {
				break
			}
			if *skip != "" && strings.HasPrefix(ru.ID, *skip) {
				continue
			}
			if *only != "" && ru.ID != *only {
				continue
			}
			t := time.Now()
			c := runRule(p, ru)
			n := 0
			for _, o := range c.Obs {
				if o.Soft {
					fmt.Printf("SOFT %s [%s] %s\n", ru.ID, o.Construct, o.Reason)
				} else if !o.OK {
					n++
					hard = hard || !o.Undecided
					fmt.Printf("FAIL %s %v [%s] %s: %s undecided=%v\n", ru.ID, ru.Props, o.Construct, o.Pos, o.Reason, o.Undecided)
					if *verbose {
						for _, s := range o.Path {
							fmt.Println("      ", s)
						}
					}
				} else if *verbose {
					fmt.Printf("  ok %s [%s]\n", ru.ID, o.Construct)
				}
			}
			if n > 0 {
				bad++
				for _, q := range ru.Props {
					props[q] = true
				}
			}
			if d := time.Since(t); d > 500*time.Millisecond {
				fmt.Printf("slow %s %s steps=%d\n", ru.ID, d, c.Steps)
			}
		}
		var ps []string
		for q := range props {
			ps = append(ps, q)
		}
		sort.Strings(ps)
		fmt.Printf("%d rules, %d failing, props %v (load %s, rules %s)\n", len(rules), bad, ps, t0.Sub(r.start).Round(time.Millisecond), time.Since(t0).Round(time.Millisecond))
		if bad > 0 {
			os.Exit(1)
		}
		return
	}
	os.Exit(r.run(p, ""))
}
