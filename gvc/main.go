package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

type FnResult struct {
	name    string
	obs     []*Oblig
	houdini int
	trivial int
	inlined []string
	callees []string
	err     string
	notes   []string
}

// dropOptional removes contracts of helpers that no longer exist in this form;
// the helper's code is then inlined into its callers, and its loop invariants
// move to the contract named by opt fallback.
func dropOptional() {
	var ns []string
	for n, c := range specs.contracts {
		if c.opts["optional"] != "" {
			ns = append(ns, n)
		}
	}
	sort.Strings(ns)
	for _, n := range ns {
		c := specs.contracts[n]
		f := allFuncs[n]
		if f != nil && len(f.Params) == len(c.params) && f.Signature.Results().Len() == len(c.results) {
			continue
		}
		delete(specs.contracts, n)
		for _, fb := range strings.Split(c.opts["fallback"], ",") {
			if t := specs.contracts[fb]; t != nil {
				t.clauses = append(t.clauses, c.get("inv")...)
			}
		}
		for _, ps := range specs.props {
			var fs []string
			for _, x := range ps.funcs {
				if x != n {
					fs = append(fs, x)
				}
			}
			ps.funcs = fs
		}
	}
}

func verifyFunc(name, mode string) (r *FnResult) {
	r = &FnResult{name: name}
	fn := allFuncs[name]
	if fn == nil || fn.Blocks == nil {
		r.err = "function not found: " + name
		return
	}
	c := specs.contracts[name]
	if c == nil && mode != "lock" {
		r.err = "no contract for " + name
		return
	}
	if mode == "lock" {
		c = nil
	}
	e := &Exec{top: fn, contract: c, mode: mode, heapSorts: map[string]string{}, inlined: map[string]bool{}, callees: map[string]bool{}}
	if c != nil {
		e.uses = c.uses
	}
	defer func() {
		r.obs = e.obs
		r.houdini = e.houdiniProved
		r.trivial = e.trivial
		r.notes = e.notes
		for n := range e.inlined {
			r.inlined = append(r.inlined, n)
		}
		for n := range e.callees {
			r.callees = append(r.callees, n)
		}
		sort.Strings(r.inlined)
		sort.Strings(r.callees)
		for k, v := range e.heapSorts {
			globalSorts[k] = v
		}
		if x := recover(); x != nil {
			switch y := x.(type) {
			case unsupported:
				r.err = "outside the supported subset: " + string(y) + " at " + e.curPos
			case specErr:
				r.err = "contract does not apply: " + string(y) + " at " + e.curPos
			default:
				if os.Getenv("GVC_PANIC") != "" {
					panic(x)
				}
				r.err = fmt.Sprintf("verifier failure: %v at %s", x, e.curPos)
			}
		}
	}()
	e.verify()
	return
}

func main() {
	fn := flag.String("fn", "", "verify functions with this substring")
	contracts := flag.String("contracts", "/verif/contracts", "")
	repo := flag.String("repo", "/repo", "")
	verbose := flag.Bool("v", false, "")
	dump := flag.String("dump", "", "directory for failing queries")
	lemmas := flag.String("lemmas", "", "check lemmas of theory")
	list := flag.Bool("list", false, "")
	prop := flag.String("prop", "", "")
	flag.StringVar(&verifDir, "verif", "/verif", "")
	flag.Parse()
	t0 := time.Now()
	if err := loadSpecs(*contracts); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if *lemmas != "" {
		for _, th := range specs.theories {
			if *lemmas != "all" && th.name != *lemmas {
				continue
			}
			obs := theoryObligations(th.name)
			solveAll(obs)
			for _, o := range obs {
				report(o, *verbose, *dump)
			}
		}
		return
	}
	if err := load(*repo); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	dropOptional()
	if *list {
		for _, f := range sortedFuncs() {
			if inRepo(f) {
				fmt.Println(short(f.String()))
			}
		}
		return
	}
	if *prop != "" {
		os.Exit(runProperty(*prop))
	}
	fmt.Fprintf(os.Stderr, "load %.1fs\n", time.Since(t0).Seconds())
	var names []string
	for n := range specs.contracts {
		if strings.Contains(n, *fn) && allFuncs[n] != nil && !specs.contracts[n].trusted {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		t1 := time.Now()
		r := verifyFunc(n, specs.contracts[n].opts["mode"])
		t2 := time.Now()
		solveAll(r.obs)
		bad := 0
		for _, o := range r.obs {
			if !good(o) {
				bad++
			}
		}
		fmt.Printf("%s: %d obligations (+%d loop, %d trivial), %d failed, exec %.1fs solve %.1fs %s\n", n, len(r.obs), r.houdini, r.trivial, bad, t2.Sub(t1).Seconds(), time.Since(t2).Seconds(), r.err)
		for _, o := range r.obs {
			report(o, *verbose, *dump)
		}
		if *verbose {
			fmt.Println("  inlined:", r.inlined, "callees:", r.callees, r.notes)
		}
	}
}

func good(o *Oblig) bool {
	if o.Kind == "cover" {
		return o.Status != "unsat" && o.Status != "error"
	}
	return o.Status == "unsat"
}

var dumpN int

func report(o *Oblig, verbose bool, dump string) {
	if !good(o) || verbose {
		fmt.Printf("  %-7s %-9s %-6.2fs %s: %s (%s)\n", o.Status, o.Backend, o.Time, o.Pos, o.Name, o.Kind)
	}
	if !good(o) && dump != "" {
		dumpN++
		os.WriteFile(fmt.Sprintf("%s/f%d.smt2", dump, dumpN), []byte("; "+o.Fn+" "+o.Name+"\n"+o.query+"\n"), 0644)
		fmt.Printf("    -> f%d.smt2\n", dumpN)
		if o.Status == "error" {
			fmt.Println(o.Model)
		}
	}
}

func theoryObligations(name string) []*Oblig {
	th := specs.theories[name]
	var prefix strings.Builder
	for _, t := range theoryClosure(th.needs) {
		if t == th {
			continue
		}
		for _, it := range t.items {
			if it.kind == "decl" {
				prefix.WriteString(it.text + "\n")
			} else if !it.loc {
				fmt.Fprintf(&prefix, "(assert %s)\n", it.text)
			}
		}
	}
	var obs []*Oblig
	for _, it := range th.items {
		switch it.kind {
		case "decl":
			prefix.WriteString(it.text + "\n")
		case "axiom":
			fmt.Fprintf(&prefix, "(assert %s)\n", it.text)
		case "lemma":
			os2, err := lemmaObligations(it, prefix.String())
			if err != nil {
				fmt.Println(err)
			}
			obs = append(obs, os2...)
			fmt.Fprintf(&prefix, "(assert %s)\n", it.text)
		}
	}
	for _, o := range obs {
		o.Fn = "theory " + name
	}
	return obs
}
