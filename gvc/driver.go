package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// FnReport is the evidence about one function under contract.
type FnReport struct {
	Function    string   `json:"function"`
	Mode        string   `json:"mode,omitempty"`
	Obligations int      `json:"obligations"`
	Discharged  int      `json:"discharged"`
	Syntactic   int      `json:"discharged_by_the_term_normaliser"`
	LoopFacts   int      `json:"loop_invariant_obligations_discharged"`
	Inlined     []string `json:"verified_in_place,omitempty"`
	Error       string   `json:"not_generated,omitempty"`
}

var verifDir = "/verif"

const loopBackend = "z3-new/cvc5 (loop invariants)"

func propertyClosure(ps *PropSpec, mode string) []string {
	seen := map[string]bool{}
	var out []string
	for _, f := range ps.funcs {
		if !seen[f] {
			seen[f] = true
			out = append(out, f)
		}
	}
	// auto=pkg,pkg: every exported method on a pointer receiver
	if ps.opts["auto"] != "" {
		skip := map[string]bool{}
		for _, n := range strings.Split(ps.opts["skip"], ",") {
			skip[n] = true
		}
		pkgs := map[string]bool{}
		for _, n := range strings.Split(ps.opts["auto"], ",") {
			pkgs[n] = true
		}
		var more []string
		for n, f := range allFuncs {
			if f.Signature.Recv() == nil || f.Synthetic != "" || f.Parent() != nil || f.Pkg == nil || !pkgs[f.Pkg.Pkg.Name()] || !inRepo(f) {
				continue
			}
			if ast.IsExported(f.Name()) && !skip[f.Name()] && !seen[n] {
				seen[n] = true
				more = append(more, n)
			}
		}
		sort.Strings(more)
		out = append(out, more...)
	}
	return out
}

func runProperty(id string) int {
	t0 := time.Now()
	ps := specs.props[id]
	if ps == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if tier == "thorough" {
		timeoutScale = 3
	}
	deadline := t0.Add(420 * time.Second)
	if tier == "thorough" {
		deadline = t0.Add(2400 * time.Second)
	}
	hardDeadline = deadline
	mode := ps.opts["mode"]
	entryPred, entryType = ps.opts["entry"], ps.opts["entrytype"]
	var reports []*FnReport
	var failures []string
	var details strings.Builder
	trusted := map[string]bool{}
	usesSet := map[string]bool{}
	assumed := map[string]bool{}
	byBackend := map[string]int{}
	total, discharged, covers := 0, 0, 0

	queue := propertyClosure(ps, mode)
	done := map[string]bool{}
	for _, f := range queue {
		done[f] = true
	}
	type job struct {
		r  *FnResult
		rp *FnReport
	}
	var jobs []job
	var all []*Oblig
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		var r *FnResult
		if time.Now().After(deadline) {
			r = &FnResult{name: f, err: "time budget exhausted before this function"}
		} else {
			m := mode
			if c := specs.contracts[f]; c != nil && c.opts["mode"] != "" {
				m = c.opts["mode"]
			}
			if c := specs.contracts[f]; mode == "lock" && c != nil && c.opts["goroutines"] != "" {
				// the loop invariants of the functional contract count the workers
				r = verifyFunc(f, "")
				var obs []*Oblig
				for _, o := range r.obs {
					if o.Kind == "lock" || o.Kind == "cover" || o.Kind == "vacuity" {
						obs = append(obs, o)
					}
				}
				r.obs = obs
			} else {
				r = verifyFunc(f, m)
			}
		}
		rp := &FnReport{Function: f, Mode: mode, Inlined: r.inlined, Error: r.err, Syntactic: r.trivial, LoopFacts: r.houdini}
		reports = append(reports, rp)
		jobs = append(jobs, job{r, rp})
		all = append(all, r.obs...)
		if r.err != "" {
			failures = append(failures, f+": "+r.err)
			fmt.Fprintf(&details, "FUNCTION %s: obligations could not be generated: %s\n", f, r.err)
		}
		if c := specs.contracts[f]; c != nil {
			for _, u := range c.uses {
				usesSet[u] = true
			}
			for _, cl := range c.get("assume") {
				assumed[f+": "+cl.text] = true
			}
		}
		for _, g := range specs.globals {
			if fn := allFuncs[f]; fn != nil && fn.Pkg != nil && fn.Pkg.Pkg.Name() == g.pkg && !done[g.pkg+".init"] {
				done[g.pkg+".init"] = true
				queue = append(queue, g.pkg+".init")
			}
		}
		for _, cal := range r.callees {
			c := specs.contracts[cal]
			if c == nil {
				continue
			}
			if c.trusted || allFuncs[cal] == nil {
				trusted[cal] = true
				continue
			}
			if !done[cal] {
				done[cal] = true
				queue = append(queue, cal)
			}
		}
	}
	// lemmas of the theories in use
	var us []string
	for u := range usesSet {
		us = append(us, u)
	}
	sort.Strings(us)
	lemmaN := 0
	axioms := map[string]bool{}
	for _, th := range theoryClosure(us) {
		obs := theoryObligations(th.name)
		lemmaN += len(obs)
		all = append(all, obs...)
		for _, it := range th.items {
			if it.kind == "axiom" {
				axioms[th.name+"."+it.name] = true
			}
		}
	}
	solveStaged(all, deadline)
	count := func(o *Oblig) bool {
		if o.Kind == "cover" {
			covers++
			return good(o)
		}
		total++
		if good(o) {
			discharged++
			byBackend[o.Backend]++
			return true
		}
		return false
	}
	fail := func(o *Oblig) {
		n := fmt.Sprintf("%s: %s (%s) at %s", o.Fn, o.Name, o.Kind, o.Pos)
		failures = append(failures, n)
		fmt.Fprintf(&details, "OBLIGATION %s: %s by %s after %.1fs\n", n, o.Status, o.Backend, o.Time)
		if o.Model != "" && len(o.Model) < 6000 {
			fmt.Fprintf(&details, "  solver output:\n%s\n", o.Model)
		}
	}
	for _, j := range jobs {
		for _, o := range j.r.obs {
			ok := count(o)
			if o.Kind != "cover" {
				j.rp.Obligations++
				if ok {
					j.rp.Discharged++
				}
			}
			if !ok {
				fail(o)
			}
		}
		total += j.r.houdini + j.r.trivial
		discharged += j.r.houdini + j.r.trivial
		byBackend["term normaliser"] += j.r.trivial
		byBackend[loopBackend] += j.r.houdini
		if mode != "lock" && j.r.err == "" && len(j.r.obs)+j.r.trivial+j.r.houdini == 0 {
			failures = append(failures, j.r.name+": no obligation was generated")
		}
	}
	lemmaOK := 0
	for _, o := range all {
		if o.Kind == "lemma" {
			if count(o) {
				lemmaOK++
			} else {
				fail(o)
			}
		}
	}
	// paper lemmas checked by Lean
	var leanRep []map[string]interface{}
	for _, lf := range ps.lean {
		rep, errs := runLean(lf)
		leanRep = append(leanRep, rep)
		n, _ := rep["theorems"].(int)
		total += n
		if len(errs) == 0 {
			discharged += n
			byBackend["lean"] += n
		}
		failures = append(failures, errs...)
	}
	if total == 0 {
		failures = append(failures, "no obligation was generated")
	}
	viol := 0
	rc := 0
	if len(failures) > 0 {
		viol = 1
		rc = 1
		path := replay(id, seed, tier, failures, details.String())
		fmt.Printf("VIOLATION property=%s %s\n", id, path)
	} else {
		fmt.Printf("OK property=%s: %d obligations discharged over %d functions in %.1fs\n", id, discharged, len(reports), time.Since(t0).Seconds())
	}
	// evidence
	fnNames := map[string]bool{}
	for _, r := range reports {
		fnNames[r.Function] = true
		for _, i := range r.Inlined {
			fnNames[i] = true
		}
	}
	var tb []string
	tb = append(tb, "gvc (the condition generator in /verif/gvc): symbolic execution of golang.org/x/tools/go/ssa (naive form) of /repo's current source",
		"the Go type checker and SSA builder", "the SMT solvers z3 4.8.12/z3-new and cvc5 1.1.2 (one of them suffices per obligation)")
	for _, t := range keysOf(trusted) {
		tb = append(tb, "assumed contract: "+t)
	}
	for _, a := range keysOf(axioms) {
		tb = append(tb, "axiom: "+a)
	}
	if len(ps.lean) > 0 {
		tb = append(tb, "Lean 4 kernel and Mathlib (statements linking the recurrences to the definitions)")
	}
	assumptions := []string{
		"float64 arithmetic is treated as exact real arithmetic (no rounding, no NaN); infinities only as the bounds POSINF/NEGINF",
		"int and uint64 are mathematical integers except where a contract opts into overflow obligations; conversions to unsigned carry a non-negativity obligation",
		"memory is never exhausted; slices longer than the address space do not exist",
		"functions are verified sequentially against the object's lock discipline (property C19 proves the lock discipline separately)",
		"an object's fields are reached only through the verified functions of its package (encapsulation)",
	}
	for _, t := range strings.Split(ps.opts["assume"], "|") {
		if t != "" {
			assumptions = append(assumptions, strings.ReplaceAll(t, "_", " "))
		}
	}
	if entryPred != "" {
		assumptions = append(assumptions, "the property is about objects of type "+entryType+" with "+entryPred+"; that never changes (each operation's contract keeps the configuration)")
	}
	for _, a := range keysOf(assumed) {
		assumptions = append(assumptions, "assumed: "+a)
	}
	solverS := map[string]float64{}
	for k, v := range solverTime {
		solverS[k] = float64(int(v*1000)) / 1000
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "proof",
		"coverage": map[string]interface{}{
			"obligations": total, "discharged": discharged,
			"checker_cmd":              "cd /verif && ./check.sh " + id,
			"trusted_base":             tb,
			"functions_under_contract": reports,
			"functions_verified":       len(fnNames),
			"lemma_obligations":        lemmaN,
			"lemma_discharged":         lemmaOK,
			"vacuity_covers":           covers,
			"discharged_by":            byBackend,
			"solver_seconds":           solverS,
			"lean":                     leanRep,
			"failed":                   failures,
		},
		"assumptions": assumptions,
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), append(b, '\n'), 0644)
	for i, f := range failures {
		if i < 20 {
			fmt.Fprintln(os.Stderr, "  failed:", f)
		}
	}
	return rc
}

func keysOf(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var hardDeadline time.Time

// solveStaged: a short round over everything, then longer rounds over what is left.
func solveStaged(obs []*Oblig, deadline time.Time) {
	solveRound(obs, 0)
	for r := 1; r <= 2; r++ {
		var left []*Oblig
		for _, o := range obs {
			if !good(o) && o.Kind != "cover" && o.Status != "sat" {
				left = append(left, o)
			}
		}
		if len(left) == 0 || time.Now().After(deadline) {
			return
		}
		// when many fail, something is genuinely wrong: a sample suffices
		if len(left) > 24 {
			left = left[:24]
		}
		solveRound(left, r)
	}
}

// replay searches for a concrete failing input on the real code and returns
// the rest of the VIOLATION line.
func replay(id string, seed int, tier string, failures []string, details string) string {
	dir := filepath.Join(verifDir, "evidence", "replay")
	os.MkdirAll(dir, 0755)
	out := filepath.Join(dir, id+".txt")
	head := "property " + id + "\nfailed obligations:\n  " + strings.Join(failures, "\n  ") + "\n\n" + details + "\n"
	secs := "60"
	if tier == "thorough" {
		secs = "300"
	}
	race := id == "C19" || id == "C20"
	bin, err := buildReplay(race)
	if err != nil && race {
		race = false
		bin, err = buildReplay(false)
	}
	found := ""
	if err == nil {
		ctx, cancel := context.WithTimeout(context.Background(), 340*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, bin, "-prop", id, "-seed", strconv.Itoa(seed), "-secs", secs)
		cmd.Dir = filepath.Dir(bin)
		var buf bytes.Buffer
		cmd.Stdout = &buf
		cmd.Stderr = &buf
		cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GORACE=halt_on_error=1")
		rerr := cmd.Run()
		s := buf.String()
		if i := strings.Index(s, "FOUND "); i >= 0 {
			found = s[i:]
		} else if rerr != nil && (strings.Contains(s, "panic:") || strings.Contains(s, "fatal error:") || strings.Contains(s, "DATA RACE")) {
			if strings.Contains(s, "github.com/alexander-yu/stream") {
				found = "FOUND crash or data race of the replayed program:\n" + tail(s, 12000)
			}
		}
		if found == "" {
			head += "replay search output:\n" + tail(s, 4000) + "\n"
		}
		os.RemoveAll(filepath.Dir(bin))
	} else {
		head += "replay harness did not build against /repo: " + err.Error() + "\n"
	}
	if found != "" {
		os.WriteFile(out, []byte(head+"concrete failing input, replayed against the code in /repo:\n"+found+"\n"), 0644)
		return "replay=" + out
	}
	os.WriteFile(out, []byte(head+"no failing input found\n"), 0644)
	return "replay=" + out + " no-failing-input-found"
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func buildReplay(race bool) (string, error) {
	tmp, err := os.MkdirTemp("", "gvcreplay")
	if err != nil {
		return "", err
	}
	bin := filepath.Join(tmp, "replay")
	args := []string{"build", "-o", bin}
	if race {
		args = append(args, "-race")
	}
	cmd := exec.Command("go", append(args, ".")...)
	cmd.Dir = filepath.Join(verifDir, "replay")
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod")
	o, err := cmd.CombinedOutput()
	if err != nil {
		os.RemoveAll(tmp)
		return "", fmt.Errorf("%v: %s", err, tail(string(o), 2000))
	}
	return bin, nil
}

const leanBin = "/app/lean4-4.33.0/build/release/stage1/bin/lean"

// runLean checks a Lean file: no error, no sorry, only standard axioms.
func runLean(f string) (map[string]interface{}, []string) {
	path := filepath.Join(verifDir, "lean", f)
	rep := map[string]interface{}{"file": "lean/" + f}
	src, err := os.ReadFile(path)
	if err != nil {
		return rep, []string{"lean: " + err.Error()}
	}
	n := 0
	for _, l := range strings.Split(string(src), "\n") {
		if strings.HasPrefix(l, "theorem ") || strings.HasPrefix(l, "lemma ") {
			n++
		}
	}
	rep["theorems"] = n
	bin := "lean"
	if _, err := exec.LookPath(bin); err != nil {
		bin = leanBin
	}
	ctx, cancel := context.WithTimeout(context.Background(), 400*time.Second)
	defer cancel()
	t0 := time.Now()
	out, err := exec.CommandContext(ctx, bin, path).CombinedOutput()
	rep["seconds"] = time.Since(t0).Seconds()
	s := string(out)
	var errs []string
	if err != nil || strings.Contains(s, "error") {
		errs = append(errs, "lean: "+f+" was not accepted: "+tail(s, 1500))
	}
	if strings.Contains(s, "sorry") || strings.Contains(string(src), "sorry") {
		errs = append(errs, "lean: "+f+" uses sorry")
	}
	if strings.Contains(string(src), "\naxiom ") {
		errs = append(errs, "lean: "+f+" declares an axiom")
	}
	return rep, errs
}
