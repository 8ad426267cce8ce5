package main

import (
	"bufio"
	"context"
	"crypto/sha256"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

var theoryTextCache = map[string]string{}

func theoryFor(uses []string) string {
	k := strings.Join(uses, ",")
	if t, ok := theoryTextCache[k]; ok {
		return t
	}
	t := theoryText(uses)
	theoryTextCache[k] = t
	return t
}

func declText(uses []string) string {
	var b strings.Builder
	for _, t := range theoryClosure(uses) {
		for _, it := range t.items {
			if it.kind == "decl" {
				b.WriteString(it.text + "\n")
			}
		}
	}
	return b.String()
}

// substConsts replaces every integer term a hypothesis equates with a literal
// by that literal (slice offsets, mostly), so that patterns match.
func substConsts(hyps []*Term, goal *Term) ([]*Term, *Term) {
	m := map[int]*Term{}
	skip := map[int]bool{}
	for _, h := range hyps {
		if h.op != "app" || h.name != "=" || h.args[0].sort != sInt {
			continue
		}
		a, b := h.args[0], h.args[1]
		if b.rat != nil {
			a, b = b, a
		}
		if a.rat != nil && (b.op == "var" || b.op == "app" && b.name == "select") && m[b.id] == nil {
			m[b.id] = a
			skip[h.id] = true
		}
	}
	if len(m) == 0 {
		return hyps, goal
	}
	memo := map[int]*Term{}
	out := make([]*Term, len(hyps))
	for i, h := range hyps {
		if skip[h.id] {
			out[i] = h
		} else {
			out[i] = subst(h, m, memo)
		}
	}
	return out, subst(goal, m, memo)
}

// invProducts: for every product R*inv(P) of the query, P = 0 or P*inv(P)*R = R,
// and the same for R divided by a monomial of P; with these, reasoning about
// quotients becomes linear over the products.
func invProducts(ts []*Term) []*Term {
	seen := map[int]bool{}
	done := map[string]bool{}
	var out []*Term
	var visit func(t *Term)
	add := func(u *Term, R []*Term) {
		key := fmt.Sprint(u.id) + "|" + monoKey(R)
		if done[key] || len(R) == 0 || len(out) >= 80 {
			return
		}
		done[key] = true
		r := realT(1)
		for _, x := range R {
			r = Mul(r, x)
		}
		P := u.args[0]
		out = append(out, Or(Eq(P, realT(0)), Eq(Mul(Mul(P, u), r), r)))
	}
	product := func(atoms []*Term) {
		for i, u := range atoms {
			if u.op != "app" || u.name != "inv" || i > 0 && atoms[i-1] == u {
				continue
			}
			R := append(append([]*Term{}, atoms[:i]...), atoms[i+1:]...)
			add(u, R)
			for _, m := range polyOf(u.args[0]).sorted() {
				rest := append([]*Term{}, R...)
				ok := len(m.atoms) > 0
				for _, x := range m.atoms {
					f := false
					for j, y := range rest {
						if x == y {
							rest = append(append([]*Term{}, rest[:j]...), rest[j+1:]...)
							f = true
							break
						}
					}
					ok = ok && f
				}
				if ok {
					add(u, rest)
				}
			}
		}
	}
	visit = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == "forall" || t.op == "exists" {
			return
		}
		if t.op == "app" && t.sort == sReal && (t.name == "*" || t.name == "+") {
			for _, m := range polyOf(t).sorted() {
				product(m.atoms)
			}
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	for _, t := range ts {
		visit(t)
	}
	return out
}

// buildQuery renders hyps /\ not goal.
func buildQuery(hyps []*Term, goal *Term, uses []string, axioms bool) string {
	hyps, goal = substConsts(hyps, goal)
	p := newPrinter()
	for _, h := range hyps {
		p.scan(h)
	}
	ng := Not(goal)
	p.scan(ng)
	var body strings.Builder
	emit := func(t *Term) {
		s := p.str(t)
		for _, d := range p.defs {
			body.WriteString(d + "\n")
		}
		p.defs = nil
		body.WriteString("(assert " + s + ")\n")
	}
	for _, h := range hyps {
		emit(h)
	}
	var invs []*Term
	for _, t := range p.invs {
		invs = append(invs, t)
	}
	sort.Slice(invs, func(i, j int) bool { return invs[i].id < invs[j].id })
	for _, t := range invs {
		x := t.args[0]
		emit(Or(Eq(x, realT(0)), Eq(mk("app", "*", sReal, x, t), realT(1))))
		emit(Or(Le(x, realT(0)), Lt(realT(0), t)))
		emit(Or(Le(realT(0), x), Lt(t, realT(0))))
	}
	for _, t := range invProducts(append(append([]*Term{}, hyps...), ng)) {
		emit(t)
	}
	emit(ng)
	var b strings.Builder
	if axioms {
		b.WriteString(theoryFor(uses))
	} else {
		b.WriteString(declText(uses))
	}
	var fs []string
	for f := range p.funs {
		if s, ok := autoFuns[f]; ok {
			fs = append(fs, fmt.Sprintf("(declare-fun %s (%s) %s)\n", f, strings.Join(s.args, " "), s.ret))
		}
	}
	sort.Strings(fs)
	for _, f := range fs {
		b.WriteString(f)
	}
	for _, v := range p.order {
		if _, isF := funSigs[v]; isF {
			continue
		}
		fmt.Fprintf(&b, "(declare-const %s %s)\n", v, p.vars[v])
	}
	b.WriteString(body.String())
	return b.String()
}

type backend struct {
	name string
	args []string
	pre  string
}

var backends = []backend{
	{"z3-new/ematch", []string{"z3-new", "-in"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"},
	{"z3-new", []string{"z3-new", "-in"}, ""},
	{"cvc5", []string{"cvc5", "--lang=smt2", "--incremental"}, "(set-logic ALL)\n"},
	{"z3", []string{"z3", "-in"}, "(set-option :smt.mbqi false)\n(set-option :auto_config false)\n"},
}

var solverTime = map[string]float64{}
var solverMu sync.Mutex

func runSolver(b backend, query string, timeout time.Duration) (string, string) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout+500*time.Millisecond)
	defer cancel()
	var args []string
	pre := b.pre
	if strings.HasPrefix(b.name, "cvc5") {
		args = append(args, b.args[1:]...)
		args = append(args, fmt.Sprintf("--tlimit=%d", timeout.Milliseconds()))
	} else {
		args = append(args, b.args[1:]...)
		args = append(args, fmt.Sprintf("-t:%d", timeout.Milliseconds()))
	}
	cmd := exec.CommandContext(ctx, b.args[0], args...)
	cmd.Stdin = strings.NewReader(pre + query)
	t0 := time.Now()
	out, _ := cmd.Output()
	dt := time.Since(t0).Seconds()
	solverMu.Lock()
	solverTime[b.name] += dt
	solverMu.Unlock()
	s := string(out)
	first := ""
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" {
			first = l
			break
		}
		if strings.HasPrefix(l, "(error") {
			return "error", s
		}
	}
	return first, s
}

var cacheDir = os.Getenv("GVC_CACHE")

func cacheGet(q string) (string, bool) {
	if cacheDir == "" {
		return "", false
	}
	h := fmt.Sprintf("%x", sha256.Sum256([]byte(q)))
	d, err := os.ReadFile(filepath.Join(cacheDir, h))
	if err != nil {
		return "", false
	}
	return string(d), true
}
func cachePut(q, s string) {
	if cacheDir == "" {
		return
	}
	h := fmt.Sprintf("%x", sha256.Sum256([]byte(q)))
	os.WriteFile(filepath.Join(cacheDir, h), []byte(s), 0644)
}

var timeoutScale = 1.0

func ms(n int) time.Duration { return time.Duration(float64(n)*timeoutScale) * time.Millisecond }

var sem = make(chan struct{}, 8)

// solve discharges one obligation, trying the back ends in turn.
func solve(o *Oblig, round int) {
	q := o.raw
	if q == "" {
		q = buildQueryLocked(o.hyps, o.goal, o.uses)
		q += "(check-sat)\n"
	}
	o.query = q
	if s, ok := cacheGet(q); ok && strings.HasPrefix(s, "unsat ") && o.Kind != "cover" {
		o.Status = "unsat"
		o.Backend = strings.TrimPrefix(s, "unsat ")
		return
	}
	sem <- struct{}{}
	defer func() { <-sem }()
	t0 := time.Now()
	defer func() { o.Time = time.Since(t0).Seconds() }()
	type att struct {
		b int
		t int
	}
	atts := []att{{3, 1000}, {0, 2000}, {1, 2000}, {2, 4000}}
	if round == 1 {
		atts = []att{{3, 8000}, {0, 12000}, {2, 15000}}
	}
	if round == 2 {
		atts = []att{{1, 20000}, {0, 40000}, {2, 40000}}
	}
	if o.Kind == "cover" {
		atts = []att{{0, 1500}, {1, 1500}}
	}
	o.Status = "unknown"
	for i, a := range atts {
		if i == 1 && round == 0 && o.goal != nil && o.Kind != "cover" && fieldProve(o) {
			o.Status = "unsat"
			o.Backend = "field"
			return
		}
		r, out := runSolver(backends[a.b], q, ms(a.t))
		if r == "error" {
			o.Model = out
			o.Backend = backends[a.b].name
			if a.b != 2 {
				o.Status = "error"
				return
			}
			continue
		}
		if r == "unsat" {
			o.Status = "unsat"
			o.Backend = backends[a.b].name
			cachePut(q, "unsat "+o.Backend)
			return
		}
		if r == "sat" {
			o.Status = "sat"
			o.Backend = backends[a.b].name
			_, m := runSolver(backends[a.b], q+"(get-model)\n", ms(a.t))
			o.Model = m
			return
		}
	}
}

var termMu sync.Mutex

func buildQueryLocked(hyps []*Term, goal *Term, uses []string) string {
	termMu.Lock()
	defer termMu.Unlock()
	return buildQuery(hyps, goal, uses, true)
}

func solveRound(obs []*Oblig, round int) {
	var wg sync.WaitGroup
	byLean := map[string][]*Oblig{}
	for _, o := range obs {
		if o.lean != "" {
			if o.Status == "" {
				byLean[o.lean] = append(byLean[o.lean], o)
			}
			continue
		}
		wg.Add(1)
		go func(o *Oblig) {
			defer wg.Done()
			solve(o, round)
		}(o)
	}
	for th, os := range byLean {
		wg.Add(1)
		go func(th string, os []*Oblig) {
			defer wg.Done()
			solveLean(th, os)
		}(th, os)
	}
	wg.Wait()
}

func solveAll(obs []*Oblig) {
	solveStaged(obs, time.Now().Add(120*time.Second))
}

var proveMemo = map[string]bool{}
var proveMu sync.Mutex

func quickProve(hyps []*Term, g *Term, uses []string, auto bool) bool {
	if auto {
		// quantifier-free facts first; a quick refutation settles most bounds
		termMu.Lock()
		var qf []*Term
		for _, t := range hyps {
			if !hasQuant(t) {
				qf = append(qf, t)
			}
		}
		q := buildQuery(qf, g, uses, false) + "(check-sat)\n"
		termMu.Unlock()
		proveMu.Lock()
		r, ok := proveMemo[q]
		proveMu.Unlock()
		if ok && r {
			return true
		}
		if !ok {
			sem <- struct{}{}
			s, _ := runSolver(backends[0], q, ms(300))
			<-sem
			proveMu.Lock()
			proveMemo[q] = s == "unsat"
			proveMu.Unlock()
			if s == "unsat" {
				return true
			}
		}
	}
	q := buildQueryLocked(hyps, g, uses) + "(check-sat)\n"
	proveMu.Lock()
	r, ok := proveMemo[q]
	proveMu.Unlock()
	if ok {
		return r
	}
	if s, ok := cacheGet("Q" + q); ok {
		return s == "y"
	}
	sem <- struct{}{}
	defer func() { <-sem }()
	res := false
	for i, a := range []struct {
		b, t int
	}{{3, 700}, {0, 1000}, {1, 1000}, {2, 2000}} {
		if auto && i > 1 {
			break
		}
		s, out := runSolver(backends[a.b], q, ms(a.t))
		if s == "unsat" {
			res = true
			break
		}
		if s == "sat" {
			break
		}
		if s == "error" && a.b != 2 {
			fmt.Fprintln(os.Stderr, "solver error:", out)
			if d := os.Getenv("GVC_DUMP"); d != "" {
				os.WriteFile(filepath.Join(d, "error.smt2"), []byte(q), 0644)
			}
			break
		}
	}
	proveMu.Lock()
	proveMemo[q] = res
	proveMu.Unlock()
	if res {
		cachePut("Q"+q, "y")
	} else {
		cachePut("Q"+q, "n")
	}
	return res
}

func proveMany(hyps []*Term, goals []*Term, uses []string, auto bool) []bool {
	res := make([]bool, len(goals))
	var wg sync.WaitGroup
	for i, g := range goals {
		if g == nil || g == tTrue {
			continue
		}
		wg.Add(1)
		go func(i int, g *Term) {
			defer wg.Done()
			res[i] = quickProve(hyps, g, uses, auto)
		}(i, g)
	}
	wg.Wait()
	return res
}

// ---------- incremental feasibility checks ----------

type incr struct {
	in  io.WriteCloser
	out *bufio.Reader
	cmd *exec.Cmd
	key string
}

var inc *incr

func (e *Exec) feasible(st *State) bool {
	if st.dead() {
		return false
	}
	var qf []*Term
	for _, t := range st.path {
		if !hasQuant(t) {
			qf = append(qf, t)
		}
	}
	q := buildQuery(qf, tFalse, e.uses, false)
	// declarations of theories go once per session
	d := declText(e.uses)
	body := strings.TrimPrefix(q, d)
	key := strings.Join(e.uses, ",")
	feasCount++
	if inc == nil || inc.key != key {
		if inc != nil {
			inc.in.Close()
			inc.cmd.Process.Kill()
			inc.cmd.Wait()
		}
		cmd := exec.Command("z3-new", "-in")
		in, _ := cmd.StdinPipe()
		out, _ := cmd.StdoutPipe()
		if err := cmd.Start(); err != nil {
			inc = nil
			return true
		}
		inc = &incr{in, bufio.NewReader(out), cmd, key}
		io.WriteString(inc.in, "(set-option :timeout 300)\n"+d)
	}
	io.WriteString(inc.in, "(push)\n"+body+"(check-sat)\n(pop)\n")
	for {
		l, err := inc.out.ReadString('\n')
		if err != nil {
			inc = nil
			return true
		}
		l = strings.TrimSpace(l)
		switch {
		case l == "unsat":
			return false
		case l == "sat" || l == "unknown" || l == "timeout":
			return true
		case strings.HasPrefix(l, "(error"):
			if os.Getenv("GVC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "feas:", l)
			}
		}
	}
}

var feasCount int

var quantMemo = map[int]bool{}

func hasQuant(t *Term) bool {
	if r, ok := quantMemo[t.id]; ok {
		return r
	}
	r := t.op == "forall" || t.op == "exists"
	if !r {
		for _, a := range t.args {
			if hasQuant(a) {
				r = true
				break
			}
		}
	}
	quantMemo[t.id] = r
	return r
}
