package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Cand struct {
	name   string
	eval   func(st, pre *State) *Term
	auto   bool   // a bound generated from the code: only tried cheaply
	clause string // candidates from one contract clause
}

var houdiniMemo = map[string]map[string]bool{}

func (e *Exec) execLoop(fr *Frame, l *Loop, prev *ssa.BasicBlock, st *State, k Kont) {
	pre := st.clone()
	envs := copyEnvs(fr)
	hdrPos := fmt.Sprintf("%s#%d", short(fr.fn.String()), l.header.Index)

	// 1. discover what the loop modifies
	modCells := map[*Cell]bool{}
	modKeys := map[string]map[*Term]bool{} // refs; nil ref = whole
	allocChanged := false
	chunksChanged := map[int]bool{}
	fresh := map[string]bool{}
	for round := 0; ; round++ {
		if round > 12 {
			panic(unsupported("loop modset does not stabilise"))
		}
		h, names := e.havoc(pre, modCells, modKeys, allocChanged, chunksChanged)
		e.loopShared(fr, l, h)
		for n := range names {
			fresh[n] = true
		}
		rec := &Recorder{writes: map[string][]*Term{}, cells: map[*Cell]bool{}}
		changed := false
		e.recs = append(e.recs, rec)
		e.suppress++
		ctx := &LoopCtx{fr: fr, loop: l, dry: true}
		ctx.back = func(s *State) {
			if s.alloc != h.alloc && !allocChanged {
				allocChanged = true
				changed = true
			}
			if e.chunkDiff(h, s, chunksChanged) {
				changed = true
			}
			for key, v := range s.heap {
				if hv, ok := h.heap[key]; ok && hv != v {
					if _, known := rec.writes[key]; !known {
						rec.writes[key] = append(rec.writes[key], nil)
					}
				}
			}
		}
		e.loopCtx = append(e.loopCtx, ctx)
		allocH := h.alloc
		allocN := freshN["alloc"]
		freshBefore := copyCounts(freshN)
		e.discover++
		e.exec(fr, l.header, prev, 0, h, k)
		e.discover--
		e.loopCtx = e.loopCtx[:len(e.loopCtx)-1]
		e.suppress--
		e.recs = e.recs[:len(e.recs)-1]
		restoreEnvs(envs)
		for c := range rec.cells {
			if _, live := pre.cells[c]; live && !modCells[c] {
				modCells[c] = true
				changed = true
			}
		}
		var keys []string
		for key := range rec.writes {
			keys = append(keys, key)
		}
		sort.Strings(keys)
		for _, key := range keys {
			m := modKeys[key]
			if m == nil {
				m = map[*Term]bool{}
				modKeys[key] = m
				changed = true
			}
			for _, r := range rec.writes[key] {
				if r != nil {
					if dependsAlloc(r, allocH) || isLaterAlloc(r, allocN) {
						// allocated inside the loop: not live before it
						r = tNewRef
					} else if mentions(r, fresh) || mentionsLater(r, freshBefore) {
						r = nil
					}
				}
				if !m[r] {
					m[r] = true
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}

	// 2. candidates
	var cands []Cand
	if e.discover == 0 && e.mode != "lock" {
		cands = e.candidates(fr, l, pre, modCells, envs)
		cands = append(cands, e.frameCands(modKeys)...)
	}
	generated := cands
	memoKey := e.top.String() + "|" + hdrPos + "|" + fmt.Sprint(len(e.callStack)) + "|" + pre.trace
	memo := houdiniMemo[memoKey]
	if memo != nil && e.discover == 0 {
		var keep []Cand
		for _, c := range cands {
			if !memo[c.name] {
				keep = append(keep, c)
			}
		}
		cands = keep
	}
	// 3a. entry
	cands = e.filterCands(cands, pre, pre, "entry", true, nil)
	cands = e.filterCands(cands, pre, pre, "entry", false, nil)
	// 3b. preservation, to a fixpoint
	var h *State
	var sibs map[string]map[int]string
	for {
		h, _ = e.havoc(pre, modCells, modKeys, allocChanged, chunksChanged)
		e.loopShared(fr, l, h)
		sibs = map[string]map[int]string{}
		for _, c := range cands {
			if t := e.evalCand(c, h, pre); t != nil {
				n := len(h.path)
				h.assume(t)
				if c.clause != "" {
					if sibs[c.clause] == nil {
						sibs[c.clause] = map[int]string{}
					}
					for _, a := range h.path[n:] {
						sibs[c.clause][a.id] = c.name
					}
				}
			}
		}
		hsave := h.clone()
		var backs []*State
		e.suppress++
		ctx := &LoopCtx{fr: fr, loop: l, dry: true}
		ctx.back = func(s *State) { backs = append(backs, s) }
		e.loopCtx = append(e.loopCtx, ctx)
		e.exec(fr, l.header, prev, 0, h, k)
		e.loopCtx = e.loopCtx[:len(e.loopCtx)-1]
		e.suppress--
		restoreEnvs(envs)
		h = hsave
		n0 := len(cands)
		for _, b := range backs {
			if len(cands) == 0 {
				break
			}
			cands = e.filterCands(cands, b, pre, "back", true, nil)
		}
		if len(cands) != n0 {
			// bounds first: with a bound too many, the body may look different
			continue
		}
		for _, b := range backs {
			if len(cands) == 0 {
				break
			}
			cands = e.filterCands(cands, b, pre, "back", false, sibs)
		}
		if len(cands) == n0 {
			if e.suppress == 0 {
				e.houdiniProved += len(cands) * (len(backs) + 1)
				if len(cands) > 0 {
					e.notes = append(e.notes, fmt.Sprintf("loop %s: %d inductive invariants", hdrPos, len(cands)))
				}
			}
			break
		}
	}
	if e.discover == 0 {
		// a candidate dropped here fails under weaker assumptions as well
		kept := map[string]bool{}
		for _, c := range cands {
			kept[c.name] = true
		}
		m := houdiniMemo[memoKey]
		if m == nil {
			m = map[string]bool{}
			houdiniMemo[memoKey] = m
		}
		for _, c := range generated {
			if !kept[c.name] {
				m[c.name] = true
			}
		}
	}
	if os.Getenv("GVC_INV") != "" && e.suppress == 0 {
		for _, c := range cands {
			fmt.Fprintf(os.Stderr, "INV %s: %s\n", hdrPos, c.name)
		}
	}
	// 4. the real pass over body and exits
	ctx := &LoopCtx{fr: fr, loop: l}
	ctx.back = func(s *State) { e.loopLocks(pre, s) }
	e.loopCtx = append(e.loopCtx, ctx)
	e.exec(fr, l.header, prev, 0, h, k)
	e.loopCtx = e.loopCtx[:len(e.loopCtx)-1]
}

// frameCands: the loop leaves what the contract does not let it modify, and
// what existed on entry, unchanged. Only for heaps written at references the
// loop computes, which a havoc would lose.
func (e *Exec) frameCands(modKeys map[string]map[*Term]bool) []Cand {
	if e.contract == nil || e.contract.opts["noframe"] != "" {
		return nil
	}
	var locs []loc
	ok := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				ok = false
			}
		}()
		locs = e.modLocs(e.contractEnv(), e.contract, e.entry)
		return true
	}()
	if !ok {
		return nil
	}
	var out []Cand
	var ks []string
	for k := range modKeys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
next:
	for _, k := range ks {
		if !modKeys[k][nil] || strings.HasPrefix(k, "P.") {
			continue
		}
		var refs []*Term
		for _, l := range locs {
			if l.key == k {
				if l.ref == nil {
					continue next
				}
				refs = append(refs, l.ref)
			}
		}
		k := k
		bvCount++
		b := bvarT(fmt.Sprintf("fr?%d", bvCount), sInt)
		out = append(out, Cand{name: "frame " + k, eval: func(s, p *State) *Term {
			h, o := e.heapOf(s, k), e.heapOf(p, k)
			if h == nil || o == nil {
				return nil
			}
			if h == o {
				return tTrue
			}
			cs := []*Term{Le(intT(0), b), Lt(b, e.entry.alloc)}
			for _, r := range refs {
				cs = append(cs, Not(Eq(b, r)))
			}
			return Quant("forall", []*Term{b}, Imp(And(cs...), Eq(Select(h, b), Select(o, b))), Pat(Select(h, b)))
		}})
	}
	return out
}

func mentions(t *Term, names map[string]bool) bool {
	seen := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t.id] {
			return false
		}
		seen[t.id] = true
		if t.op == "var" && names[t.name] {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

var tNewRef = mk("app", "!new", sInt)

func copyCounts(m map[string]int) map[string]int {
	c := make(map[string]int, len(m))
	for k, v := range m {
		c[k] = v
	}
	return c
}

// isLaterAlloc: r is alloc!n + c for an allocation pointer created after count n0.
func isLaterAlloc(r *Term, n0 int) bool {
	for _, m := range polyOf(r).m {
		if len(m.atoms) == 1 && m.atoms[0].op == "var" && strings.HasPrefix(m.atoms[0].name, "alloc!") {
			var n int
			fmt.Sscanf(m.atoms[0].name, "alloc!%d", &n)
			if n > n0 {
				d := Sub(r, m.atoms[0])
				return d.rat != nil && d.rat.Sign() >= 0
			}
		}
	}
	return false
}

// mentionsLater: r mentions a variable created after the given counts.
func mentionsLater(r *Term, before map[string]int) bool {
	seen := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t.id] {
			return false
		}
		seen[t.id] = true
		if t.op == "var" {
			if i := strings.LastIndex(t.name, "!"); i > 0 {
				var n int
				fmt.Sscanf(t.name[i+1:], "%d", &n)
				if n > before[t.name[:i]] {
					return true
				}
			}
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(r)
}

// dependsAlloc: r is a+c for some constant c >= 0, i.e. allocated at or after a.
func dependsAlloc(r, a *Term) bool {
	d := Sub(r, a)
	return d.rat != nil && d.rat.Sign() >= 0
}

// havoc returns the state at an arbitrary iteration of a loop.
func (e *Exec) havoc(pre *State, cells map[*Cell]bool, keys map[string]map[*Term]bool, allocCh bool, chunksChanged map[int]bool) (*State, map[string]bool) {
	h := pre.clone()
	names := map[string]bool{}
	note := func(v Val) {
		var rec func(v Val)
		rec = func(v Val) {
			switch x := v.(type) {
			case *Term:
				if x.op == "var" {
					names[x.name] = true
				}
			case *SliceV:
				rec(x.arr)
				rec(x.off)
				rec(x.ln)
				rec(x.cp)
			case *StructV:
				for _, f := range x.f {
					rec(f)
				}
			case *FuncV:
				if x.term != nil {
					rec(x.term)
				}
			}
		}
		rec(v)
	}
	if allocCh {
		a := freshT("alloc", sInt)
		names[a.name] = true
		h.assume(Le(pre.alloc, a))
		h.alloc = a
	}
	for _, c := range sortedCells(cells) {
		var v Val
		if c.name == "mapiter" {
			v = freshT("visited", pre.cells[c].(*Term).sort)
		} else {
			v = e.freshVal(h, c.name, c.typ)
		}
		note(v)
		h.cells[c] = v
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		refs := keys[k]
		old := e.heapOf(h, k)
		if old == nil {
			continue
		}
		if refs[nil] {
			nh := freshT(k, old.sort)
			names[nh.name] = true
			h.heap[k] = nh
		} else if refs[tNewRef] {
			// everything live before the loop and not written by it is unchanged
			nh := freshT(k, old.sort)
			names[nh.name] = true
			bvCount++
			b := bvarT(fmt.Sprintf("lf?%d", bvCount), sInt)
			cs := []*Term{Lt(b, pre.alloc)}
			for _, r := range sortedRefs(refs) {
				if r != tNewRef {
					cs = append(cs, Not(Eq(b, r)))
				}
			}
			h.assume(Quant("forall", []*Term{b}, Imp(And(cs...), Eq(Select(nh, b), Select(old, b))), Pat(Select(nh, b))))
			h.heap[k] = nh
		} else {
			rs := sortedRefs(refs)
			cur := old
			for _, r := range rs {
				f := freshT(k, arrElem(old.sort))
				names[f.name] = true
				cur = Store(cur, r, f)
			}
			h.heap[k] = cur
		}
	}
	e.havocChunks(h, chunksChanged)
	return h, names
}

func sortedRefs(refs map[*Term]bool) []*Term {
	var rs []*Term
	for r := range refs {
		rs = append(rs, r)
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].id < rs[j].id })
	return rs
}

func (e *Exec) heapOf(st *State, k string) *Term {
	if h, ok := st.heap[k]; ok {
		return h
	}
	if s := e.keySort(k); s != "" {
		return e.heapGet(st, k, s)
	}
	return nil
}

func sortedCells(m map[*Cell]bool) []*Cell {
	var out []*Cell
	for c := range m {
		out = append(out, c)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func (e *Exec) evalCand(c Cand, st, pre *State) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case specErr, unsupported:
				if os.Getenv("GVC_CAND") != "" {
					fmt.Fprintf(os.Stderr, "cand %s: %v\n", c.name, r)
				}
				t = nil
			default:
				panic(r)
			}
		}
	}()
	return c.eval(st, pre)
}

func (e *Exec) filterCands(cands []Cand, st, pre *State, what string, auto bool, sibs map[string]map[int]string) []Cand {
	if !hardDeadline.IsZero() && time.Now().After(hardDeadline) {
		panic(unsupported("time budget exhausted while generating obligations"))
	}
	goals := make([]*Term, len(cands))
	var all []*Term
	keep := make([]bool, len(cands))
	for i, c := range cands {
		if c.auto != auto {
			keep[i] = true
			goals[i] = tTrue
			continue
		}
		goals[i] = e.evalCand(c, st, pre)
		if goals[i] == nil {
			continue
		}
		if goals[i] == tTrue || st.pset[goals[i].id] {
			keep[i] = true
			goals[i] = tTrue
			continue
		}
		all = append(all, goals[i])
	}
	if len(all) > 0 {
		rs := make([]bool, len(cands))
		if !auto && sibs != nil {
			// first without the other instances of the same clause as hypotheses
			var wg sync.WaitGroup
			for i, c := range cands {
				if goals[i] == nil || goals[i] == tTrue {
					continue
				}
				var hyps []*Term
				for _, t := range st.path {
					if n, ok := sibs[c.clause][t.id]; !ok || n == c.name {
						hyps = append(hyps, t)
					}
				}
				if len(hyps) == len(st.path) {
					continue
				}
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					rs[i] = quickProve(hyps, goals[i], e.uses, false)
				}(i)
			}
			wg.Wait()
		}
		rest := make([]*Term, len(goals))
		for i := range goals {
			if !rs[i] {
				rest[i] = goals[i]
			}
		}
		for i, r := range proveMany(st.path, rest, e.uses, auto) {
			rs[i] = rs[i] || r
		}
		for i := range cands {
			if goals[i] != nil && goals[i] != tTrue {
				keep[i] = rs[i]
			}
		}
	}
	var out []Cand
	for i, c := range cands {
		if keep[i] {
			out = append(out, c)
		} else if os.Getenv("GVC_CAND") != "" {
			fmt.Fprintf(os.Stderr, "drop %s at %s: %v\n", c.name, what, goals[i])
			if d := os.Getenv("GVC_DUMP"); d != "" && goals[i] != nil && strings.Contains(c.name, os.Getenv("GVC_CAND")) {
				dumpN++
				os.WriteFile(fmt.Sprintf("%s/c%d.smt2", d, dumpN), []byte("; "+c.name+" "+what+"\n"+buildQueryLocked(st.path, goals[i], e.uses)+"(check-sat)\n"), 0644)
			}
		}
	}
	return out
}

func kindOfPlaceholder(n string) byte { return n[1] }

func (e *Exec) candidates(fr *Frame, l *Loop, pre *State, mod map[*Cell]bool, envs []envSave) []Cand {
	var out []Cand
	// cells in scope: of this frame and its callers, plus modified ones
	inScope := map[*Cell]bool{}
	for c := range pre.cells {
		if mod[c] || c.fr == fr {
			inScope[c] = true
			continue
		}
		for f := fr.parent; f != nil; f = f.parent {
			if c.fr == f {
				inScope[c] = true
			}
		}
	}
	cells := sortedCells(inScope)
	cellName := func(c *Cell) string { return fmt.Sprintf("%s_%d", c.name, c.id) }
	// stable naming across Houdini reruns: position in the list
	idx := map[*Cell]int{}
	for i, c := range cells {
		idx[c] = i
	}
	cellName = func(c *Cell) string { return fmt.Sprintf("%s.%d", c.name, idx[c]) }
	get := func(st *State, c *Cell) *Term {
		v := st.cells[c].(*Term)
		if c.name == "rangeindex" {
			return Add(v, intT(1))
		}
		return v
	}
	isIntCell := func(c *Cell) bool {
		b, ok := c.typ.Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 || c.name == "mapiter" {
			return false
		}
		_, isT := pre.cells[c].(*Term)
		return isT
	}
	// automatic bounds
	for _, c := range cells {
		if !mod[c] || !isIntCell(c) {
			continue
		}
		c := c
		n := cellName(c)
		out = append(out,
			Cand{name: n + ">=entry", eval: func(s, p *State) *Term { return Ge(get(s, c), get(p, c)) }},
			Cand{name: n + "<=entry", eval: func(s, p *State) *Term { return Le(get(s, c), get(p, c)) }},
			Cand{name: n + ">=0", eval: func(s, p *State) *Term { return Ge(get(s, c), intT(0)) }},
			Cand{name: n + ">=1", eval: func(s, p *State) *Term { return Ge(get(s, c), intT(1)) }},
			Cand{name: n + ">=-1", eval: func(s, p *State) *Term { return Ge(get(s, c), intT(-1)) }})
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ:
			default:
				continue
			}
			for side := 0; side < 2; side++ {
				x, y := bo.X, bo.Y
				if side == 1 {
					x, y = y, x
				}
				c := cellOfLoad(fr, x)
				if c == nil || !mod[c] || !isIntCell(c) {
					continue
				}
				ye := symExpr(fr, y, 0)
				if ye == nil {
					continue
				}
				for d := int64(-1); d <= 1; d++ {
					d := d
					nm := fmt.Sprintf("%s vs %s@%d %+d", cellName(c), y.Name(), l.header.Index, d)
					out = append(out,
						Cand{name: nm + " <=", eval: func(s, p *State) *Term {
							return Le(get(s, c), Add(ye(e, fr, s), intT(d)))
						}},
						Cand{name: nm + " >=", eval: func(s, p *State) *Term {
							return Ge(get(s, c), Add(ye(e, fr, s), intT(d)))
						}})
				}
			}
		}
	}
	for i := range out {
		out[i].auto = true
	}
	// contract invariants
	var cl []*Clause
	if e.contract != nil {
		cl = e.contract.get("inv")
	}
	for ci, c := range cl {
		ph := map[string]bool{}
		collectPlaceholders(c.e, ph)
		var names []string
		for n := range ph {
			names = append(names, n)
		}
		sort.Strings(names)
		var rec func(i int, bind map[string]*Cell)
		ci := ci
		label := c.name
		if label == "" {
			label = fmt.Sprintf("inv%d", ci)
		}
		c := c
		rec = func(i int, bind map[string]*Cell) {
			if i == len(names) {
				b := map[string]SV{}
				nm := label
				anyMod := len(names) == 0
				for _, n := range names {
					b[n] = SV{bind[n], bind[n].typ}
					nm += " " + n + "=" + cellName(bind[n])
					if mod[bind[n]] || n[1] == 'z' {
						anyMod = true
					}
				}
				if !anyMod {
					return
				}
				env := e.contractEnv()
				for n, v := range b {
					env.vars[n] = v
				}
				out = append(out, Cand{name: nm, clause: fmt.Sprint("clause", ci), eval: func(s, p *State) *Term {
					ev := *env
					ev.pre = p
					return ev.evalBool(s, c.e)
				}})
				return
			}
			n := names[i]
			for _, cell := range cells {
				if !cellFits(n, cell, pre) || strings.HasSuffix(n, "M") && !mod[cell] {
					continue
				}
				used := false
				for _, o := range bind {
					if o == cell {
						used = true
					}
				}
				if used {
					continue
				}
				bind[n] = cell
				rec(i+1, bind)
				delete(bind, n)
			}
		}
		rec(0, map[string]*Cell{})
	}
	return out
}

// placeholder kinds by first letter: i,j,k,n,m int; a,s,r,x real; p pointer; v slice; b bool; e interface; w map iteration (visited set); a name ending in M is bound to variables the loop modifies
func cellFits(n string, c *Cell, pre *State) bool {
	v, ok := pre.cells[c]
	if !ok {
		return false
	}
	if c.name == "mapiter" {
		return n[1] == 'w'
	}
	switch n[1] {
	case 'i', 'j', 'k', 'n', 'm':
		t, ok := v.(*Term)
		if !ok || t.sort != sInt {
			return false
		}
		b, ok := c.typ.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	case 'a', 's', 'r', 'x':
		t, ok := v.(*Term)
		return ok && t.sort == sReal
	case 'p':
		_, ok := v.(*Term)
		_, isP := c.typ.Underlying().(*types.Pointer)
		return ok && isP
	case 'v':
		_, ok := v.(*SliceV)
		return ok
	case 'z':
		_, ok := v.(*Term)
		_, isM := c.typ.Underlying().(*types.Map)
		return ok && isM && c.name != "mapiter"
	case 'b':
		t, ok := v.(*Term)
		return ok && t.sort == sBool
	case 'e':
		t, ok := v.(*Term)
		return ok && t.sort == sVal
	}
	return false
}

func collectPlaceholders(x *Expr, m map[string]bool) {
	if x.op == "ident" && strings.HasPrefix(x.name, "$") {
		m[x.name] = true
	}
	for _, a := range x.args {
		collectPlaceholders(a, m)
	}
	for _, p := range x.pats {
		for _, a := range p {
			collectPlaceholders(a, m)
		}
	}
}

func (e *Exec) contractEnv() *Env {
	env := &Env{e: e, vars: map[string]SV{}, old: e.entry}
	for i, a := range e.args {
		n := e.top.Params[i].Name()
		if e.contract != nil && i < len(e.contract.params) {
			n = e.contract.params[i]
		}
		env.vars[n] = SV{a, e.top.Params[i].Type()}
	}
	return env
}

func cellOfLoad(fr *Frame, v ssa.Value) *Cell {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		// rangeindex: comparison uses the incremented value
		if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
			return cellOfLoad(fr, b.X)
		}
		return nil
	}
	p, ok := fr.env[u.X].(*PtrV)
	if !ok || p.kind != "cell" || len(p.path) > 0 {
		return nil
	}
	return p.cell
}

// symExpr re-evaluates a pure SSA expression in a given state.
func symExpr(fr *Frame, v ssa.Value, depth int) func(e *Exec, fr *Frame, st *State) *Term {
	if depth > 6 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Const:
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && x.Value != nil {
			return func(e *Exec, fr *Frame, st *State) *Term { return e.constVal(x).(*Term) }
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if b, ok := x.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
				return nil
			}
			pv, ok := addrOf(fr, x.X)
			if !ok {
				return nil
			}
			return func(e *Exec, fr *Frame, st *State) *Term {
				s := st.clone()
				t, ok := e.load(s, pv(e, s), x.Type()).(*Term)
				if !ok {
					panic(unsupported("symexpr"))
				}
				return t
			}
		}
	case *ssa.BinOp:
		a, b := symExpr(fr, x.X, depth+1), symExpr(fr, x.Y, depth+1)
		if a == nil || b == nil {
			return nil
		}
		switch x.Op {
		case token.ADD:
			return func(e *Exec, fr *Frame, st *State) *Term { return Add(a(e, fr, st), b(e, fr, st)) }
		case token.SUB:
			return func(e *Exec, fr *Frame, st *State) *Term { return Sub(a(e, fr, st), b(e, fr, st)) }
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			// length of a slice value
			arg := x.Call.Args[0]
			if _, isS := arg.Type().Underlying().(*types.Slice); !isS {
				return nil
			}
			if u, ok := arg.(*ssa.UnOp); ok && u.Op == token.MUL {
				pv, ok := addrOf(fr, u.X)
				if !ok {
					return nil
				}
				return func(e *Exec, fr *Frame, st *State) *Term {
					s := st.clone()
					sl, ok := e.load(s, pv(e, s), u.Type()).(*SliceV)
					if !ok {
						panic(unsupported("symexpr"))
					}
					return sl.ln
				}
			}
			if sl, ok := fr.env[arg].(*SliceV); ok {
				return func(e *Exec, fr *Frame, st *State) *Term { return sl.ln }
			}
		}
		if t, ok := fr.env[x].(*Term); ok && t.sort == sInt {
			return func(e *Exec, fr *Frame, st *State) *Term { return t }
		}
	default:
		if t, ok := fr.env[v].(*Term); ok && t.sort == sInt {
			return func(e *Exec, fr *Frame, st *State) *Term { return t }
		}
	}
	return nil
}

// addrOf: a re-evaluable address.
func addrOf(fr *Frame, v ssa.Value) (func(e *Exec, st *State) Val, bool) {
	if fa, ok := v.(*ssa.FieldAddr); ok {
		if u, ok := fa.X.(*ssa.UnOp); ok && u.Op == token.MUL {
			base, ok := addrOf(fr, u.X)
			if !ok {
				return nil, false
			}
			owner := fa.X.Type().Underlying().(*types.Pointer).Elem()
			return func(e *Exec, st *State) Val {
				return e.fieldAddr(st, e.load(st, base(e, st), u.Type()), owner, fa.Field)
			}, true
		}
	}
	if pv, ok := fr.env[v]; ok {
		return func(e *Exec, st *State) Val { return pv }, true
	}
	return nil, false
}
