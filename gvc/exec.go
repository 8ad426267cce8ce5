package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Oblig is one proof obligation.
type Oblig struct {
	Name     string
	Kind     string
	Fn       string
	Pos      string
	hyps     []*Term
	goal     *Term
	uses     []string
	raw      string
	leanStmt string
	lean     string // decided by this Lean file
	query    string

	Status  string // "unsat" (discharged), "sat", "unknown"
	Backend string
	Time    float64
	Model   string
}

// Frame is one activation of a function being executed.
type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	parent *Frame
	loops  map[*ssa.BasicBlock]*Loop
	id     int
	gor    bool // body of a goroutine
}

type Kont func(st *State, res []Val)

// Loop is a natural loop.
type Loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

type LoopCtx struct {
	fr   *Frame
	loop *Loop
	back func(st *State)
	dry  bool // drop exits
}

var loopCache = map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	if l, ok := loopCache[fn]; ok {
		return l
	}
	res := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := res[s]
				if l == nil {
					l = &Loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					res[s] = l
				}
				var work []*ssa.BasicBlock
				if !l.body[b] {
					l.body[b] = true
					work = append(work, b)
				}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					for _, p := range x.Preds {
						if !l.body[p] {
							l.body[p] = true
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	loopCache[fn] = res
	return res
}

var frameN int

func (e *Exec) newFrame(fn *ssa.Function, parent *Frame) *Frame {
	frameN++
	return &Frame{fn: fn, env: map[ssa.Value]Val{}, parent: parent, loops: findLoops(fn), id: frameN}
}

func (e *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return e.curPos
	}
	ps := prog.Fset.Position(p)
	f := ps.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (e *Exec) oblige(st *State, kind, name string, goal *Term) {
	if e.mode == "lock" {
		st.assume(goal)
		return
	}
	if goal == tTrue {
		if e.suppress == 0 {
			e.trivial++
		}
		return
	}
	if st.pset[goal.id] {
		if e.suppress == 0 {
			e.trivial++
		}
		return
	}
	if e.suppress == 0 {
		o := &Oblig{Name: name, Kind: kind, Fn: short(e.top.String()), Pos: e.curPos, hyps: st.path[:len(st.path):len(st.path)], goal: goal, uses: e.uses}
		e.obs = append(e.obs, o)
	}
	st.assume(goal)
}

// ---------- running a function against its contract ----------

func (e *Exec) verify() {
	fn := e.top
	st := newState()
	st.assume(Le(intT(1), st.alloc))
	c := e.contract
	env := &Env{e: e, vars: map[string]SV{}}
	fr := e.newFrame(fn, nil)
	for i, p := range fn.Params {
		name := p.Name()
		if c != nil && i < len(c.params) {
			name = c.params[i]
		}
		v := e.paramVal(st, name, p.Type())
		e.args = append(e.args, v)
		fr.env[p] = v
		env.vars[name] = SV{v, p.Type()}
	}
	for _, fv := range fn.FreeVars {
		et := fv.Type().Underlying().(*types.Pointer).Elem()
		cl := e.newCell(fv.Name(), et, fr)
		st.cells[cl] = e.freshVal(st, fv.Name(), et)
		fr.env[fv] = &PtrV{kind: "cell", cell: cl, elem: et}
		env.vars[fv.Name()] = SV{st.cells[cl], et}
	}
	if c != nil {
		for _, cl := range c.clauses {
			if cl.kind == "requires" || cl.kind == "assume" {
				st.assume(env.evalBool(st, cl.e))
			}
		}
	}
	if p := specs.preds[entryPred]; p != nil && c != nil && len(fn.Params) > 0 && short(fn.Params[0].Type().String()) == entryType {
		st.assume(env.evalBool(st, parseExpr(entryPred+"("+c.params[0]+")")))
	}
	for _, g := range e.globalInvs() {
		if fn.Name() != "init" {
			st.assume(env.evalBool(st, g.e))
		}
	}
	e.seedTrees(st, env)
	e.seedLocks(st, env)
	// reachability of the precondition: must not be refutable
	if c != nil && len(c.get("requires")) > 0 {
		e.obs = append(e.obs, &Oblig{Name: "precondition satisfiable", Kind: "cover", Fn: short(fn.String()), hyps: st.path[:len(st.path):len(st.path)], goal: tFalse, uses: e.uses})
	}
	e.entry = st.clone()
	env.old = e.entry
	e.callStack = append(e.callStack, fn.String())
	e.curPos = e.pos(fn.Pos())
	e.execBody(fr, st, func(st *State, res []Val) {
		e.exit(env, fr, st, res)
	})
	if e.retCount == 0 {
		e.obs = append(e.obs, &Oblig{Name: "function has a feasible return path", Kind: "vacuity", Fn: short(fn.String()), goal: tFalse, uses: e.uses})
	}
}

// entryPred narrows a property to the objects it speaks about: the predicate
// is assumed of the first parameter when that has type entryType.
var entryPred, entryType string

func (e *Exec) paramVal(st *State, name string, t types.Type) Val {
	return e.freshVal(st, name, t)
}

func (e *Exec) exit(env0 *Env, fr *Frame, st *State, res []Val) {
	e.retCount++
	c := e.contract
	if c == nil {
		e.exitLocks(st)
		return
	}
	env := env0
	rt := fr.fn.Signature.Results()
	for i := 0; i < rt.Len(); i++ {
		n := fmt.Sprintf("result%d", i)
		if i < len(c.results) {
			n = c.results[i]
		}
		env = env.with(n, SV{res[i], rt.At(i).Type()})
	}
	for _, fv := range fr.fn.FreeVars {
		p := fr.env[fv].(*PtrV)
		env = env.with(fv.Name()+"_", SV{st.cells[p.cell], p.cell.typ})
	}
	e.ghostUpdates(c, env, st)
	e.exitTrees(c, env, st, res)
	for i, cl := range c.clauses {
		if cl.kind != "ensures" {
			continue
		}
		nm := cl.name
		if nm == "" {
			nm = fmt.Sprintf("%d", i)
		}
		g := env.evalBool(st, cl.e)
		for j, part := range conjuncts(g) {
			pn := nm
			if j > 0 {
				pn = fmt.Sprintf("%s/%d", nm, j)
			}
			e.obligeNoAssume(st, "ensures", "ensures "+pn, part)
		}
	}
	for _, g := range e.globalInvs() {
		for _, part := range conjuncts(env.evalBool(st, g.e)) {
			e.obligeNoAssume(st, "globalinv", "package invariant "+g.text, part)
		}
	}
	e.frameCheck(env, c, st)
	e.exitLocks(st)
}

func (e *Exec) globalInvs() []*GlobalInv {
	var out []*GlobalInv
	for _, g := range specs.globals {
		if e.top.Pkg != nil && e.top.Pkg.Pkg.Name() == g.pkg {
			out = append(out, g)
		}
	}
	return out
}

func (e *Exec) obligeNoAssume(st *State, kind, name string, goal *Term) {
	if goal == tTrue || st.pset[goal.id] {
		if e.suppress == 0 {
			e.trivial++
		}
		return
	}
	if e.suppress == 0 {
		e.obs = append(e.obs, &Oblig{Name: name, Kind: kind, Fn: short(e.top.String()), Pos: e.curPos, hyps: st.path[:len(st.path):len(st.path)], goal: goal, uses: e.uses})
	}
}

func conjuncts(g *Term) []*Term {
	if g.op == "app" && g.name == "and" {
		var out []*Term
		for _, a := range g.args {
			out = append(out, conjuncts(a)...)
		}
		return out
	}
	if g.op == "app" && g.name == "ite" && g.sort == sBool {
		var out []*Term
		for _, c := range conjuncts(g.args[1]) {
			out = append(out, Imp(g.args[0], c))
		}
		for _, c := range conjuncts(g.args[2]) {
			out = append(out, Imp(Not(g.args[0]), c))
		}
		return out
	}
	if g.op == "app" && g.name == "=>" {
		cs := conjuncts(g.args[1])
		if len(cs) > 1 {
			var out []*Term
			for _, c := range cs {
				out = append(out, Imp(g.args[0], c))
			}
			return out
		}
	}
	return []*Term{g}
}

func (e *Exec) ghostUpdates(c *Contract, env *Env, st *State) {
	type upd struct {
		key string
		ref *Term
		v   *Term
	}
	var us []upd
	for _, cl := range c.clauses {
		if cl.kind != "ghost" {
			continue
		}
		b := env.eval(st, cl.e.args[0])
		owner, _ := structOf(b.t)
		if owner == nil {
			specFail("ghost update of non-struct")
		}
		g, ok := specs.ghosts[typeName(owner)+"."+cl.e.name]
		if !ok {
			specFail("no ghost field %s.%s", typeName(owner), cl.e.name)
		}
		srt, _ := specSort(g.sort)
		v := env.term(env.eval(st, cl.e2), srt)
		e.heapGet(st, "F."+g.typ+"."+g.name, srt)
		us = append(us, upd{"F." + g.typ + "." + g.name, b.v.(*Term), v})
	}
	for _, u := range us {
		e.heapWrite(st, u.key, u.ref, u.v)
	}
}

// ---------- modifies ----------

type loc struct {
	key string
	ref *Term  // nil: whole array
	srt string // element sort
}

func (e *Exec) modLocs(env *Env, c *Contract, st *State) []loc {
	var out []loc
	add := func(key string, ref *Term, srt string) {
		e.heapSorts[key] = srt
		out = append(out, loc{key, ref, srt})
	}
	for _, cl := range c.clauses {
		if cl.kind == "ghost" {
			b := env.eval(st, cl.e.args[0])
			owner, _ := structOf(b.t)
			if owner == nil {
				specFail("ghost update of non-struct")
			}
			g, ok := specs.ghosts[typeName(owner)+"."+cl.e.name]
			if !ok {
				specFail("no ghost field %s.%s", typeName(owner), cl.e.name)
			}
			add("F."+typeName(owner)+"."+cl.e.name, b.v.(*Term), g.sort)
		}
		if cl.kind != "modifies" {
			continue
		}
		for _, it := range splitCommas(cl.text) {
			if it == "nothing" {
				continue
			}
			switch {
			case strings.HasPrefix(it, "all(") && strings.HasSuffix(it, ")"):
				for _, k := range strings.Fields(it[4 : len(it)-1]) {
					srt := e.keySort(k)
					if srt == "" {
						specFail("modifies %s: unknown heap key", it)
					}
					add(k, nil, srt)
				}
			case strings.HasSuffix(it, ".*"):
				b := env.eval(st, parseExpr(it[:len(it)-2]))
				owner, s := structOf(b.t)
				if s == nil {
					specFail("modifies %s", it)
				}
				ref := b.v.(*Term)
				for i := 0; i < s.NumFields(); i++ {
					e.fieldLocs(owner, s.Field(i).Name(), s.Field(i).Type(), ref, add)
				}
				for _, k := range sortedGhosts(typeName(owner)) {
					g := specs.ghosts[k]
					add("F."+g.typ+"."+g.name, ref, g.sort)
				}
			case strings.HasSuffix(it, "[*]"):
				b := env.eval(st, parseExpr(it[:len(it)-3]))
				if s, ok := b.v.(*SliceV); ok {
					et := b.t.Underlying().(*types.Slice).Elem()
					for _, k := range elemKeys(et) {
						add(k, s.arr, arr(sInt, e.elemSort(k, et)))
					}
				} else if m, ok := b.t.Underlying().(*types.Map); ok {
					ks, vs := sortOf(m.Key()), sortOf(m.Elem())
					add(mapKey(m)+"#d", b.v.(*Term), arr(ks, sBool))
					add(mapKey(m)+"#v", b.v.(*Term), arr(ks, vs))
					add(mapKey(m)+"#n", b.v.(*Term), sInt)
				} else {
					specFail("modifies %s", it)
				}
			case strings.HasPrefix(it, "deref("):
				x := parseExpr(it)
				b := env.eval(st, x.args[0])
				el := b.t.Underlying().(*types.Pointer).Elem()
				add(ptrKey(el), b.v.(*Term), sortOf(el))
			case strings.HasPrefix(it, "tree("):
				continue
			default:
				x := parseExpr(it)
				if x.op != "field" {
					specFail("modifies %s", it)
				}
				b := env.eval(st, x.args[0])
				owner, s := structOf(b.t)
				if s == nil {
					specFail("modifies %s: not a struct", it)
				}
				ref := b.v.(*Term)
				found := false
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == x.name {
						e.fieldLocs(owner, x.name, s.Field(i).Type(), ref, add)
						found = true
					}
				}
				if !found {
					if g, ok := specs.ghosts[typeName(owner)+"."+x.name]; ok {
						add("F."+g.typ+"."+g.name, ref, g.sort)
					} else {
						specFail("modifies %s: no such field", it)
					}
				}
			}
		}
	}
	return out
}

func sortedGhosts(tn string) []string {
	var ks []string
	for k, g := range specs.ghosts {
		if g.typ == tn {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return ks
}

func (e *Exec) fieldLocs(owner types.Type, f string, ft types.Type, ref *Term, add func(string, *Term, string)) {
	if isSync(ft) {
		return
	}
	key := fieldKey(owner, f)
	if fieldAddrEscapes[key] {
		add(ptrKey(ft), faddr(owner, f, ref), sortOf(ft))
		return
	}
	e.typeLocs(key, ft, ref, add)
}

func (e *Exec) typeLocs(key string, ft types.Type, ref *Term, add func(string, *Term, string)) {
	switch u := ft.Underlying().(type) {
	case *types.Slice:
		for _, s := range []string{"#a", "#o", "#l", "#c"} {
			add(key+s, ref, sInt)
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !isSync(u.Field(i).Type()) {
				e.typeLocs(key+"."+u.Field(i).Name(), u.Field(i).Type(), ref, add)
			}
		}
	case *types.Array:
		// arrays inside library structs are never read by repository code
	default:
		add(key, ref, sortOf(ft))
	}
}

func (e *Exec) frameCheck(env *Env, c *Contract, st *State) {
	if e.mode == "lock" || c.opts["noframe"] != "" {
		return
	}
	locs := e.modLocs(env, c, e.entry)
	byKey := map[string][]*Term{}
	whole := map[string]bool{}
	for _, l := range locs {
		if l.ref == nil {
			whole[l.key] = true
		} else {
			byKey[l.key] = append(byKey[l.key], l.ref)
		}
	}
	for _, k := range sortedKeys(st.heap) {
		h := st.heap[k]
		h0, ok := e.entry.heap[k]
		if !ok {
			h0 = varT(sanitize(k)+"@0", h.sort)
		}
		if h == h0 || whole[k] {
			continue
		}
		// peel stores
		cur := h
		var refs []*Term
		for cur != h0 && cur.op == "app" && cur.name == "store" {
			refs = append(refs, cur.args[1])
			cur = cur.args[0]
		}
		if cur == h0 {
			for _, r := range refs {
				alts := []*Term{Le(e.entry.alloc, r)}
				if strings.HasPrefix(k, "P.") {
					alts[0] = Or(And(alts[0], Le(intT(0), r)), And(Lt(r, intT(0)), Le(e.entry.alloc, App("fa_r", sInt, r))))
				}
				skip := false
				for _, m := range byKey[k] {
					if m == r {
						skip = true
					}
					alts = append(alts, Eq(m, r))
				}
				if skip {
					e.trivial++
					continue
				}
				alts = append(alts, Eq(Select(h, r), Select(h0, r)))
				e.obligeNoAssume(st, "frame", "frame "+k, Or(alts...))
			}
			continue
		}
		bvCount++
		b := bvarT(fmt.Sprintf("r?%d", bvCount), sInt)
		alts := []*Term{Le(e.entry.alloc, b), Eq(Select(h, b), Select(h0, b))}
		if !strings.HasPrefix(k, "P.") {
			alts = append(alts, Lt(b, intT(0)))
		} else {
			alts = append(alts, And(Lt(b, intT(0)), Le(e.entry.alloc, App("fa_r", sInt, b))))
		}
		for _, m := range byKey[k] {
			alts = append(alts, Eq(m, b))
		}
		e.obligeNoAssume(st, "frame", "frame "+k, Quant("forall", []*Term{b}, Or(alts...)))
	}
}

// ---------- calls ----------

func (e *Exec) applyContract(st *State, c *Contract, fn *ssa.Function, sig *types.Signature, args []Val, argTypes []types.Type, name string, k Kont) {
	c.used = true
	e.callees[name] = true
	env := &Env{e: e, vars: map[string]SV{}}
	for i, a := range args {
		if i < len(c.params) {
			env.vars[c.params[i]] = SV{a, argTypes[i]}
		}
	}
	rn := 0
	for _, cl := range c.clauses {
		if cl.kind == "requires" {
			nm := cl.name
			if nm == "" {
				nm = fmt.Sprintf("%d", rn)
			}
			rn++
			for _, g := range conjuncts(env.evalBool(st, cl.e)) {
				e.oblige(st, "requires", "precondition "+nm+" of "+name, g)
			}
		}
	}
	pre := st.clone()
	env.old = pre
	tc := e.consumeTrees(st, c, env, name)
	locs := e.modLocs(env, c, st)
	post := st
	for _, l := range locs {
		h := e.heapGet(post, l.key, l.srt)
		if l.ref == nil {
			post.heap[l.key] = freshT(l.key, h.sort)
		} else {
			v := freshT(l.key, arrElem(h.sort))
			post.heap[l.key] = Store(h, l.ref, v)
		}
		for _, r := range e.recs {
			r.writes[l.key] = append(r.writes[l.key], l.ref)
		}
	}
	if !c.pure {
		na := freshT("alloc", sInt)
		post.assume(Le(post.alloc, na))
		post.alloc = na
	}
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		n := "res"
		if i < len(c.results) {
			n = c.results[i]
		}
		v := e.freshVal(post, n, sig.Results().At(i).Type())
		res = append(res, v)
		env.vars[n] = SV{v, sig.Results().At(i).Type()}
	}
	e.ghostUpdates(c, env, post)
	e.produceTrees(post, c, env, tc, res)
	for _, cl := range c.clauses {
		if cl.kind == "ensures" {
			post.assume(env.evalBool(post, cl.e))
		}
	}
	if post.dead() {
		return
	}
	k(post, res)
}

func (e *Exec) keySort(key string) string {
	if s, ok := e.heapSorts[key]; ok {
		return s
	}
	if s, ok := globalSorts[key]; ok {
		return s
	}
	return ""
}

var globalSorts = map[string]string{}

func resVals(res []Val, sig *types.Signature) Val {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return res[0]
	}
	return TupleV(res)
}

func (e *Exec) isContracted(fn *ssa.Function) *Contract {
	n := short(fn.String())
	if c := specs.contracts[n]; c != nil {
		return c
	}
	if o := fn.Origin(); o != nil {
		if c := specs.contracts[short(o.String())]; c != nil {
			return c
		}
	}
	return nil
}

func (e *Exec) call(fr *Frame, st *State, c *ssa.CallCommon, fv Val, args []Val, pos token.Pos, k Kont) {
	saved := e.curPos
	if pos.IsValid() && fr != nil && len(e.callStack) <= 1 {
		e.curPos = e.pos(pos)
	}
	defer func() { e.curPos = saved }()
	if c.IsInvoke() {
		e.invoke(fr, st, c, args, k)
		return
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		k(st, []Val{e.builtin(fr, st, f.Name(), args, c)})
		return
	}
	f, ok := fv.(*FuncV)
	if !ok {
		if t, ok2 := fv.(*Term); ok2 {
			f = &FuncV{term: t, typ: c.Value.Type()}
		} else {
			panic(unsupported("call of non-function"))
		}
	}
	if f.fn == nil {
		// known function identity?
		if f.term != nil && f.term.rat != nil {
			if fn := funcByID(f.term); fn != nil {
				e.callFn(fr, st, fn, nil, args, k)
				return
			}
		}
		e.callUnknown(st, f, c, args, k)
		return
	}
	e.callFn(fr, st, f.fn, f.binds, args, k)
}

func funcByID(t *Term) *ssa.Function {
	for n, id := range funcIDs {
		if t.rat.Cmp(new(big.Rat).SetInt64(id)) == 0 {
			for _, fn := range allFuncs {
				if fn.String() == n {
					return fn
				}
			}
		}
	}
	return nil
}

func (e *Exec) callUnknown(st *State, f *FuncV, c *ssa.CallCommon, args []Val, k Kont) {
	sig := c.Signature()
	// a contract for the named function type
	if c := specs.contracts["type "+typeName(f.typ)]; c != nil {
		var ats []types.Type
		ats = append(ats, f.typ)
		for i := 0; i < sig.Params().Len(); i++ {
			ats = append(ats, sig.Params().At(i).Type())
		}
		e.applyContract(st, c, nil, sig, append([]Val{f}, args...), ats, "type "+typeName(f.typ), k)
		return
	}
	if e.contract != nil && e.contract.opts["purefuncs"] != "" || e.mode == "lock" {
		if sig.Results().Len() == 1 {
			var ts []*Term
			for _, a := range args {
				ts = append(ts, e.asTerm(st, a))
			}
			e.oblige(st, "nil", "call of nil function", Not(Eq(f.term, intT(0))))
			k(st, []Val{pureCall(f.term, sig, ts)})
			return
		}
	}
	panic(unsupported("call of unknown function value"))
}

func paramTypes(fn *ssa.Function) []types.Type {
	var ts []types.Type
	for _, p := range fn.Params {
		ts = append(ts, p.Type())
	}
	if len(fn.Params) == 0 && fn.Blocks == nil {
		if r := fn.Signature.Recv(); r != nil {
			ts = append(ts, r.Type())
		}
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			ts = append(ts, fn.Signature.Params().At(i).Type())
		}
	}
	return ts
}

func (e *Exec) callFn(fr *Frame, st *State, fn *ssa.Function, binds []Val, args []Val, k Kont) {
	name := short(fn.String())
	if e.external(fr, st, fn, name, args, k) {
		return
	}
	if e.mode == "lock" && e.lockCall(fr, st, fn, name, binds, args, k) {
		return
	}
	if c := e.isContracted(fn); c != nil && len(binds) == 0 {
		e.applyContract(st, c, fn, fn.Signature, args, paramTypes(fn), name, k)
		return
	}
	if fn.Synthetic != "" && fn.Blocks == nil {
		panic(unsupported("synthetic function " + name))
	}
	if fn.Blocks == nil {
		panic(unsupported("no body or contract for " + name))
	}
	if !inRepo(fn) && !strings.HasPrefix(fn.String(), "(") && fn.Pkg != nil && !inlinePkgs[fn.Pkg.Pkg.Path()] {
		panic(unsupported("no contract for external " + name))
	}
	for _, s := range e.callStack {
		if s == fn.String() {
			panic(unsupported("recursive call without contract: " + name))
		}
	}
	if len(e.callStack) > 12 {
		panic(unsupported("inlining too deep at " + name))
	}
	e.inlined[name] = true
	e.inline(fr, st, fn, binds, args, k)
}

var inlinePkgs = map[string]bool{"container/heap": true}

// inline executes a callee's body in place; when every outcome leaves the
// state unchanged the outcomes are merged into one conditional value.
func (e *Exec) inline(fr *Frame, st *State, fn *ssa.Function, binds []Val, args []Val, k Kont) {
	nf := e.newFrame(fn, fr)
	for i, p := range fn.Params {
		nf.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		nf.env[p] = binds[i]
	}
	base := len(st.path)
	pre := st.clone()
	type outcome struct {
		st  *State
		res []Val
	}
	var outs []outcome
	saved := e.callStack
	savedPos := e.curPos
	e.callStack = append(append([]string(nil), saved...), fn.String())
	simple := e.mergeable(fn)
	if !simple {
		e.execBody(nf, st, func(st *State, res []Val) {
			cs, cp := e.callStack, e.curPos
			e.callStack, e.curPos = saved, savedPos
			k(st, res)
			e.callStack, e.curPos = cs, cp
		})
		e.callStack = saved
		e.curPos = savedPos
		return
	}
	e.execBody(nf, st, func(st *State, res []Val) {
		outs = append(outs, outcome{st, res})
	})
	e.callStack = saved
	e.curPos = savedPos
	ok := len(outs) > 1
	for _, o := range outs {
		if !sameState(pre, o.st) {
			ok = false
		}
		for _, r := range o.res {
			if _, isT := r.(*Term); !isT {
				ok = false
			}
		}
	}
	if !ok {
		for _, o := range outs {
			k(o.st, o.res)
		}
		return
	}
	var conds []*Term
	for _, o := range outs {
		conds = append(conds, And(o.st.path[base:]...))
	}
	n := len(outs)
	res := append([]Val(nil), outs[n-1].res...)
	for i := n - 2; i >= 0; i-- {
		for j := range res {
			res[j] = Ite(conds[i], outs[i].res[j].(*Term), res[j].(*Term))
		}
	}
	m := pre
	for kk, v := range outs[0].st.heap {
		if _, ok := m.heap[kk]; !ok {
			m.heap[kk] = v
		}
	}
	m.assume(Or(conds...))
	k(m, res)
}

// mergeable: loop-free functions without stores to memory and defers.
func (e *Exec) mergeable(fn *ssa.Function) bool {
	if len(findLoops(fn)) > 0 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Defer, *ssa.Go, *ssa.MapUpdate, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure:
				return false
			case *ssa.Alloc:
				if in.Heap {
					return false
				}
			}
		}
	}
	return len(fn.Blocks) > 1
}

func sameState(a, b *State) bool {
	for k, v := range b.heap {
		if w, ok := a.heap[k]; ok {
			if v != w {
				return false
			}
		} else if v.op != "var" || !strings.HasSuffix(v.name, "@0") {
			return false
		}
	}
	if a.alloc != b.alloc || len(a.chunks) != len(b.chunks) || len(a.locks) != len(b.locks) || len(a.defers) != len(b.defers) || len(a.events) != len(b.events) {
		return false
	}
	for i := range a.chunks {
		x, y := a.chunks[i], b.chunks[i]
		if x.ref != y.ref || x.tree != y.tree || len(x.fields) != len(y.fields) {
			return false
		}
		for k, v := range x.fields {
			if y.fields[k] != v {
				return false
			}
		}
	}
	for c, v := range a.cells {
		if w, ok := b.cells[c]; !ok || w != v {
			if tv, ok1 := v.(*Term); ok1 {
				if tw, ok2 := w.(*Term); ok2 && tv == tw {
					continue
				}
			}
			return false
		}
	}
	for i := range a.locks {
		if a.locks[i] != b.locks[i] {
			return false
		}
	}
	return true
}

func (e *Exec) invoke(fr *Frame, st *State, c *ssa.CallCommon, args []Val, k Kont) {
	recv := args[0].(*Term)
	it := c.Value.Type()
	m := c.Method
	// known dynamic type
	if recv.op == "app" && isCtor(recv.name) && recv.name != "VNil" && recv.args[0].rat != nil {
		dt := tagTypes[recv.args[0].rat.Num().Int64()]
		if fn := prog.LookupMethod(dt, m.Pkg(), m.Name()); fn != nil {
			e.callFn(fr, st, fn, nil, append([]Val{recv.args[1]}, args[1:]...), k)
			return
		}
	}
	// interface type narrowed by an assumption "is(x, T)"
	if dt := e.dynType(st, recv); dt != nil {
		if fn := prog.LookupMethod(dt, m.Pkg(), m.Name()); fn != nil {
			_, v := e.unbox(st, recv, dt)
			e.callFn(fr, st, fn, nil, append([]Val{v}, args[1:]...), k)
			return
		}
	}
	name := "(" + typeName(it) + ")." + m.Name()
	ct := specs.contracts[name]
	if ct == nil {
		// the interface that declares the method
		if r := m.Type().(*types.Signature).Recv(); r != nil {
			ct = specs.contracts["("+typeName(r.Type())+")."+m.Name()]
			if ct != nil {
				name = "(" + typeName(r.Type()) + ")." + m.Name()
			}
		}
	}
	if e.mode == "lock" {
		sig := c.Signature()
		e.opaque(fr, st, name, !invokeReadOnly(c), sig, args, k)
		return
	}
	if ct == nil {
		if it.String() == "error" && m.Name() == "Error" {
			k(st, []Val{freshT("errstr", sStr)})
			return
		}
		panic(unsupported("interface call without contract: " + name))
	}
	e.oblige(st, "nil", "method call on nil interface", Not(isNil(recv)))
	sig := c.Signature()
	ats := []types.Type{it}
	for i := 0; i < sig.Params().Len(); i++ {
		ats = append(ats, sig.Params().At(i).Type())
	}
	e.event(st, name, args)
	e.applyContract(st, ct, nil, sig, args, ats, name, k)
}

// dynType finds the dynamic type of an interface term among the path facts.
func (e *Exec) dynType(st *State, v *Term) types.Type {
	for _, f := range st.path {
		if f.op == "app" && f.name == "=" {
			for i := 0; i < 2; i++ {
				a, b := f.args[i], f.args[1-i]
				if a.op == "app" && (a.name == "vp_t") && a.args[0] == v && b.rat != nil {
					return tagTypes[b.rat.Num().Int64()]
				}
			}
		}
	}
	return nil
}

func (e *Exec) builtin(fr *Frame, st *State, name string, args []Val, c *ssa.CallCommon) Val {
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case *SliceV:
			if name == "len" {
				return x.ln
			}
			return x.cp
		case *Term:
			if m, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
				return Ite(Eq(x, intT(0)), intT(0), e.mapLen(st, x, m))
			}
			if x.sort == sStr {
				r := App("strlen", sInt, x)
				st.assume(Le(intT(0), r))
				return r
			}
		}
	case "append":
		return e.appendSlice(st, args[0].(*SliceV), args[1].(*SliceV), c.Args[0].Type().Underlying().(*types.Slice).Elem())
	case "copy":
		return e.copySlice(st, args[0].(*SliceV), args[1].(*SliceV), c.Args[0].Type().Underlying().(*types.Slice).Elem())
	case "delete":
		m := c.Args[0].Type().Underlying().(*types.Map)
		ref := args[0].(*Term)
		k := e.asTerm(st, args[1])
		d := e.mapDom(st, ref, m)
		n := e.mapLen(st, ref, m)
		e.heapWrite(st, mapKey(m)+"#n", ref, Ite(Select(d, k), Sub(n, intT(1)), n))
		e.heapWrite(st, mapKey(m)+"#d", ref, Store(d, k, tFalse))
		return nil
	case "ssa:wrapnilchk":
		return args[0]
	case "ssa:deferstack":
		return intT(0)
	case "print", "println":
		return nil
	case "min", "max":
		a, b := e.asTerm(st, args[0]), e.asTerm(st, args[1])
		if name == "min" {
			return Ite(Le(a, b), a, b)
		}
		return Ite(Le(a, b), b, a)
	}
	panic(unsupported("builtin " + name))
}

// appendSlice models append: in place if the capacity suffices, else into a
// fresh array; the element facts are stated with quantifiers unless the
// appended length is a known constant.
func (e *Exec) appendSlice(st *State, s, t *SliceV, et types.Type) Val {
	if t.ln.rat != nil && t.ln.rat.Sign() == 0 {
		return s
	}
	nl := Add(s.ln, t.ln)
	if s.cp.rat != nil && s.cp.rat.Sign() == 0 && t.ln.rat == nil {
		// append([]T(nil), t...): a copy
	}
	inPlace := Le(nl, s.cp)
	fr := e.newRef(st)
	ncap := freshT("cap", sInt)
	st.assume(Le(nl, ncap))
	res := &SliceV{Ite(inPlace, s.arr, fr), Ite(inPlace, s.off, intT(0)), nl, Ite(inPlace, s.cp, ncap)}
	if t.ln.rat == nil {
		// possibly nothing is appended
		z := Eq(t.ln, intT(0))
		res = &SliceV{Ite(z, s.arr, res.arr), Ite(z, s.off, res.off), nl, Ite(z, s.cp, res.cp)}
	}
	for _, k := range elemKeys(et) {
		srt := e.elemSort(k, et)
		h := e.heapGet(st, k, arr(sInt, srt))
		oldRow := Select(h, s.arr)
		srcRow := Select(h, t.arr)
		newRow := freshT("row", arr(sInt, srt))
		// fresh array: contents copied
		bvCount++
		b := bvarT(fmt.Sprintf("ai?%d", bvCount), sInt)
		st.assume(Quant("forall", []*Term{b}, Imp(And(Le(intT(0), b), Lt(b, s.ln)), Eq(Select(newRow, b), Select(oldRow, Add(s.off, b)))), Pat(Select(newRow, b))))
		row2 := newRow
		place := oldRow
		if t.ln.rat != nil {
			n := int(t.ln.rat.Num().Int64())
			for i := 0; i < n; i++ {
				v := Select(srcRow, Add(t.off, intT(int64(i))))
				row2 = Store(row2, Add(s.ln, intT(int64(i))), v)
				place = Store(place, Add(s.off, Add(s.ln, intT(int64(i)))), v)
			}
		} else {
			b2 := b
			st.assume(Quant("forall", []*Term{b2}, Imp(And(Le(s.ln, b2), Lt(b2, nl)), Eq(Select(newRow, b2), Select(srcRow, Add(t.off, Sub(b2, s.ln))))), Pat(Select(newRow, b2))))
			pr := freshT("row", arr(sInt, srt))
			st.assume(Quant("forall", []*Term{b2}, Eq(Select(pr, b2), Ite(And(Le(Add(s.off, s.ln), b2), Lt(b2, Add(s.off, nl))), Select(srcRow, Add(t.off, Sub(b2, Add(s.off, s.ln)))), Select(oldRow, b2))), Pat(Select(pr, b2))))
			place = Ite(Eq(t.ln, intT(0)), oldRow, pr)
		}
		h1 := Ite(inPlace, Store(h, s.arr, place), Store(h, fr, row2))
		if inPlace != tTrue && inPlace != tFalse {
			// keep the heap as a chain of stores
			h1 = Store(Store(h, fr, row2), s.arr, Ite(inPlace, place, oldRow))
			if s.arr.rat != nil && s.arr.rat.Sign() == 0 {
				h1 = Store(h, fr, row2)
			}
		}
		st.heap[k] = h1
		for _, r := range e.recs {
			r.writes[k] = append(r.writes[k], fr, s.arr)
		}
	}
	return res
}

func (e *Exec) elemSort(k string, et types.Type) string {
	if _, ok := et.Underlying().(*types.Slice); ok {
		return sInt
	}
	return sortOf(et)
}

func (e *Exec) copySlice(st *State, d, s *SliceV, et types.Type) Val {
	n := Ite(Le(d.ln, s.ln), d.ln, s.ln)
	for _, k := range elemKeys(et) {
		srt := e.elemSort(k, et)
		h := e.heapGet(st, k, arr(sInt, srt))
		dr, sr := Select(h, d.arr), Select(h, s.arr)
		nr := freshT("row", arr(sInt, srt))
		bvCount++
		b := bvarT(fmt.Sprintf("ci?%d", bvCount), sInt)
		st.assume(Quant("forall", []*Term{b}, Eq(Select(nr, b), Ite(And(Le(d.off, b), Lt(b, Add(d.off, n))), Select(sr, Add(s.off, Sub(b, d.off))), Select(dr, b))), Pat(Select(nr, b))))
		st.heap[k] = Store(h, d.arr, nr)
		for _, r := range e.recs {
			r.writes[k] = append(r.writes[k], d.arr)
		}
	}
	return n
}

// ---------- instructions ----------

func (e *Exec) newCell(name string, t types.Type, fr *Frame) *Cell {
	e.cellN++
	return &Cell{id: e.cellN, name: name, typ: t, fr: fr}
}

func (e *Exec) execBody(fr *Frame, st *State, k Kont) {
	e.execBlock(fr, fr.fn.Blocks[0], nil, st, k)
}

func (e *Exec) execBlock(fr *Frame, blk, prev *ssa.BasicBlock, st *State, k Kont) {
	// leaving loops that are being explored dry
	for i := len(e.loopCtx) - 1; i >= 0; i-- {
		lc := e.loopCtx[i]
		if lc.fr == fr {
			if lc.loop.header == blk && prev != nil && lc.loop.body[prev] {
				lc.back(st)
				return
			}
			if !lc.loop.body[blk] {
				if lc.dry {
					return
				}
				continue
			}
		}
	}
	if l := fr.loops[blk]; l != nil {
		e.execLoop(fr, l, prev, st, k)
		return
	}
	e.exec(fr, blk, prev, 0, st, k)
}

func (e *Exec) exec(fr *Frame, blk, prev *ssa.BasicBlock, i int, st *State, k Kont) {
	for ; i < len(blk.Instrs); i++ {
		in := blk.Instrs[i]
		switch in := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
			for j, p := range blk.Preds {
				if p == prev {
					fr.env[in] = e.val(fr, st, in.Edges[j])
				}
			}
		case *ssa.If:
			c := e.val(fr, st, in.Cond).(*Term)
			s1 := st
			if c == tTrue {
				e.execBlock(fr, blk.Succs[0], blk, st, k)
				return
			}
			if c == tFalse {
				e.execBlock(fr, blk.Succs[1], blk, st, k)
				return
			}
			s2 := st.clone()
			env2 := copyEnvs(fr)
			tr := fmt.Sprintf("%s;%d", st.trace, blk.Index)
			s1.trace, s2.trace = tr+"t", tr+"f"
			s1.assume(c)
			if e.feasible(s1) {
				e.execBlock(fr, blk.Succs[0], blk, s1, k)
			}
			restoreEnvs(env2)
			s2.assume(Not(c))
			if e.feasible(s2) {
				e.execBlock(fr, blk.Succs[1], blk, s2, k)
			}
			return
		case *ssa.Jump:
			e.execBlock(fr, blk.Succs[0], blk, st, k)
			return
		case *ssa.Return:
			for _, lc := range e.loopCtx {
				if lc.dry && lc.fr == fr {
					return
				}
			}
			var res []Val
			for _, r := range in.Results {
				res = append(res, e.val(fr, st, r))
			}
			if len(e.callStack) <= 1 {
				e.curPos = e.pos(in.Pos())
			}
			k(st, res)
			return
		case *ssa.Panic:
			e.oblige(st, "panic", "explicit panic unreachable", tFalse)
			return
		case *ssa.Call:
			var args []Val
			if in.Call.IsInvoke() {
				args = append(args, e.val(fr, st, in.Call.Value))
			}
			for _, a := range in.Call.Args {
				args = append(args, e.val(fr, st, a))
			}
			var fv Val
			if !in.Call.IsInvoke() {
				if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
					fv = e.val(fr, st, in.Call.Value)
				}
			}
			ni := i + 1
			first := true
			envs := copyEnvs(fr)
			e.call(fr, st, &in.Call, fv, args, in.Pos(), func(st *State, res []Val) {
				if !first {
					restoreEnvs(envs)
				}
				first = false
				fr.env[in] = resVals(res, in.Call.Signature())
				if b, ok := in.Call.Value.(*ssa.Builtin); ok && b != nil {
					if len(res) > 0 {
						fr.env[in] = res[0]
					}
				}
				if !st.dead() {
					e.exec(fr, blk, prev, ni, st, k)
				}
			})
			return
		case *ssa.Defer:
			var args []Val
			if in.Call.IsInvoke() {
				args = append(args, e.val(fr, st, in.Call.Value))
			}
			for _, a := range in.Call.Args {
				args = append(args, e.val(fr, st, a))
			}
			var fv Val
			if !in.Call.IsInvoke() {
				if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
					fv = e.val(fr, st, in.Call.Value)
				}
			}
			st.defers = append(st.defers, deferred{fr, &in.Call, fv, args})
		case *ssa.RunDefers:
			ni := i + 1
			e.runDefers(fr, st, func(st *State) { e.exec(fr, blk, prev, ni, st, k) })
			return
		case *ssa.Go:
			ni := i + 1
			var args []Val
			if in.Call.IsInvoke() {
				args = append(args, e.val(fr, st, in.Call.Value))
			}
			for _, a := range in.Call.Args {
				args = append(args, e.val(fr, st, a))
			}
			var fv Val
			if !in.Call.IsInvoke() {
				fv = e.val(fr, st, in.Call.Value)
			}
			e.spawn(fr, st, &in.Call, fv, args, func(st *State) { e.exec(fr, blk, prev, ni, st, k) })
			return
		default:
			if e.step(fr, st, in) {
				return
			}
		}
		if st.dead() {
			return
		}
	}
}

type envSave struct {
	fr  *Frame
	env map[ssa.Value]Val
}

func copyEnvs(fr *Frame) []envSave {
	var out []envSave
	for f := fr; f != nil; f = f.parent {
		m := make(map[ssa.Value]Val, len(f.env))
		for k, v := range f.env {
			m[k] = v
		}
		out = append(out, envSave{f, m})
	}
	return out
}

func restoreEnvs(s []envSave) {
	for _, x := range s {
		m := make(map[ssa.Value]Val, len(x.env))
		for k, v := range x.env {
			m[k] = v
		}
		x.fr.env = m
	}
}

func (e *Exec) runDefers(fr *Frame, st *State, k func(*State)) {
	for i := len(st.defers) - 1; i >= 0; i-- {
		d := st.defers[i]
		if d.fr != fr {
			continue
		}
		st.defers = append(append([]deferred(nil), st.defers[:i]...), st.defers[i+1:]...)
		e.call(fr, st, d.call, d.fn, d.args, token.NoPos, func(st *State, res []Val) {
			e.runDefers(fr, st, k)
		})
		return
	}
	k(st)
}

func (e *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return e.zeroVal(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return boolT(constant.BoolVal(c.Value))
		case u.Info()&types.IsString != 0:
			return strT(constant.StringVal(c.Value))
		case u.Info()&types.IsInteger != 0:
			n, _ := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
			return bigT(n)
		case u.Info()&types.IsFloat != 0:
			r, ok := new(big.Rat).SetString(constant.ToFloat(c.Value).ExactString())
			if !ok {
				f, _ := constant.Float64Val(c.Value)
				r = new(big.Rat)
				r.SetFloat64(f)
			}
			// the float64 nearest to the literal is what the program uses
			f, _ := r.Float64()
			rr := new(big.Rat)
			if rr.SetFloat64(f) != nil {
				// decimal literals such as 0.1 denote their rational value: floats are treated as reals
				return ratT(r, sReal)
			}
			return ratT(r, sReal)
		}
	}
	panic(unsupported("constant " + c.String()))
}

func (e *Exec) val(fr *Frame, st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Function:
		return &FuncV{fn: x, typ: x.Type()}
	case *ssa.Global:
		return &PtrV{kind: "field", key: "G." + short(x.String()), ref: intT(0), elem: x.Type().Underlying().(*types.Pointer).Elem()}
	}
	r, ok := fr.env[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s in %s", v.Name(), fr.fn))
	}
	return r
}

func (e *Exec) nonNil(st *State, ref *Term, what string) {
	if ref.rat != nil && ref.rat.Sign() != 0 {
		return
	}
	e.oblige(st, "nil", "nil dereference: "+what, Not(Eq(ref, intT(0))))
}

// cellable reports whether a heap-allocated variable can be kept in a cell:
// its address is only loaded from, stored to and captured by closures.
var cellableCache = map[ssa.Value]bool{}

func cellable(v ssa.Value, depth int) bool {
	if r, ok := cellableCache[v]; ok {
		return r
	}
	if depth > 6 || v.Referrers() == nil {
		return false
	}
	cellableCache[v] = true
	res := true
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if r.Val == v {
				res = false
			}
		case *ssa.MakeClosure:
			fn := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == v && !cellable(fn.FreeVars[i], depth+1) {
					res = false
				}
			}
		case *ssa.FieldAddr:
			for _, q := range *r.Referrers() {
				switch q := q.(type) {
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.Store:
					if q.Val == r {
						res = false
					}
				default:
					res = false
				}
			}
		case *ssa.Call, *ssa.Defer:
			// method of a sync type
			if !isSync(v.Type().Underlying().(*types.Pointer).Elem()) {
				res = false
			}
		default:
			res = false
		}
	}
	cellableCache[v] = res
	return res
}

func (e *Exec) step(fr *Frame, st *State, in ssa.Instruction) bool {
	if len(e.callStack) <= 1 && in.Pos().IsValid() {
		e.curPos = e.pos(in.Pos())
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		if at, ok := t.Underlying().(*types.Array); ok {
			r := e.newRef(st)
			for k, z := range zeroRow(at.Elem()) {
				e.heapGet(st, k, z.sort)
				e.heapWrite(st, k, r, z)
			}
			fr.env[x] = r
			return false
		}
		_, isStruct := t.Underlying().(*types.Struct)
		if !x.Heap || (!(isStruct && !isSync(t)) && cellable(x, 0)) || isSync(t) {
			c := e.newCell(x.Comment, t, fr)
			st.cells[c] = e.zeroVal(t)
			fr.env[x] = &PtrV{kind: "cell", cell: c, elem: t}
			return false
		}
		fr.env[x] = e.allocObj(st, t)
	case *ssa.Store:
		e.cellAccess(fr, st, x.Addr, e.val(fr, st, x.Addr), true)
		e.store(st, e.val(fr, st, x.Addr), x.Addr.Type().Underlying().(*types.Pointer).Elem(), e.val(fr, st, x.Val))
	case *ssa.UnOp:
		e.unop(fr, st, x)
	case *ssa.BinOp:
		fr.env[x] = e.binop(fr, st, x)
	case *ssa.FieldAddr:
		fr.env[x] = e.fieldAddr(st, e.val(fr, st, x.X), x.X.Type().Underlying().(*types.Pointer).Elem(), x.Field)
	case *ssa.Field:
		fr.env[x] = e.val(fr, st, x.X).(*StructV).f[x.Field]
	case *ssa.IndexAddr:
		i := e.asTerm(st, e.val(fr, st, x.Index))
		switch b := e.val(fr, st, x.X).(type) {
		case *SliceV:
			e.oblige(st, "bounds", "index in range", And(Le(intT(0), i), Lt(i, b.ln)))
			fr.env[x] = &PtrV{kind: "elem", arr: b.arr, idx: Add(b.off, i), elem: x.Type().Underlying().(*types.Pointer).Elem()}
		case *Term:
			at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			e.oblige(st, "bounds", "index in range", And(Le(intT(0), i), Lt(i, intT(at.Len()))))
			fr.env[x] = &PtrV{kind: "elem", arr: b, idx: i, elem: at.Elem()}
		default:
			panic(unsupported("index of array cell"))
		}
	case *ssa.Slice:
		fr.env[x] = e.slice(fr, st, x)
	case *ssa.MakeInterface:
		fr.env[x] = e.box(st, e.val(fr, st, x.X), x.X.Type())
	case *ssa.ChangeInterface:
		fr.env[x] = e.val(fr, st, x.X)
	case *ssa.ChangeType:
		v := e.val(fr, st, x.X)
		if f, ok := v.(*FuncV); ok {
			c := *f
			c.typ = x.Type()
			v = &c
		}
		fr.env[x] = v
	case *ssa.Convert:
		fr.env[x] = e.convert(st, e.val(fr, st, x.X), x.X.Type(), x.Type())
	case *ssa.TypeAssert:
		v := e.asTerm(st, e.val(fr, st, x.X))
		if _, ok := x.AssertedType.Underlying().(*types.Interface); ok {
			if x.CommaOk {
				fr.env[x] = TupleV{v, freshT("ok", sBool)}
			} else {
				e.oblige(st, "assert", "type assertion", Not(isNil(v)))
				fr.env[x] = v
			}
			return false
		}
		c, u := e.unbox(st, v, x.AssertedType)
		if x.CommaOk {
			if ut, ok := u.(*Term); ok && c != tTrue {
				u = Ite(c, ut, zeroTerm(ut.sort))
			}
			fr.env[x] = TupleV{u, c}
		} else {
			e.oblige(st, "assert", "type assertion to "+typeName(x.AssertedType), c)
			fr.env[x] = u
			if us, ok := u.(*SliceV); ok {
				e.sliceFacts(st, us)
			} else if ut, ok := u.(*Term); ok {
				e.typeFact(st, ut, x.AssertedType)
			}
		}
	case *ssa.Extract:
		fr.env[x] = e.val(fr, st, x.Tuple).(TupleV)[x.Index]
	case *ssa.MakeSlice:
		et := x.Type().Underlying().(*types.Slice).Elem()
		n := e.asTerm(st, e.val(fr, st, x.Len))
		cp := e.asTerm(st, e.val(fr, st, x.Cap))
		e.oblige(st, "bounds", "makeslice length nonnegative", And(Le(intT(0), n), Le(n, cp)))
		r := e.newRef(st)
		for k, z := range zeroRow(et) {
			e.heapGet(st, k, z.sort)
			e.heapWrite(st, k, r, z)
		}
		fr.env[x] = &SliceV{r, intT(0), n, cp}
	case *ssa.MakeMap:
		m := x.Type().Underlying().(*types.Map)
		r := e.newRef(st)
		ks, vs := sortOf(m.Key()), sortOf(m.Elem())
		e.heapWrite(st, mapKey(m)+"#d", r, ConstArr(arr(ks, sBool), tFalse))
		e.heapWrite(st, mapKey(m)+"#v", r, ConstArr(arr(ks, vs), zeroTerm(vs)))
		e.heapWrite(st, mapKey(m)+"#n", r, intT(0))
		fr.env[x] = r
	case *ssa.MakeClosure:
		f := &FuncV{fn: x.Fn.(*ssa.Function), typ: x.Type()}
		for _, b := range x.Bindings {
			f.binds = append(f.binds, e.val(fr, st, b))
		}
		fr.env[x] = f
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Basic); ok {
			panic(unsupported("string indexing"))
		}
		m := x.X.Type().Underlying().(*types.Map)
		ref := e.asTerm(st, e.val(fr, st, x.X))
		k := e.asTerm(st, e.val(fr, st, x.Index))
		has := And(Not(Eq(ref, intT(0))), Select(e.mapDom(st, ref, m), k))
		v := Ite(has, e.mapVal(st, ref, m, k), zeroTerm(sortOf(m.Elem())))
		e.accessMap(st, x.X, ref, false)
		if x.CommaOk {
			fr.env[x] = TupleV{v, has}
		} else {
			fr.env[x] = v
		}
	case *ssa.MapUpdate:
		m := x.Map.Type().Underlying().(*types.Map)
		ref := e.asTerm(st, e.val(fr, st, x.Map))
		e.nonNil(st, ref, "assignment to entry in nil map")
		k := e.asTerm(st, e.val(fr, st, x.Key))
		v := e.asTerm(st, e.val(fr, st, x.Value))
		e.accessMap(st, x.Map, ref, true)
		d, vs, n := e.mapDom(st, ref, m), e.mapVals(st, ref, m), e.mapLen(st, ref, m)
		e.heapWrite(st, mapKey(m)+"#n", ref, Ite(Select(d, k), n, Add(n, intT(1))))
		e.heapWrite(st, mapKey(m)+"#d", ref, Store(d, k, tTrue))
		e.heapWrite(st, mapKey(m)+"#v", ref, Store(vs, k, v))
	case *ssa.Range:
		m, ok := x.X.Type().Underlying().(*types.Map)
		if !ok {
			panic(unsupported("range over string"))
		}
		ref := e.asTerm(st, e.val(fr, st, x.X))
		e.accessMap(st, x.X, ref, false)
		c := e.newCell("mapiter", x.Type(), fr)
		ks := sortOf(m.Key())
		st.cells[c] = ConstArr(arr(ks, sBool), tFalse)
		dom0 := Ite(Eq(ref, intT(0)), ConstArr(arr(ks, sBool), tFalse), e.mapDom(st, ref, m))
		fr.env[x] = &IterV{m: ref, mt: m, dom0: dom0, loopVar: c}
	case *ssa.Next:
		e.next(fr, st, x)
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", in)))
	}
	return false
}

// next models one step of a map iteration: some unvisited key, or the end,
// in which case every key of the map has been visited. Maps that change
// their key set while being ranged over are outside the model.
func (e *Exec) next(fr *Frame, st *State, x *ssa.Next) {
	it := e.val(fr, st, x.Iter).(*IterV)
	vis := st.cells[it.loopVar].(*Term)
	ks := sortOf(it.mt.Key())
	ok := freshT("more", sBool)
	key := freshT("key", ks)
	e.typeFact(st, key, it.mt.Key())
	dom := e.mapDom(st, it.m, it.mt)
	e.oblige(st, "maprange", "map keys unchanged while ranged over", Or(Eq(it.m, intT(0)), Eq(dom, it.dom0)))
	st.assume(Imp(ok, And(Select(it.dom0, key), Not(Select(vis, key)))))
	bvCount++
	b := bvarT(fmt.Sprintf("mk?%d", bvCount), ks)
	st.assume(Imp(Not(ok), Quant("forall", []*Term{b}, Imp(Select(it.dom0, b), Select(vis, b)), Pat(Select(it.dom0, b)))))
	v := Ite(ok, e.mapVal(st, it.m, it.mt, key), zeroTerm(sortOf(it.mt.Elem())))
	st.cells[it.loopVar] = Ite(ok, Store(vis, key, tTrue), vis)
	for _, r := range e.recs {
		r.cells[it.loopVar] = true
	}
	fr.env[x] = TupleV{ok, key, v}
}

func (e *Exec) unop(fr *Frame, st *State, x *ssa.UnOp) {
	v := e.val(fr, st, x.X)
	switch x.Op {
	case token.MUL:
		e.cellAccess(fr, st, x.X, v, false)
		fr.env[x] = e.load(st, v, x.Type())
	case token.SUB:
		fr.env[x] = Neg(v.(*Term))
	case token.NOT:
		fr.env[x] = Not(v.(*Term))
	default:
		panic(unsupported("unary " + x.Op.String()))
	}
}

func (e *Exec) load(st *State, p Val, t types.Type) Val {
	switch q := p.(type) {
	case *PtrV:
		switch q.kind {
		case "cell":
			v, ok := st.cells[q.cell]
			if !ok {
				panic(unsupported("dead cell " + q.cell.name))
			}
			for _, i := range q.path {
				v = v.(*StructV).f[i]
			}
			return v
		case "field":
			e.access(st, q, false)
			v := e.loadAt(st, q.key, q.ref, t, false)
			return v
		case "elem":
			e.accessElem(st, q, false)
			return e.elemRead(st, q.arr, q.idx, t)
		case "chunk":
			return e.chunkLoad(st, q)
		}
	case *Term:
		e.nonNil(st, q, "load")
		if o := specs.owned[typeName(t)]; o != nil {
			panic(unsupported("whole load of owned struct"))
		}
		if _, ok := t.Underlying().(*types.Struct); ok {
			return e.loadAt(st, "F."+typeName(t), q, t, false)
		}
		return e.loadAt(st, ptrKey(t), q, t, false)
	}
	panic(unsupported(fmt.Sprintf("load through %T", p)))
}

func setPath(v Val, path []int, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	s := v.(*StructV)
	c := &StructV{typ: s.typ, f: append([]Val(nil), s.f...)}
	c.f[path[0]] = setPath(c.f[path[0]], path[1:], nv)
	return c
}

func (e *Exec) store(st *State, p Val, t types.Type, v Val) {
	switch q := p.(type) {
	case *PtrV:
		switch q.kind {
		case "cell":
			st.cells[q.cell] = setPath(st.cells[q.cell], q.path, v)
			for _, r := range e.recs {
				r.cells[q.cell] = true
			}
			return
		case "field":
			e.access(st, q, true)
			e.storeAt(st, q.key, q.ref, t, v)
			return
		case "elem":
			e.accessElem(st, q, true)
			e.elemWrite(st, q.arr, q.idx, t, v)
			return
		case "chunk":
			e.chunkStore(st, q, v)
			return
		}
	case *Term:
		e.nonNil(st, q, "store")
		if _, ok := t.Underlying().(*types.Struct); ok {
			e.storeAt(st, "F."+typeName(t), q, t, v)
			return
		}
		e.storeAt(st, ptrKey(t), q, t, v)
		return
	}
	panic(unsupported(fmt.Sprintf("store through %T", p)))
}

func (e *Exec) fieldAddr(st *State, p Val, owner types.Type, idx int) Val {
	s := owner.Underlying().(*types.Struct)
	f := s.Field(idx)
	switch q := p.(type) {
	case *PtrV:
		switch q.kind {
		case "cell":
			return &PtrV{kind: "cell", cell: q.cell, path: append(append([]int(nil), q.path...), idx), elem: f.Type()}
		case "field":
			return &PtrV{kind: "field", key: q.key + "." + f.Name(), ref: q.ref, owner: q.owner, fname: q.fname, elem: f.Type()}
		}
	case *Term:
		e.nonNil(st, q, "field "+f.Name())
		if specs.owned[typeName(owner)] != nil {
			return &PtrV{kind: "chunk", ref: q, owner: owner, fname: f.Name(), elem: f.Type()}
		}
		if fieldAddrEscapes[fieldKey(owner, f.Name())] && !isSync(f.Type()) {
			return faddr(owner, f.Name(), q)
		}
		return &PtrV{kind: "field", key: fieldKey(owner, f.Name()), ref: q, owner: owner, fname: f.Name(), elem: f.Type()}
	}
	panic(unsupported(fmt.Sprintf("field address of %T", p)))
}

func (e *Exec) slice(fr *Frame, st *State, x *ssa.Slice) Val {
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return e.asTerm(st, e.val(fr, st, v))
	}
	lo, hi, mx := get(x.Low), get(x.High), get(x.Max)
	if lo == nil {
		lo = intT(0)
	}
	switch b := e.val(fr, st, x.X).(type) {
	case *SliceV:
		if hi == nil {
			hi = b.ln
		}
		cp := b.cp
		if mx != nil {
			cp = mx
			e.oblige(st, "bounds", "slice max in range", And(Le(hi, mx), Le(mx, b.cp)))
		}
		e.oblige(st, "bounds", "slice bounds in range", And(Le(intT(0), lo), Le(lo, hi), Le(hi, b.cp)))
		return &SliceV{b.arr, Add(b.off, lo), Sub(hi, lo), Sub(cp, lo)}
	case *Term:
		if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if at, ok := p.Elem().Underlying().(*types.Array); ok {
				if hi == nil {
					hi = intT(at.Len())
				}
				return &SliceV{b, lo, Sub(hi, lo), Sub(intT(at.Len()), lo)}
			}
		}
	}
	panic(unsupported("slice expression"))
}

func (e *Exec) convert(st *State, v Val, from, to types.Type) Val {
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 {
		t := v.(*Term)
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
			return ToReal(t)
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			if fb.Info()&types.IsUnsigned == 0 && tb.Info()&types.IsUnsigned != 0 {
				e.oblige(st, "convert", "conversion to unsigned of a nonnegative value", Le(intT(0), t))
			}
			return t
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
			return t
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
			return truncT(t)
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return t
		}
	}
	panic(unsupported(fmt.Sprintf("conversion %s to %s", from, to)))
}

// truncT is truncation toward zero.
func truncT(t *Term) *Term {
	if t.op == "app" && t.name == "trunc" {
		return App("rtrunc", sInt, t.args[0])
	}
	if t.op == "app" && t.name == "to_real" {
		return t.args[0]
	}
	return App("rtrunc", sInt, t)
}

func (e *Exec) binop(fr *Frame, st *State, x *ssa.BinOp) Val {
	a, b := e.val(fr, st, x.X), e.val(fr, st, x.Y)
	switch x.Op {
	case token.EQL, token.NEQ:
		r := e.eqVals(st, a, b, x.X.Type())
		if x.Op == token.NEQ {
			r = Not(r)
		}
		return r
	}
	s, t := e.asTerm(st, a), e.asTerm(st, b)
	isInt := s.sort == sInt
	if s.sort == sStr {
		if x.Op == token.ADD {
			return freshT("str", sStr)
		}
		return freshT("strcmp", sBool)
	}
	switch x.Op {
	case token.ADD:
		return e.ovf(st, Add(s, t), x)
	case token.SUB:
		r := Sub(s, t)
		if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsUnsigned != 0 {
			e.oblige(st, "convert", "unsigned subtraction does not wrap", Le(intT(0), r))
		}
		return e.ovf(st, r, x)
	case token.MUL:
		return e.ovf(st, Mul(s, t), x)
	case token.QUO:
		if isInt {
			e.oblige(st, "div", "division by zero", Not(Eq(t, intT(0))))
			return tdiv(s, t)
		}
		return e.fdiv(st, s, t)
	case token.REM:
		e.oblige(st, "div", "division by zero", Not(Eq(t, intT(0))))
		return App("tmod", sInt, s, t)
	case token.LSS:
		return Lt(s, t)
	case token.LEQ:
		return Le(s, t)
	case token.GTR:
		return Gt(s, t)
	case token.GEQ:
		return Ge(s, t)
	case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
		if isInt {
			return App("b_"+sanitize(opName(x.Op)), sInt, s, t)
		}
	}
	panic(unsupported("operator " + x.Op.String()))
}

func opName(t token.Token) string {
	switch t {
	case token.AND:
		return "and"
	case token.OR:
		return "or"
	case token.XOR:
		return "xor"
	case token.SHL:
		return "shl"
	case token.SHR:
		return "shr"
	}
	return "andnot"
}

func tdiv(s, t *Term) *Term { return App("tdiv", sInt, s, t) }

func (e *Exec) fdiv(st *State, s, t *Term) *Term {
	if t.rat == nil && e.contract != nil && e.contract.opts["fdiv"] == "nonzero" {
		e.oblige(st, "div", "float division by zero", Not(Eq(t, realT(0))))
	}
	return Div(s, t)
}

// ovf emits machine-integer range obligations where the contract asks for them.
func (e *Exec) ovf(st *State, r *Term, x *ssa.BinOp) *Term {
	if r.sort == sInt && e.contract != nil && e.contract.opts["overflow"] != "" && r.rat == nil {
		mx, _ := new(big.Int).SetString("9223372036854775807", 10)
		g := And(Le(r, bigT(mx)), Le(Neg(bigT(mx)), r))
		for _, cl := range e.contract.clauses {
			if cl.kind == "ovfcond" {
				g = Imp(e.contractEnv().evalBool(e.entry, cl.e), g)
			}
		}
		e.oblige(st, "overflow", "no integer overflow in "+x.Op.String(), g)
	}
	return r
}

func (e *Exec) eqVals(st *State, a, b Val, t types.Type) *Term {
	switch x := a.(type) {
	case *SliceV:
		y := b.(*SliceV)
		// only comparisons with nil are legal
		if y.arr.rat != nil {
			return Eq(x.arr, intT(0))
		}
		return Eq(y.arr, intT(0))
	case *FuncV:
		y := b.(*FuncV)
		if x.fn != nil || y.fn != nil {
			if x.term != nil && x.term.rat != nil || y.term != nil && y.term.rat != nil {
				return tFalse
			}
		}
		return Eq(e.funcTerm(st, x), e.funcTerm(st, y))
	case *StructV:
		y := b.(*StructV)
		var cs []*Term
		s := x.typ.Underlying().(*types.Struct)
		for i := range x.f {
			cs = append(cs, e.eqVals(st, x.f[i], y.f[i], s.Field(i).Type()))
		}
		return And(cs...)
	case *PtrV:
		return e.eqPtr(st, x, b)
	}
	if y, ok := b.(*PtrV); ok {
		return e.eqPtr(st, y, a)
	}
	s, u := a.(*Term), b.(*Term)
	if s.sort == sVal {
		if isNilTerm(u) {
			return isNil(s)
		}
		if isNilTerm(s) {
			return isNil(u)
		}
	}
	return Eq(s, u)
}

func isNilTerm(t *Term) bool { return t.op == "app" && t.name == "VNil" }

func (e *Exec) eqPtr(st *State, x *PtrV, b Val) *Term {
	if y, ok := b.(*PtrV); ok {
		if x.kind == "cell" && y.kind == "cell" {
			return boolT(x.cell == y.cell)
		}
		if x.kind == "field" && y.kind == "field" {
			if x.key != y.key {
				return tFalse
			}
			return Eq(x.ref, y.ref)
		}
	}
	if t, ok := b.(*Term); ok && t.rat != nil && t.rat.Sign() == 0 {
		return tFalse
	}
	panic(unsupported("pointer comparison"))
}
