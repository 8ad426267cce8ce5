package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// SV is a value in the specification language.
type SV struct {
	v Val
	t types.Type // Go type if known (pointers, slices, maps need one)
}

type Env struct {
	e     *Exec
	vars  map[string]SV
	old   *State
	pre   *State // loop entry
	sub   map[string]*Expr
	inPat bool
}

func (env *Env) with(n string, v SV) *Env {
	m := make(map[string]SV, len(env.vars)+1)
	for k, x := range env.vars {
		m[k] = x
	}
	m[n] = v
	c := *env
	c.vars = m
	return &c
}

func specFail(f string, a ...interface{}) { panic(specErr(fmt.Sprintf(f, a...))) }

func (env *Env) evalBool(st *State, x *Expr) *Term {
	return env.term(env.eval(st, x), sBool)
}

func (env *Env) term(v SV, want string) *Term {
	t, ok := v.v.(*Term)
	if !ok {
		switch x := v.v.(type) {
		case *FuncV:
			return env.e.funcTerm(nil, x)
		case *SliceV:
			if want == sVal && v.t != nil {
				return env.e.box(nil, x, v.t)
			}
			if want == sInt {
				return x.arr
			}
		}
		specFail("value %T is not a term (want %s)", v.v, want)
	}
	if want == sReal && t.sort == sInt {
		return ToReal(t)
	}
	if want != "" && t.sort != want {
		if want == sVal && v.t != nil {
			return env.e.box(nil, t, v.t)
		}
		specFail("sort %s, want %s: %s", t.sort, want, t)
	}
	return t
}

var bvCount int

func specSort(t string) (string, types.Type) {
	switch t {
	case "int":
		return sInt, types.Typ[types.Int]
	case "real":
		return sReal, types.Typ[types.Float64]
	case "bool":
		return sBool, types.Typ[types.Bool]
	case "Int", "Real", "Bool", "Val", "Str":
		return t, nil
	}
	if strings.HasPrefix(t, "(") {
		return t, nil
	}
	if _, ok := dataTypes[t]; ok {
		return t, nil
	}
	if gt := lookupType(t); gt != nil {
		return sortOf(gt), gt
	}
	return t, nil
}

func (env *Env) eval(st *State, x *Expr) SV {
	e := env.e
	switch x.op {
	case "num":
		r := new(big.Rat)
		r.SetString(x.name)
		if strings.Contains(x.name, ".") {
			return SV{ratT(r, sReal), types.Typ[types.Float64]}
		}
		return SV{ratT(r, sInt), nil}
	case "str":
		return SV{strT(x.name), types.Typ[types.String]}
	case "ident":
		return env.ident(st, x.name)
	case "old":
		if env.old == nil {
			specFail("old() not available")
		}
		return env.eval(env.old, x.args[0])
	case "let":
		v := env.eval(st, x.args[0])
		return env.with(x.name, v).eval(st, x.args[1])
	case "ite":
		c := env.evalBool(st, x.args[0])
		if c == tTrue {
			return env.eval(st, x.args[1])
		}
		if c == tFalse {
			return env.eval(st, x.args[2])
		}
		a := env.eval(st, x.args[1])
		b := env.eval(st, x.args[2])
		ta, tb := env.unify(a, b)
		ty := a.t
		if ty == nil {
			ty = b.t
		}
		return SV{Ite(c, ta, tb), ty}
	case "forall", "exists":
		var bvs []*Term
		en := env
		for _, q := range x.vars {
			srt, gt := specSort(q.typ)
			bvCount++
			b := bvarT(fmt.Sprintf("%s?%d", sanitize(q.name), bvCount), srt)
			bvs = append(bvs, b)
			en = en.with(q.name, SV{b, gt})
		}
		body := en.evalBool(st, x.args[0])
		var pats []*Term
		for _, p := range x.pats {
			var ts []*Term
			for _, pe := range p {
				ep := *en
				ep.inPat = true
				ts = append(ts, ep.eval(st, pe).v.(*Term))
			}
			pats = append(pats, Pat(ts...))
		}
		return SV{Quant(x.op, bvs, body, pats...), nil}
	case "un":
		if x.name == "!" {
			return SV{Not(env.evalBool(st, x.args[0])), nil}
		}
		v := env.eval(st, x.args[0])
		return SV{Neg(v.v.(*Term)), v.t}
	case "bin":
		return env.bin(st, x)
	case "index":
		a := env.eval(st, x.args[0])
		i := env.eval(st, x.args[1])
		return env.index(st, a, i)
	case "update":
		a := env.eval(st, x.args[0])
		at := a.v.(*Term)
		i := env.term(env.eval(st, x.args[1]), arrKey(at.sort))
		v := env.term(env.eval(st, x.args[2]), arrElem(at.sort))
		return SV{Store(at, i, v), nil}
	case "field":
		// package-qualified constants are not supported; fields only
		b := env.eval(st, x.args[0])
		return env.field(st, b, x.name)
	case "call":
		return env.call(st, x)
	}
	specFail("bad expression %s", x.op)
	_ = e
	return SV{}
}

func strT(s string) *Term {
	if s == "" {
		return varT("str_empty", sStr)
	}
	return App("strlit", sStr, tagFor("str."+s))
}

func (env *Env) unify(a, b SV) (*Term, *Term) {
	if sa, ok := a.v.(*SliceV); ok {
		if tb, ok := b.v.(*Term); ok && tb.sort == sVal {
			return env.term(SV{sa, a.t}, sVal), tb
		}
	}
	if sb, ok := b.v.(*SliceV); ok {
		if ta, ok := a.v.(*Term); ok && ta.sort == sVal {
			return ta, env.term(SV{sb, b.t}, sVal)
		}
	}
	ta, tb := env.term(a, ""), env.term(b, "")
	if ta.sort == tb.sort {
		return ta, tb
	}
	if ta.sort == sInt && tb.sort == sReal {
		return ToReal(ta), tb
	}
	if ta.sort == sReal && tb.sort == sInt {
		return ta, ToReal(tb)
	}
	if ta.sort == sVal && b.t != nil {
		return ta, env.e.box(nil, tb, b.t)
	}
	if tb.sort == sVal && a.t != nil {
		return env.e.box(nil, ta, a.t), tb
	}
	specFail("cannot unify sorts %s and %s (%s, %s)", ta.sort, tb.sort, ta, tb)
	return nil, nil
}

func (env *Env) bin(st *State, x *Expr) SV {
	switch x.name {
	case "==>":
		a := env.evalBool(st, x.args[0])
		if a == tFalse {
			return SV{tTrue, nil}
		}
		return SV{Imp(a, env.evalBool(st, x.args[1])), nil}
	case "<==>":
		return SV{Eq(env.evalBool(st, x.args[0]), env.evalBool(st, x.args[1])), nil}
	case "&&":
		a := env.evalBool(st, x.args[0])
		if a == tFalse {
			return SV{tFalse, nil}
		}
		return SV{And(a, env.evalBool(st, x.args[1])), nil}
	case "||":
		a := env.evalBool(st, x.args[0])
		if a == tTrue {
			return SV{tTrue, nil}
		}
		return SV{Or(a, env.evalBool(st, x.args[1])), nil}
	}
	a := env.eval(st, x.args[0])
	b := env.eval(st, x.args[1])
	if x.name == "==" || x.name == "!=" {
		t := env.eqSV(a, b)
		if x.name == "!=" {
			t = Not(t)
		}
		return SV{t, nil}
	}
	ta, tb := env.unify(a, b)
	ty := a.t
	if ty == nil || ta.sort == sReal {
		ty = b.t
	}
	switch x.name {
	case "+":
		return SV{Add(ta, tb), ty}
	case "-":
		return SV{Sub(ta, tb), ty}
	case "*":
		return SV{Mul(ta, tb), ty}
	case "/":
		if ta.sort == sReal {
			return SV{Div(ta, tb), ty}
		}
		return SV{App("tdiv", sInt, ta, tb), ty}
	case "%":
		return SV{App("tmod", sInt, ta, tb), ty}
	case "<":
		return SV{Lt(ta, tb), nil}
	case "<=":
		return SV{Le(ta, tb), nil}
	case ">":
		return SV{Gt(ta, tb), nil}
	case ">=":
		return SV{Ge(ta, tb), nil}
	}
	specFail("bad operator %s", x.name)
	return SV{}
}

func isNilSV(v SV) bool {
	t, ok := v.v.(*Term)
	return ok && t.op == "app" && t.name == "nil"
}

func (env *Env) eqSV(a, b SV) *Term {
	if isNilSV(a) {
		a, b = b, a
	}
	if isNilSV(b) {
		switch x := a.v.(type) {
		case *SliceV:
			return Eq(x.arr, intT(0))
		case *FuncV:
			if x.fn != nil {
				return tFalse
			}
			return Eq(x.term, intT(0))
		case *Term:
			if x.sort == sVal {
				return isNil(x)
			}
			return Eq(x, intT(0))
		}
		specFail("== nil on %T", a.v)
	}
	sa, ok1 := a.v.(*SliceV)
	sb, ok2 := b.v.(*SliceV)
	if ok1 && ok2 {
		return And(Eq(sa.arr, sb.arr), Eq(sa.off, sb.off), Eq(sa.ln, sb.ln), Eq(sa.cp, sb.cp))
	}
	ta, tb := env.unify(a, b)
	return Eq(ta, tb)
}

func isNil(x *Term) *Term {
	if x.op == "app" && isCtor(x.name) {
		return boolT(x.name == "VNil")
	}
	return Eq(x, App("VNil", sVal))
}

var tNil = mk("app", "nil", "nil")

func (env *Env) ident(st *State, n string) SV {
	if v, ok := env.vars[n]; ok {
		if c, ok := v.v.(*Cell); ok {
			cv, ok := st.cells[c]
			if !ok {
				panic(unsupported("cell not live"))
			}
			if c.name == "rangeindex" {
				if n == "$len" {
					return SV{cv, c.typ}
				}
				return SV{Add(cv.(*Term), intT(1)), c.typ}
			}
			return SV{cv, c.typ}
		}
		return v
	}
	switch n {
	case "true":
		return SV{tTrue, nil}
	case "false":
		return SV{tFalse, nil}
	case "nil":
		return SV{tNil, nil}
	case "allocNow":
		return SV{st.alloc, nil}
	}
	if p := specs.preds[n]; p != nil && len(p.params) == 0 {
		return env.pred(st, p, nil)
	}
	if sg, ok := funSigs[n]; ok && len(sg.args) == 0 {
		if isCtor(n) {
			return SV{App(n, sg.ret), nil}
		}
		return SV{varT(n, sg.ret), nil}
	}
	if strings.HasPrefix(n, "G_") {
		for _, p := range prog.AllPackages() {
			if pre := "G_" + p.Pkg.Name() + "_"; inRepoPkg(p) && strings.HasPrefix(n, pre) {
				if g, ok := p.Members[n[len(pre):]].(*ssa.Global); ok {
					t := g.Type().Underlying().(*types.Pointer).Elem()
					return SV{env.e.load(st, env.e.val(nil, st, g), t), t}
				}
			}
		}
	}
	specFail("unknown identifier %s", n)
	return SV{}
}

func (env *Env) pred(st *State, p *Pred, args []SV) SV {
	m := make(map[string]SV, len(p.params))
	for i, n := range p.params {
		m[n] = args[i]
	}
	c := *env
	c.vars = m
	return c.eval(st, p.body)
}

func structOf(t types.Type) (types.Type, *types.Struct) {
	if t == nil {
		return nil, nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if s, ok := p.Elem().Underlying().(*types.Struct); ok {
			return p.Elem(), s
		}
	}
	return nil, nil
}

func (env *Env) field(st *State, b SV, f string) SV {
	e := env.e
	if sv, ok := b.v.(*StructV); ok {
		s := sv.typ.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == f {
				return SV{sv.f[i], s.Field(i).Type()}
			}
		}
		specFail("no field %s in %s", f, sv.typ)
	}
	owner, s := structOf(b.t)
	if s == nil {
		specFail("field %s of non-struct %v (%v)", f, b.t, b.v)
	}
	ref := b.v.(*Term)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			ft := s.Field(i).Type()
			return SV{e.readField(st, owner, f, ft, ref), ft}
		}
	}
	tn := typeName(owner)
	if g, ok := specs.ghosts[tn+"."+f]; ok {
		srt, gt := specSort(g.sort)
		return SV{e.heapRead(st, "F."+tn+"."+f, srt, ref), gt}
	}
	specFail("no field %s in %s", f, tn)
	return SV{}
}

func (e *Exec) readField(st *State, owner types.Type, f string, ft types.Type, ref *Term) Val {
	if fieldAddrEscapes[fieldKey(owner, f)] {
		return e.loadAt(st, ptrKey(ft), faddr(owner, f, ref), ft, true)
	}
	return e.loadAt(st, fieldKey(owner, f), ref, ft, true)
}

func (env *Env) index(st *State, a, i SV) SV {
	e := env.e
	if s, ok := a.v.(*SliceV); ok {
		et := a.t.Underlying().(*types.Slice).Elem()
		return SV{e.elemRead(st, s.arr, Add(s.off, env.term(i, sInt)), et), et}
	}
	t := a.v.(*Term)
	if a.t != nil {
		if m, ok := a.t.Underlying().(*types.Map); ok {
			k := env.term(i, sortOf(m.Key()))
			return SV{e.mapVal(st, t, m, k), m.Elem()}
		}
	}
	if strings.HasPrefix(t.sort, "(Array") {
		r := Select(t, env.term(i, arrKey(t.sort)))
		var gt types.Type
		if r.sort == sReal {
			gt = types.Typ[types.Float64]
		}
		return SV{r, gt}
	}
	specFail("cannot index %s", t.sort)
	return SV{}
}

// maps: dom (Array K Bool), val (Array K V), keyed by map ref
func mapKey(m *types.Map) string { return "M." + sanitize(typeName(m.Underlying())) }

func (e *Exec) mapDom(st *State, ref *Term, m *types.Map) *Term {
	return e.heapRead(st, mapKey(m)+"#d", arr(sortOf(m.Key()), sBool), ref)
}
func (e *Exec) mapVals(st *State, ref *Term, m *types.Map) *Term {
	return e.heapRead(st, mapKey(m)+"#v", arr(sortOf(m.Key()), sortOf(m.Elem())), ref)
}
func (e *Exec) mapLen(st *State, ref *Term, m *types.Map) *Term {
	t := e.heapRead(st, mapKey(m)+"#n", sInt, ref)
	if !t.hasBV {
		st.assume(Le(intT(0), t))
	}
	return t
}
func (e *Exec) mapVal(st *State, ref *Term, m *types.Map, k *Term) *Term {
	return Select(e.mapVals(st, ref, m), k)
}

func (env *Env) call(st *State, x *Expr) SV {
	e := env.e
	switch x.name {
	case "len", "cap":
		a := env.eval(st, x.args[0])
		if s, ok := a.v.(*SliceV); ok {
			if x.name == "len" {
				return SV{s.ln, types.Typ[types.Int]}
			}
			return SV{s.cp, types.Typ[types.Int]}
		}
		if m, ok := a.t.Underlying().(*types.Map); ok {
			return SV{e.mapLen(st, a.v.(*Term), m), types.Typ[types.Int]}
		}
		specFail("len of %v", a.t)
	case "has":
		a := env.eval(st, x.args[0])
		m := a.t.Underlying().(*types.Map)
		k := env.term(env.eval(st, x.args[1]), sortOf(m.Key()))
		if env.inPat {
			return SV{Select(e.mapDom(st, a.v.(*Term), m), k), nil}
		}
		return SV{And(Not(Eq(a.v.(*Term), intT(0))), Select(e.mapDom(st, a.v.(*Term), m), k)), nil}
	case "dom":
		a := env.eval(st, x.args[0])
		m := a.t.Underlying().(*types.Map)
		return SV{e.mapDom(st, a.v.(*Term), m), nil}
	case "vals":
		a := env.eval(st, x.args[0])
		m := a.t.Underlying().(*types.Map)
		return SV{e.mapVals(st, a.v.(*Term), m), nil}
	case "row": // the whole element array of a slice
		a := env.eval(st, x.args[0])
		s := a.v.(*SliceV)
		et := a.t.Underlying().(*types.Slice).Elem()
		k := elemKeys(et)
		if len(k) != 1 {
			specFail("row of nested slice")
		}
		return SV{e.heapRead(st, k[0], arr(sInt, sortOf(et)), s.arr), nil}
	case "arr", "off":
		a := env.eval(st, x.args[0])
		s := a.v.(*SliceV)
		if x.name == "off" {
			return SV{s.off, nil}
		}
		return SV{s.arr, nil}
	case "pre":
		if env.pre == nil {
			specFail("pre() outside a loop invariant")
		}
		return env.eval(env.pre, x.args[0])
	case "fresh":
		a := env.eval(st, x.args[0])
		var r *Term
		switch y := a.v.(type) {
		case *SliceV:
			r = y.arr
		case *Term:
			r = y
			if y.sort == sVal {
				r = App("vp", sInt, y)
			}
		}
		return SV{And(Le(env.old.alloc, r), Lt(r, st.alloc)), nil}
	case "allocated":
		a := env.eval(st, x.args[0])
		var r *Term
		switch y := a.v.(type) {
		case *SliceV:
			r = y.arr
		case *Term:
			r = y
		}
		return SV{And(Le(intT(0), r), Lt(r, st.alloc)), nil}
	case "real":
		return SV{env.term(env.eval(st, x.args[0]), sReal), types.Typ[types.Float64]}
	case "deref":
		a := env.eval(st, x.args[0])
		el := a.t.Underlying().(*types.Pointer).Elem()
		return SV{e.loadAt(st, ptrKey(el), a.v.(*Term), el, true), el}
	case "as": // as(val, type): unboxed interface value
		a := env.eval(st, x.args[0])
		t := lookupType(exprText(x.args[1]))
		if t == nil {
			specFail("unknown type %s", exprText(x.args[1]))
		}
		_, v := e.unbox(st, env.term(a, sVal), t)
		return SV{v, t}
	case "is":
		a := env.eval(st, x.args[0])
		t := lookupType(exprText(x.args[1]))
		if t == nil {
			specFail("unknown type %s", exprText(x.args[1]))
		}
		c, _ := e.unbox(st, env.term(a, sVal), t)
		return SV{c, nil}
	case "box":
		a := env.eval(st, x.args[0])
		t := a.t
		if len(x.args) > 1 {
			t = lookupType(exprText(x.args[1]))
		}
		return SV{e.box(st, a.v, t), nil}
	case "typed": // typed(term, type)
		a := env.eval(st, x.args[0])
		t := lookupType(exprText(x.args[1]))
		if t == nil {
			specFail("unknown type %s", exprText(x.args[1]))
		}
		return SV{a.v, t}
	case "constarr":
		srt := x.args[0]
		v := env.eval(st, x.args[1]).v.(*Term)
		return SV{ConstArr(arr(exprText(srt), v.sort), v), nil}
	case "closed":
		return SV{tTrue, nil}
	case "locked":
		return SV{e.lockedTerm(st, env.eval(st, x.args[0])), nil}
	case "fcall": // fcall(f, args...): application of a pure function value
		f := env.eval(st, x.args[0])
		var ts []*Term
		for _, a := range x.args[1:] {
			ts = append(ts, env.eval(st, a).v.(*Term))
		}
		sg := f.t.Underlying().(*types.Signature)
		return SV{pureCall(env.term(f, sInt), sg, ts), sg.Results().At(0).Type()}
	case "tree":
		a := env.eval(st, x.args[0])
		return SV{e.treeOf(st, a), nil}
	case "min", "max":
		ta, tb := env.unify(env.eval(st, x.args[0]), env.eval(st, x.args[1]))
		if x.name == "min" {
			return SV{Ite(Le(ta, tb), ta, tb), nil}
		}
		return SV{Ite(Le(ta, tb), tb, ta), nil}
	}
	if p := specs.preds[x.name]; p != nil {
		if len(p.params) != len(x.args) {
			specFail("pred %s: %d arguments", x.name, len(x.args))
		}
		var args []SV
		for _, a := range x.args {
			args = append(args, env.eval(st, a))
		}
		return env.pred(st, p, args)
	}
	if sg, ok := funSigs[x.name]; ok {
		if len(sg.args) != len(x.args) {
			specFail("function %s: %d arguments", x.name, len(x.args))
		}
		var ts []*Term
		for i, a := range x.args {
			ts = append(ts, env.term(env.eval(st, a), sg.args[i]))
		}
		var gt types.Type
		if sg.ret == sReal {
			gt = types.Typ[types.Float64]
		}
		return SV{mkCall(x.name, sg.ret, ts), gt}
	}
	specFail("unknown function %s", x.name)
	return SV{}
}

func mkCall(name, ret string, ts []*Term) *Term {
	// selectors of constructor terms
	if len(ts) == 1 && ts[0].op == "app" && isCtor(ts[0].name) {
		for _, c := range dataTypes[ts[0].sort] {
			if c.name == ts[0].name {
				for i, f := range c.fields {
					if f == name {
						return ts[0].args[i]
					}
				}
			}
		}
	}
	return App(name, ret, ts...)
}

func pureCall(f *Term, sg *types.Signature, args []*Term) *Term {
	n := "fcall"
	for _, a := range args {
		n += "_" + sanitize(a.sort)
	}
	ret := sortOf(sg.Results().At(0).Type())
	n += "__" + sanitize(ret)
	if _, ok := funSigs[n]; !ok {
		s := funSig{ret: ret, args: []string{sInt}}
		for _, a := range args {
			s.args = append(s.args, a.sort)
		}
		funSigs[n] = s
		autoFuns[n] = s
	}
	return App(n, ret, append([]*Term{f}, args...)...)
}

var autoFuns = map[string]funSig{}

func exprText(x *Expr) string {
	switch x.op {
	case "ident", "num":
		return x.name
	case "str":
		return x.name
	case "field":
		return exprText(x.args[0]) + "." + x.name
	}
	specFail("bad type expression")
	return ""
}

func sortedKeys(m map[string]*Term) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
