package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Term is a hash-consed SMT term. Numeric terms are kept in polynomial normal
// form over atoms, so that equal polynomials are the same pointer.
type Term struct {
	id    int
	op    string // "const" (numeral), "var", "bvar", "app", "+", "*", "forall", "exists", ...
	name  string // var / function name / numeral
	args  []*Term
	sort  string
	rat   *big.Rat
	poly  *poly
	bound []*Term // forall/exists
	hasBV bool
	fbv   []int
	size  int
}

var interned = map[string]*Term{}
var termCount int

func key(op, name, sort string, args []*Term) string {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	b.WriteString(sort)
	for _, a := range args {
		fmt.Fprintf(&b, "|%d", a.id)
	}
	return b.String()
}

func mk(op, name, srt string, args ...*Term) *Term {
	k := key(op, name, srt, args)
	if t, ok := interned[k]; ok {
		return t
	}
	termCount++
	t := &Term{id: termCount, op: op, name: name, sort: srt, args: args, size: 1}
	if op == "bvar" {
		t.fbv = []int{t.id}
	}
	for _, a := range args {
		t.fbv = unionIDs(t.fbv, a.fbv)
		t.size += a.size
		if t.size > 1<<40 {
			t.size = 1 << 40
		}
	}
	t.hasBV = len(t.fbv) > 0
	interned[k] = t
	return t
}

const (
	sInt  = "Int"
	sReal = "Real"
	sBool = "Bool"
	sVal  = "Val"
	sStr  = "Str"
)

func arr(k, v string) string { return "(Array " + k + " " + v + ")" }

func arrElem(s string) string {
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	parts := splitSexp(s[1 : len(s)-1])
	return parts[2]
}

func arrKey(s string) string {
	parts := splitSexp(s[1 : len(s)-1])
	return parts[1]
}

func splitSexp(s string) []string {
	var out []string
	depth := 0
	cur := ""
	for _, c := range s {
		switch {
		case c == '(':
			depth++
			cur += string(c)
		case c == ')':
			depth--
			cur += string(c)
		case (c == ' ' || c == '\n' || c == '\t') && depth == 0:
			if cur != "" {
				out = append(out, cur)
				cur = ""
			}
		default:
			cur += string(c)
		}
	}
	if cur != "" {
		out = append(out, cur)
	}
	return out
}

var tTrue = mk("app", "true", sBool)
var tFalse = mk("app", "false", sBool)

func boolT(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func ratT(r *big.Rat, srt string) *Term {
	t := mk("const", r.RatString(), srt)
	t.rat = r
	return t
}
func intT(n int64) *Term        { return ratT(big.NewRat(n, 1), sInt) }
func realT(n int64) *Term       { return ratT(big.NewRat(n, 1), sReal) }
func bigT(n *big.Int) *Term     { return ratT(new(big.Rat).SetInt(n), sInt) }
func varT(name, s string) *Term { return mk("var", name, s) }
func bvarT(name, s string) *Term {
	return mk("bvar", name, s)
}

var freshN = map[string]int{}

func freshT(base, s string) *Term {
	base = sanitize(base)
	freshN[base]++
	return varT(fmt.Sprintf("%s!%d", base, freshN[base]), s)
}

func sanitize(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '!' {
			b.WriteRune(c)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

// ---------- polynomials ----------

type mono struct {
	coef  *big.Rat
	atoms []*Term // sorted by id, with repetition
}
type poly struct {
	m    map[string]*mono
	keys []string
}

func monoKey(atoms []*Term) string {
	var b strings.Builder
	for _, a := range atoms {
		fmt.Fprintf(&b, "%d,", a.id)
	}
	return b.String()
}

func newPoly() *poly { return &poly{m: map[string]*mono{}} }
func (p *poly) add(c *big.Rat, atoms []*Term) {
	k := monoKey(atoms)
	if e, ok := p.m[k]; ok {
		e.coef = new(big.Rat).Add(e.coef, c)
		if e.coef.Sign() == 0 {
			delete(p.m, k)
		}
	} else if c.Sign() != 0 {
		p.m[k] = &mono{c, atoms}
	}
}

func polyOf(t *Term) *poly {
	if t.poly != nil {
		return t.poly
	}
	p := newPoly()
	if t.op == "const" {
		p.add(t.rat, nil)
	} else {
		p.add(big.NewRat(1, 1), []*Term{t})
	}
	t.poly = p
	return p
}

func (p *poly) isConst() (*big.Rat, bool) {
	if len(p.m) == 0 {
		return new(big.Rat), true
	}
	if len(p.m) == 1 {
		if e, ok := p.m[""]; ok {
			return e.coef, true
		}
	}
	return nil, false
}

func (p *poly) sorted() []*mono {
	ks := make([]string, 0, len(p.m))
	for k := range p.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		a, b := p.m[ks[i]].atoms, p.m[ks[j]].atoms
		for x := 0; x < len(a) && x < len(b); x++ {
			if a[x].id != b[x].id {
				return a[x].id < b[x].id
			}
		}
		return len(a) < len(b)
	})
	out := make([]*mono, len(ks))
	for i, k := range ks {
		out[i] = p.m[k]
	}
	return out
}

func (p *poly) term(srt string) *Term {
	if c, ok := p.isConst(); ok {
		return ratT(c, srt)
	}
	ms := p.sorted()
	var sum []*Term
	for _, m := range ms {
		var fs []*Term
		if m.coef.Cmp(big.NewRat(1, 1)) != 0 || len(m.atoms) == 0 {
			fs = append(fs, ratT(m.coef, srt))
		}
		fs = append(fs, m.atoms...)
		if len(fs) == 1 {
			sum = append(sum, fs[0])
		} else {
			sum = append(sum, mk("app", "*", srt, fs...))
		}
	}
	var t *Term
	if len(sum) == 1 {
		t = sum[0]
	} else {
		t = mk("app", "+", srt, sum...)
	}
	if t.poly == nil {
		t.poly = p
	}
	return t
}

func Add(a, b *Term) *Term {
	p := newPoly()
	for _, m := range polyOf(a).m {
		p.add(m.coef, m.atoms)
	}
	for _, m := range polyOf(b).m {
		p.add(m.coef, m.atoms)
	}
	return p.term(a.sort)
}

func Neg(a *Term) *Term { return Mul(ratT(big.NewRat(-1, 1), a.sort), a) }
func Sub(a, b *Term) *Term {
	return Add(a, Neg(b))
}

func mergeAtoms(a, b []*Term) []*Term {
	out := make([]*Term, 0, len(a)+len(b))
	out = append(out, a...)
	out = append(out, b...)
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func Mul(a, b *Term) *Term {
	pa, pb := polyOf(a), polyOf(b)
	if len(pa.m)*len(pb.m) > 200 {
		if a.id > b.id {
			a, b = b, a
		}
		return mk("app", "*", a.sort, a, b)
	}
	p := newPoly()
	for _, m := range pa.m {
		for _, n := range pb.m {
			p.add(new(big.Rat).Mul(m.coef, n.coef), mergeAtoms(m.atoms, n.atoms))
		}
	}
	return p.term(a.sort)
}

// Inv is the multiplicative inverse (inv 0 = 0 by convention).
func Inv(a *Term) *Term {
	p := polyOf(a)
	if c, ok := p.isConst(); ok {
		if c.Sign() == 0 {
			return realT(0)
		}
		return ratT(new(big.Rat).Inv(c), sReal)
	}
	ms := p.sorted()
	if len(ms) == 1 {
		r := ratT(new(big.Rat).Inv(ms[0].coef), sReal)
		for _, x := range ms[0].atoms {
			if x.op == "app" && x.name == "inv" {
				r = Mul(r, x.args[0])
			} else {
				r = Mul(r, mk("app", "inv", sReal, x))
			}
		}
		return r
	}
	// scale to leading coefficient 1
	lead := ms[0].coef
	sc := Mul(ratT(new(big.Rat).Inv(lead), sReal), a)
	return Mul(ratT(new(big.Rat).Inv(lead), sReal), mk("app", "inv", sReal, sc))
}
func Div(a, b *Term) *Term { return Mul(a, Inv(b)) }

func ToReal(a *Term) *Term {
	if a.sort == sReal {
		return a
	}
	if a.rat != nil {
		return ratT(a.rat, sReal)
	}
	// push through the polynomial
	p := newPoly()
	for _, m := range polyOf(a).m {
		atoms := make([]*Term, len(m.atoms))
		for i, x := range m.atoms {
			atoms[i] = mk("app", "to_real", sReal, x)
		}
		sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
		p.add(m.coef, atoms)
	}
	return p.term(sReal)
}

// ---------- booleans ----------

func Not(a *Term) *Term {
	switch {
	case a == tTrue:
		return tFalse
	case a == tFalse:
		return tTrue
	case a.op == "app" && a.name == "not":
		return a.args[0]
	}
	return mk("app", "not", sBool, a)
}

func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, t := range ts {
		if t == tFalse {
			return tFalse
		}
		var list []*Term
		if t.op == "app" && t.name == "and" {
			list = t.args
		} else {
			list = []*Term{t}
		}
		for _, x := range list {
			if x == tTrue || seen[x.id] {
				continue
			}
			seen[x.id] = true
			out = append(out, x)
		}
	}
	for _, x := range out {
		if seen[Not(x).id] {
			return tFalse
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("app", "and", sBool, out...)
}

func Or(ts ...*Term) *Term {
	ns := make([]*Term, len(ts))
	var out []*Term
	seen := map[int]bool{}
	for i, t := range ts {
		ns[i] = t
		if t == tTrue {
			return tTrue
		}
		var list []*Term
		if t.op == "app" && t.name == "or" {
			list = t.args
		} else {
			list = []*Term{t}
		}
		for _, x := range list {
			if x == tFalse || seen[x.id] {
				continue
			}
			seen[x.id] = true
			out = append(out, x)
		}
	}
	for _, x := range out {
		if seen[Not(x).id] {
			return tTrue
		}
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("app", "or", sBool, out...)
}

func Imp(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue || a == b {
		return tTrue
	}
	if b == tFalse {
		return Not(a)
	}
	return mk("app", "=>", sBool, a, b)
}

func Ite(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == b {
		return a
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts %s %s: %s / %s", a.sort, b.sort, a, b))
	}
	if a.sort == sBool {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return Not(c)
		}
		if a == tTrue {
			return Or(c, b)
		}
		if b == tFalse {
			return And(c, a)
		}
		if a == tFalse {
			return And(Not(c), b)
		}
		if b == tTrue {
			return Or(Not(c), a)
		}
	}
	return mk("app", "ite", a.sort, c, a, b)
}

func isNum(s string) bool { return s == sInt || s == sReal }

func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		if a.sort == sInt && b.sort == sReal {
			return Eq(ToReal(a), b)
		}
		if a.sort == sReal && b.sort == sInt {
			return Eq(a, ToReal(b))
		}
		panic(fmt.Sprintf("eq sorts %s %s: %s = %s", a.sort, b.sort, a, b))
	}
	if isNum(a.sort) {
		d := Sub(a, b)
		if d.rat != nil {
			return boolT(d.rat.Sign() == 0)
		}
	}
	if a.sort == sBool {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return Not(b)
		}
		if b == tFalse {
			return Not(a)
		}
	}
	if a.op == "app" && b.op == "app" && isCtor(a.name) && isCtor(b.name) {
		if a.name != b.name {
			return tFalse
		}
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("app", "=", sBool, a, b)
}

func Lt(a, b *Term) *Term {
	if a.sort != b.sort {
		a, b = ToReal(a), ToReal(b)
	}
	d := Sub(a, b)
	if d.rat != nil {
		return boolT(d.rat.Sign() < 0)
	}
	return mk("app", "<", sBool, a, b)
}
func Le(a, b *Term) *Term { return Not(Lt(b, a)) }
func Gt(a, b *Term) *Term { return Lt(b, a) }
func Ge(a, b *Term) *Term { return Not(Lt(a, b)) }

// ---------- arrays, applications ----------

func Select(a, i *Term) *Term {
	for a.op == "app" && a.name == "store" {
		j := a.args[1]
		e := Eq(i, j)
		if e == tTrue {
			return a.args[2]
		}
		if e == tFalse {
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == "app" && a.name == "constarr" {
		return a.args[0]
	}
	if a.op == "app" && a.name == "ite" {
		return Ite(a.args[0], Select(a.args[1], i), Select(a.args[2], i))
	}
	return mk("app", "select", arrElem(a.sort), a, i)
}

func Store(a, i, v *Term) *Term {
	if a.op == "app" && a.name == "store" && a.args[1] == i {
		return Store(a.args[0], i, v)
	}
	if v.op == "app" && v.name == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	if v.sort != arrElem(a.sort) {
		panic(fmt.Sprintf("store sort mismatch %s into %s", v.sort, a.sort))
	}
	return mk("app", "store", a.sort, a, i, v)
}

func ConstArr(s string, v *Term) *Term { return mk("app", "constarr", s, v) }

func App(name, srt string, args ...*Term) *Term {
	return mk("app", name, srt, args...)
}

func unionIDs(a, b []int) []int {
	if len(b) == 0 {
		return a
	}
	out := append([]int(nil), a...)
	for _, x := range b {
		f := false
		for _, y := range a {
			if x == y {
				f = true
				break
			}
		}
		if !f {
			out = append(out, x)
		}
	}
	if len(out) == len(a) {
		return a
	}
	return out
}

func Quant(q string, vars []*Term, body *Term, pats ...*Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	var names []string
	bound := map[int]bool{}
	for _, v := range vars {
		names = append(names, v.name+":"+v.sort)
		bound[v.id] = true
	}
	// a trigger has to consist of applications and mention every variable
	var ok []*Term
	for _, p := range pats {
		in := map[int]bool{}
		good := true
		for _, a := range p.args {
			if len(a.fbv) == 0 || a.op == "var" {
				good = false
			}
			for _, x := range a.fbv {
				in[x] = true
			}
		}
		for _, v := range vars {
			good = good && in[v.id]
		}
		if good {
			ok = append(ok, p)
		}
	}
	pats = ok
	t := mk(q, strings.Join(names, ","), sBool, append([]*Term{body}, pats...)...)
	t.bound = vars
	var f []int
	for _, x := range t.fbv {
		if !bound[x] {
			f = append(f, x)
		}
	}
	t.fbv = f
	t.hasBV = len(f) > 0
	return t
}

// Pat groups the terms of one trigger.
func Pat(ts ...*Term) *Term { return mk("app", "!pat", "", ts...) }

var ctors = map[string]bool{}

func isCtor(n string) bool { return ctors[n] }

func subst(t *Term, m map[int]*Term, memo map[int]*Term) *Term {
	if r, ok := m[t.id]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = subst(a, m, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, args)
	}
	memo[t.id] = r
	return r
}

func rebuild(t *Term, args []*Term) *Term {
	if t.op == "forall" || t.op == "exists" {
		return Quant(t.op, t.bound, args[0], args[1:]...)
	}
	switch t.name {
	case "+":
		r := args[0]
		for _, a := range args[1:] {
			r = Add(r, a)
		}
		return r
	case "*":
		r := args[0]
		for _, a := range args[1:] {
			r = Mul(r, a)
		}
		return r
	case "inv":
		return Inv(args[0])
	case "rpow":
		return Rpow(args[0], args[1])
	case "to_real":
		return ToReal(args[0])
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "=>":
		return Imp(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "=":
		return Eq(args[0], args[1])
	case "<":
		return Lt(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	}
	return mk(t.op, t.name, t.sort, args...)
}

// ---------- printing ----------

func numeral(r *big.Rat, s string) string {
	neg := r.Sign() < 0
	a := new(big.Rat).Abs(r)
	var str string
	if s == sInt {
		str = a.Num().String()
	} else if a.IsInt() {
		str = a.Num().String() + ".0"
	} else {
		str = "(/ " + a.Num().String() + ".0 " + a.Denom().String() + ".0)"
	}
	if neg {
		return "(- " + str + ")"
	}
	return str
}

func sym(n string) string {
	return n
}

type printer struct {
	defs   []string
	names  map[int]string
	count  map[int]int
	vars   map[string]string // free vars: name->sort
	order  []string
	invs   map[int]*Term
	funs   map[string]bool
	sorts  map[string]bool
	usedID []string
}

func newPrinter() *printer {
	return &printer{names: map[int]string{}, count: map[int]int{}, vars: map[string]string{}, invs: map[int]*Term{}, funs: map[string]bool{}}
}

func (p *printer) scan(t *Term) {
	p.count[t.id]++
	if p.count[t.id] > 1 {
		return
	}
	if t.op == "var" {
		if _, ok := p.vars[t.name]; !ok {
			p.vars[t.name] = t.sort
			p.order = append(p.order, t.name)
		}
	}
	if t.op == "app" && t.name != "!pat" {
		p.funs[t.name] = true
		if t.name == "inv" && !t.hasBV {
			p.invs[t.id] = t
		}
	}
	for _, a := range t.args {
		p.scan(a)
	}
}

func (p *printer) str(t *Term) string {
	if n, ok := p.names[t.id]; ok {
		return n
	}
	var s string
	switch t.op {
	case "const":
		return numeral(t.rat, t.sort)
	case "var", "bvar":
		return sym(t.name)
	case "forall", "exists":
		var b strings.Builder
		b.WriteString("(" + t.op + " (")
		for _, v := range t.bound {
			b.WriteString("(" + v.name + " " + v.sort + ")")
		}
		if len(t.args) > 1 {
			b.WriteString(") (! " + p.str(t.args[0]))
			for _, pt := range t.args[1:] {
				b.WriteString(" :pattern (")
				for i, x := range pt.args {
					if i > 0 {
						b.WriteString(" ")
					}
					b.WriteString(p.str(x))
				}
				b.WriteString(")")
			}
			b.WriteString("))")
		} else {
			b.WriteString(") " + p.str(t.args[0]) + ")")
		}
		s = b.String()
	default:
		if t.name == "constarr" {
			s = "((as const " + t.sort + ") " + p.str(t.args[0]) + ")"
		} else if len(t.args) == 0 {
			return sym(t.name)
		} else {
			var b strings.Builder
			b.WriteString("(" + sym(t.name))
			for _, a := range t.args {
				b.WriteString(" " + p.str(a))
			}
			b.WriteString(")")
			s = b.String()
		}
	}
	if !t.hasBV && p.count[t.id] > 1 && t.size > 3 {
		n := fmt.Sprintf("t%d", t.id)
		p.defs = append(p.defs, fmt.Sprintf("(define-fun %s () %s %s)", n, t.sort, s))
		p.names[t.id] = n
		return n
	}
	return s
}

func (t *Term) String() string {
	p := newPrinter()
	return p.str(t)
}
