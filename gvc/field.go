package main

import (
	"fmt"
	"math/big"
	"os"
)

// Equations between rational expressions. An equality goal is rewritten with
// the equations the hypotheses give for variables, both sides are brought to
// the form N/D, and N1*D2 = N2*D1 is compared as polynomials. Every
// denominator cancelled on the way is shown to be nonzero by a solver first;
// an inverse that may be of zero stays as it is and is matched only with an
// inverse of an equal expression.

type fieldCtx struct {
	hyps   []*Term
	uses   []string
	sub    map[int]*Term
	smemo  map[int]*Term
	memo   map[int][2]*Term
	opaque []opaqueApp
	nz     map[int]bool
}
type opaqueApp struct {
	name string
	args [][2]*Term
	rep  *Term
}

// facts closes the hypotheses under implications whose antecedent is known.
func factsOf(hyps []*Term) []*Term {
	known := map[int]bool{}
	var out []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if known[t.id] {
			return
		}
		if t.op == "app" && t.name == "and" {
			for _, a := range t.args {
				add(a)
			}
			return
		}
		known[t.id] = true
		out = append(out, t)
	}
	for _, h := range hyps {
		add(h)
	}
	holds := func(t *Term) bool {
		if t == tTrue || known[t.id] {
			return true
		}
		if t.op == "app" && t.name == "and" {
			for _, a := range t.args {
				if !known[a.id] {
					return false
				}
			}
			return true
		}
		return false
	}
	for changed := true; changed; {
		changed = false
		for _, t := range out {
			if t.op == "app" && t.name == "=>" && holds(t.args[0]) && !holds(t.args[1]) {
				n := len(out)
				add(t.args[1])
				changed = changed || len(out) > n
			}
		}
	}
	return out
}

func fieldProve(o *Oblig) bool {
	termMu.Lock()
	defer termMu.Unlock()
	goal := o.goal
	hyps := append([]*Term{}, o.hyps...)
	for goal.op == "app" && goal.name == "=>" {
		for _, c := range conjuncts(goal.args[0]) {
			hyps = append(hyps, c)
		}
		goal = goal.args[1]
	}
	if goal.op != "app" || goal.name != "=" || goal.args[0].sort != sReal || !hasInv(goal) {
		return false
	}
	c := &fieldCtx{uses: o.uses, sub: map[int]*Term{}, nz: map[int]bool{}}
	c.hyps = factsOf(hyps)
	for round := 0; round < 6; round++ {
		n := len(c.sub)
		for _, h := range c.hyps {
			c.define(h)
		}
		if len(c.sub) == n {
			break
		}
	}
	c.smemo = map[int]*Term{}
	c.memo = map[int][2]*Term{}
	a, b := c.fix(goal.args[0]), c.fix(goal.args[1])
	x, y := c.nf(a), c.nf(b)
	d := Sub(Mul(x[0], y[1]), Mul(y[0], x[1]))
	if os.Getenv("GVC_FIELD") != "" && d != realT(0) {
		fmt.Fprintf(os.Stderr, "field %s: %v\n  = %v / %v\n  = %v / %v\n", o.Name, goal, x[0], x[1], y[0], y[1])
	}
	return d == realT(0)
}

func hasInv(t *Term) bool {
	if t.op == "app" && t.name == "inv" {
		return true
	}
	for _, a := range t.args {
		if hasInv(a) {
			return true
		}
	}
	return false
}

func (c *fieldCtx) fix(t *Term) *Term {
	for i := 0; i < 12; i++ {
		n := subst(t, c.sub, map[int]*Term{})
		if n == t {
			return t
		}
		t = n
	}
	return t
}

// define turns an equation with a variable that occurs once, linearly, into a
// definition of that variable.
func (c *fieldCtx) define(h *Term) {
	if h.op != "app" || h.name != "=" || h.args[0].sort != sReal && h.args[0].sort != sInt || h.hasBV || hasQuant(h) {
		return
	}
	srt := h.args[0].sort
	d := c.fix(Sub(h.args[0], h.args[1]))
	var best *mono
	ms := polyOf(d).sorted()
	for _, m := range ms {
		if len(m.atoms) != 1 || m.atoms[0].op != "var" || c.sub[m.atoms[0].id] != nil {
			continue
		}
		v := m.atoms[0]
		occ := 0
		for _, m2 := range ms {
			for _, a := range m2.atoms {
				if occurs(a, v) {
					occ++
				}
			}
		}
		if occ != 1 {
			continue
		}
		if srt == sInt && !(m.coef.IsInt() && (m.coef.Num().IsInt64() && (m.coef.Num().Int64() == 1 || m.coef.Num().Int64() == -1))) {
			continue
		}
		if best == nil || v.id > best.atoms[0].id {
			best = m
		}
	}
	if best == nil {
		// an equation between two atoms: the younger stands for the older
		if len(ms) == 2 && len(ms[0].atoms) == 1 && len(ms[1].atoms) == 1 && new(big.Rat).Add(ms[0].coef, ms[1].coef).Sign() == 0 {
			x, y := ms[0].atoms[0], ms[1].atoms[0]
			if x.id < y.id {
				x, y = y, x
			}
			if !occurs(y, x) && c.sub[x.id] == nil {
				c.sub[x.id] = y
			}
		}
		// or with a literal
		var at *mono
		lit := new(big.Rat)
		for _, m := range ms {
			switch len(m.atoms) {
			case 0:
				lit = m.coef
			case 1:
				if at != nil {
					return
				}
				at = m
			default:
				return
			}
		}
		if at != nil && len(ms) <= 2 && c.sub[at.atoms[0].id] == nil {
			q := new(big.Rat).Quo(lit, at.coef)
			if srt == sReal || q.IsInt() {
				c.sub[at.atoms[0].id] = ratT(q.Neg(q), srt)
			}
		}
		return
	}
	v := best.atoms[0]
	// d = coef*v + rest = 0
	rest := Sub(d, Mul(ratT(best.coef, srt), v))
	inv := new(big.Rat).Inv(best.coef)
	c.sub[v.id] = Mul(ratT(inv.Neg(inv), srt), rest)
}

func occurs(t, v *Term) bool {
	if t == v {
		return true
	}
	for _, a := range t.args {
		if occurs(a, v) {
			return true
		}
	}
	return false
}

func (c *fieldCtx) nf(t *Term) [2]*Term {
	if r, ok := c.memo[t.id]; ok {
		return r
	}
	one := realT(1)
	N, D := realT(0), one
	for _, m := range polyOf(t).sorted() {
		n, d := ratT(m.coef, sReal), one
		for _, a := range m.atoms {
			x := c.atom(a)
			n, d = Mul(n, x[0]), Mul(d, x[1])
		}
		if d == D {
			N = Add(N, n)
		} else if d == one {
			N = Add(N, Mul(n, D))
		} else if D == one {
			N, D = Add(Mul(N, d), n), d
		} else {
			N, D = Add(Mul(N, d), Mul(n, D)), Mul(D, d)
		}
	}
	if N == realT(0) {
		D = one
	}
	c.memo[t.id] = [2]*Term{N, D}
	return c.memo[t.id]
}

func (c *fieldCtx) atom(a *Term) [2]*Term {
	one := realT(1)
	if a.op != "app" {
		return [2]*Term{a, one}
	}
	switch a.name {
	case "inv":
		x := c.nf(a.args[0])
		// 1/(g*Q/D) = D * 1/g * 1/Q for the common factor g of the numerator
		g, Q := commonFactor(x[0])
		N, D := x[1], one
		if Q.rat != nil && Q.rat.Sign() != 0 || Q.rat == nil && c.nonzero(Q) {
			D = Q
		} else {
			N = Mul(N, c.canon(mk("app", "inv", sReal, Q), [][2]*Term{{Q, one}}))
		}
		for _, u := range g {
			if c.nonzero(u) {
				D = Mul(D, u)
			} else {
				N = Mul(N, c.canon(mk("app", "inv", sReal, u), [][2]*Term{{u, one}}))
			}
		}
		return [2]*Term{N, D}
	case "rsqrt":
		return [2]*Term{c.canon(a, [][2]*Term{c.nf(a.args[0])}), one}
	case "rpow", "rpowr":
		e := [2]*Term{a.args[1], one}
		return [2]*Term{c.canon(a, [][2]*Term{c.nf(a.args[0]), e}), one}
	}
	return [2]*Term{a, one}
}

// canon finds the representative of an application among those seen.
func (c *fieldCtx) canon(a *Term, args [][2]*Term) *Term {
	for _, o := range c.opaque {
		if o.name != a.name {
			continue
		}
		same := true
		for i := range args {
			if args[i][0].sort == sInt {
				same = same && args[i][0] == o.args[i][0]
			} else {
				same = same && Sub(Mul(args[i][0], o.args[i][1]), Mul(o.args[i][0], args[i][1])) == realT(0)
			}
		}
		if same {
			return o.rep
		}
	}
	c.opaque = append(c.opaque, opaqueApp{a.name, args, a})
	return a
}

func (c *fieldCtx) nonzero(p *Term) bool {
	if p.rat != nil {
		return p.rat.Sign() != 0
	}
	if r, ok := c.nz[p.id]; ok {
		return r
	}
	// a product is nonzero if its factors are
	if ms := polyOf(p).sorted(); len(ms) == 1 && (len(ms[0].atoms) > 1 || ms[0].atoms[0] != p) {
		r := true
		for _, a := range ms[0].atoms {
			r = r && c.nonzero(a)
		}
		c.nz[p.id] = r
		return r
	}
	var qf []*Term
	for _, t := range c.hyps {
		if !hasQuant(t) {
			qf = append(qf, t)
		}
	}
	q := buildQuery(qf, Not(Eq(p, realT(0))), c.uses, false) + "(check-sat)\n"
	s, _ := runSolver(backends[0], q, ms(700))
	if s != "unsat" {
		s, _ = runSolver(backends[3], q, ms(700))
	}
	if os.Getenv("GVC_FIELD") != "" {
		fmt.Fprintln(os.Stderr, "nonzero", p, s)
	}
	c.nz[p.id] = s == "unsat"
	return c.nz[p.id]
}

func commonFactor(t *Term) ([]*Term, *Term) {
	ms := polyOf(t).sorted()
	if len(ms) == 0 {
		return nil, t
	}
	g := append([]*Term{}, ms[0].atoms...)
	for _, m := range ms[1:] {
		rest := append([]*Term{}, m.atoms...)
		var common []*Term
		for _, x := range g {
			for j, y := range rest {
				if x == y {
					rest = append(rest[:j:j], rest[j+1:]...)
					common = append(common, x)
					break
				}
			}
		}
		g = common
	}
	q := newPoly()
	for _, m := range ms {
		rest := append([]*Term{}, m.atoms...)
		for _, x := range g {
			for j, y := range rest {
				if x == y {
					rest = append(rest[:j:j], rest[j+1:]...)
					break
				}
			}
		}
		q.add(m.coef, rest)
	}
	return g, q.term(sReal)
}
