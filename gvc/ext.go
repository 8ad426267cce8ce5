package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var errType types.Type = types.NewPointer(types.NewStruct(nil, nil))

func (e *Exec) newError(st *State) *Term {
	r := e.newRef(st)
	return App("VRef", sVal, intT(1), r)
}

// external models library functions outside the repository.
func (e *Exec) external(fr *Frame, st *State, fn *ssa.Function, name string, args []Val, k Kont) bool {
	full := fn.String()
	one := func(v Val) bool { k(st, []Val{v}); return true }
	t := func(i int) *Term { return e.asTerm(st, args[i]) }
	if strings.HasPrefix(full, "(*sync.") {
		return e.syncCall(fr, st, full, args, k)
	}
	if fn.Name() == "init" && fn.Synthetic != "" {
		// initialisation of imported packages
		k(st, nil)
		return true
	}
	switch full {
	case "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf", "errors.New", "fmt.Errorf":
		return one(e.newError(st))
	case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf":
		in := t(0)
		r := e.newError(st)
		return one(Ite(isNil(in), App("VNil", sVal), r))
	case "fmt.Sprintf", "strings.Join", "strconv.FormatFloat", "strings.Repeat", "fmt.Sprint":
		return one(freshT("str", sStr))
	case "math.Inf":
		s := t(0)
		return one(Ite(Le(intT(0), s), varT("POSINF", sReal), varT("NEGINF", sReal)))
	case "math.NaN":
		panic(unsupported("NaN"))
	case "math.IsNaN":
		return one(tFalse)
	case "math.IsInf":
		x, s := t(0), t(1)
		return one(Or(And(Ge(s, intT(0)), Eq(x, varT("POSINF", sReal))), And(Le(s, intT(0)), Eq(x, varT("NEGINF", sReal)))))
	case "math.Max":
		return one(Ite(Lt(t(0), t(1)), t(1), t(0)))
	case "math.Min":
		return one(Ite(Lt(t(1), t(0)), t(1), t(0)))
	case "math.Abs":
		return one(Ite(Lt(t(0), realT(0)), Neg(t(0)), t(0)))
	case "math.Pow":
		return one(e.powTerm(st, t(0), t(1)))
	case "math.Sqrt":
		return one(App("rsqrt", sReal, t(0)))
	case "math.Trunc":
		return one(ToReal(App("rtrunc", sInt, t(0))))
	case "math.Floor":
		return one(ToReal(App("rfloor", sInt, t(0))))
	case "math.Ceil":
		return one(Neg(ToReal(App("rfloor", sInt, Neg(t(0))))))
	case "time.Now":
		return one(e.freshVal(st, "now", fn.Signature.Results().At(0).Type()))
	}
	return false
}

// powTerm: integer powers become rpow(base, n) with small constants expanded.
func (e *Exec) powTerm(st *State, b, x *Term) *Term {
	if x.rat != nil && x.rat.IsInt() && x.rat.Sign() >= 0 && x.rat.Num().Int64() <= 6 {
		r := realT(1)
		for i := int64(0); i < x.rat.Num().Int64(); i++ {
			r = Mul(r, b)
		}
		return r
	}
	// half-integer powers (both sides are NaN for negative b in the code)
	if x.rat != nil && x.rat.Denom().Int64() == 2 && x.rat.Sign() > 0 && x.rat.Num().Int64() <= 9 {
		r := App("rsqrt", sReal, b)
		for i := int64(0); i < (x.rat.Num().Int64()-1)/2; i++ {
			r = Mul(r, b)
		}
		return r
	}
	// x = to_real(n)?
	if n := intOf(x); n != nil {
		return Rpow(b, n)
	}
	return App("rpowr", sReal, b, x)
}

// intOf recovers the integer term whose real image is x.
func intOf(x *Term) *Term {
	r := intT(0)
	for _, m := range polyOf(x).sorted() {
		if !m.coef.IsInt() {
			return nil
		}
		p := ratT(m.coef, sInt)
		for _, a := range m.atoms {
			if a.op == "app" && a.name == "to_real" {
				p = Mul(p, a.args[0])
			} else {
				return nil
			}
		}
		r = Add(r, p)
	}
	return r
}

// Rpow is b^n for an integer n (zero to a negative power is 0, as for inv);
// products are split, inverses stay outside.
func Rpow(b, n *Term) *Term {
	ms := polyOf(b).sorted()
	if len(ms) > 1 {
		// factor out what every monomial shares: (g*P)^n = g^n P^n
		for _, a := range ms[0].atoms {
			all := true
			for _, m := range ms {
				f := false
				for _, x := range m.atoms {
					f = f || x == a
				}
				all = all && f
			}
			if !all {
				continue
			}
			q := newPoly()
			for _, m := range ms {
				for i, x := range m.atoms {
					if x == a {
						q.add(m.coef, append(append([]*Term{}, m.atoms[:i]...), m.atoms[i+1:]...))
						break
					}
				}
			}
			return Mul(Rpow(a, n), Rpow(q.term(sReal), n))
		}
	}
	if len(ms) != 1 || (ms[0].coef.IsInt() && ms[0].coef.Num().IsInt64() && ms[0].coef.Num().Int64() == 1 && len(ms[0].atoms) == 1 && !(ms[0].atoms[0].op == "app" && ms[0].atoms[0].name == "inv")) {
		return App("rpow", sReal, b, n)
	}
	if len(ms[0].atoms) == 0 {
		return App("rpow", sReal, b, n)
	}
	r := realT(1)
	if c := ratT(ms[0].coef, sReal); c != realT(1) {
		r = App("rpow", sReal, c, n)
	}
	for _, a := range ms[0].atoms {
		if a.op == "app" && a.name == "inv" {
			r = Mul(r, Inv(Rpow(a.args[0], n)))
		} else {
			r = Mul(r, App("rpow", sReal, a, n))
		}
	}
	return r
}
