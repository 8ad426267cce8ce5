package main

import (
	"fmt"
	"os"
	"strings"
)

// ---------- s-expressions and theories ----------

type Sexp struct {
	atom string
	list []*Sexp
	isL  bool
}

func (s *Sexp) String() string {
	if !s.isL {
		return s.atom
	}
	parts := make([]string, len(s.list))
	for i, x := range s.list {
		parts[i] = x.String()
	}
	return "(" + strings.Join(parts, " ") + ")"
}

func parseSexps(src string) ([]*Sexp, error) {
	var stack []*Sexp
	root := &Sexp{isL: true}
	cur := root
	i := 0
	for i < len(src) {
		c := src[i]
		switch {
		case c == ';':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '(':
			n := &Sexp{isL: true}
			cur.list = append(cur.list, n)
			stack = append(stack, cur)
			cur = n
			i++
		case c == ')':
			if len(stack) == 0 {
				return nil, fmt.Errorf("unbalanced )")
			}
			cur = stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			i++
		default:
			j := i
			for j < len(src) && !strings.ContainsRune(" \n\t\r();", rune(src[j])) {
				j++
			}
			cur.list = append(cur.list, &Sexp{atom: src[i:j]})
			i = j
		}
	}
	if len(stack) != 0 {
		return nil, fmt.Errorf("unbalanced (")
	}
	return root.list, nil
}

type funSig struct {
	args []string
	ret  string
}

var funSigs = map[string]funSig{}

type Ctor struct {
	name   string
	fields []string
	sorts  []string
}

var dataTypes = map[string][]Ctor{}

type Item struct {
	kind string // decl, axiom, lemma
	name string
	text string // for decl: raw; for axiom/lemma: formula
	by   *Sexp
	form *Sexp
	th   string
	loc  bool // used only while proving the theory's later lemmas
}

type Theory struct {
	name  string
	needs []string
	items []*Item
}

func loadTheory(file string) error {
	data, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	forms, err := parseSexps(string(data))
	if err != nil {
		return fmt.Errorf("%s: %v", file, err)
	}
	var th *Theory
	for _, f := range forms {
		if !f.isL || len(f.list) == 0 {
			return fmt.Errorf("%s: bad form %s", file, f)
		}
		h := f.list[0].atom
		switch h {
		case "theory":
			th = &Theory{name: f.list[1].atom}
			for _, x := range f.list[2:] {
				th.needs = append(th.needs, x.atom)
			}
			specs.theories[th.name] = th
		case "declare-fun", "define-fun", "define-fun-rec":
			var args []string
			for _, a := range f.list[2].list {
				if h == "declare-fun" {
					args = append(args, a.String())
				} else {
					args = append(args, a.list[1].String())
				}
			}
			funSigs[f.list[1].atom] = funSig{args, f.list[3].String()}
			th.items = append(th.items, &Item{kind: "decl", name: f.list[1].atom, text: f.String(), th: th.name})
		case "declare-const":
			funSigs[f.list[1].atom] = funSig{nil, f.list[2].String()}
			th.items = append(th.items, &Item{kind: "decl", name: f.list[1].atom, text: f.String(), th: th.name})
		case "declare-sort":
			th.items = append(th.items, &Item{kind: "decl", name: f.list[1].atom, text: f.String(), th: th.name})
		case "declare-datatypes":
			for i, d := range f.list[1].list {
				srt := d.list[0].atom
				for _, c := range f.list[2].list[i].list {
					ct := Ctor{name: c.list[0].atom}
					for _, fl := range c.list[1:] {
						ct.fields = append(ct.fields, fl.list[0].atom)
						ct.sorts = append(ct.sorts, fl.list[1].String())
						funSigs[fl.list[0].atom] = funSig{[]string{srt}, fl.list[1].String()}
					}
					funSigs[ct.name] = funSig{ct.sorts, srt}
					ctors[ct.name] = true
					dataTypes[srt] = append(dataTypes[srt], ct)
				}
			}
			th.items = append(th.items, &Item{kind: "decl", text: f.String(), th: th.name})
		case "axiom", "axiom-":
			th.items = append(th.items, &Item{kind: "axiom", loc: h == "axiom-", name: f.list[1].atom, text: f.list[2].String(), form: f.list[2], th: th.name})
		case "lemma", "lemma-":
			// (lemma name by formula); the forms ending in - stay inside the theory
			th.items = append(th.items, &Item{kind: "lemma", loc: h == "lemma-", name: f.list[1].atom, by: f.list[2], text: f.list[3].String(), form: f.list[3], th: th.name})
		default:
			return fmt.Errorf("%s: unknown form %s", file, h)
		}
	}
	return nil
}

func theoryClosure(uses []string) []*Theory {
	seen := map[string]bool{}
	var out []*Theory
	var rec func(n string)
	rec = func(n string) {
		if seen[n] {
			return
		}
		seen[n] = true
		t := specs.theories[n]
		if t == nil {
			panic(specErr("unknown theory " + n))
		}
		for _, x := range t.needs {
			rec(x)
		}
		out = append(out, t)
	}
	rec("base")
	for _, u := range uses {
		rec(u)
	}
	return out
}

func theoryText(uses []string) string {
	var b strings.Builder
	for _, t := range theoryClosure(uses) {
		for _, it := range t.items {
			if it.kind == "decl" {
				b.WriteString(it.text + "\n")
			} else if !it.loc {
				fmt.Fprintf(&b, "(assert (! %s :named %s))\n", it.text, "ax_"+it.name)
			}
		}
	}
	return b.String()
}

func sexpSubst(s *Sexp, m map[string]*Sexp) *Sexp {
	if !s.isL {
		if r, ok := m[s.atom]; ok {
			return r
		}
		return s
	}
	out := &Sexp{isL: true}
	for _, x := range s.list {
		out.list = append(out.list, sexpSubst(x, m))
	}
	return out
}

func atomS(s string) *Sexp { return &Sexp{atom: s} }
func listS(xs ...*Sexp) *Sexp {
	return &Sexp{isL: true, list: xs}
}

// stripPattern removes (! body :pattern ...) annotations.
func stripPattern(s *Sexp) *Sexp {
	if s.isL && len(s.list) > 1 && s.list[0].atom == "!" {
		return s.list[1]
	}
	return s
}

// lemmaObligations generates the proof obligations of a lemma.
func lemmaObligations(it *Item, prefix string) ([]*Oblig, error) {
	f := it.form
	mkO := func(suffix, text string) *Oblig {
		return &Oblig{Name: "lemma " + it.th + "." + it.name + suffix, Kind: "lemma", raw: prefix + text + "(check-sat)\n"}
	}
	if !it.by.isL {
		switch it.by.atom {
		case "lean":
			return []*Oblig{{Name: "lemma " + it.th + "." + it.name, Kind: "lemma", lean: it.th, leanStmt: leanTheorem(it)}}, nil
		case "smt":
			return []*Oblig{mkO("", "(assert (not "+f.String()+"))\n")}, nil
		}
		return nil, fmt.Errorf("lemma %s: unknown proof method %s", it.name, it.by)
	}
	if f.list[0].atom != "forall" {
		return nil, fmt.Errorf("lemma %s: not a forall", it.name)
	}
	vars := f.list[1].list
	body := stripPattern(f.list[2])
	var pats []*Sexp // kept on the induction hypothesis
	if len(f.list[2].list) > 2 && f.list[2].list[0].atom == "!" {
		pats = f.list[2].list[2:]
	}
	iv := it.by.list[1].atom
	var ivs *Sexp
	var others []*Sexp
	for _, v := range vars {
		if v.list[0].atom == iv {
			ivs = v.list[1]
		} else {
			others = append(others, v)
		}
	}
	if ivs == nil {
		return nil, fmt.Errorf("lemma %s: no induction variable %s", it.name, iv)
	}
	decl := func(n string, s string) string { return fmt.Sprintf("(declare-const %s %s)\n", n, s) }
	sub := map[string]*Sexp{}
	ds := ""
	for _, v := range others {
		n := "sk_" + v.list[0].atom
		sub[v.list[0].atom] = atomS(n)
		ds += decl(n, v.list[1].String())
	}
	ih := func(at *Sexp) string {
		b := sexpSubst(body, map[string]*Sexp{iv: at})
		if len(others) == 0 {
			return "(assert " + b.String() + ")\n"
		}
		return "(assert " + listS(atomS("forall"), listS(others...), b).String() + ")\n"
	}
	switch it.by.list[0].atom {
	case "induct":
		var obs []*Oblig
		for _, c := range dataTypes[ivs.String()] {
			txt := ds
			args := []*Sexp{atomS(c.name)}
			for i, fs := range c.sorts {
				n := fmt.Sprintf("ind_%s", c.fields[i])
				txt += decl(n, fs)
				args = append(args, atomS(n))
				if fs == ivs.String() {
					txt += ih(atomS(n))
				}
			}
			at := listS(args...)
			if len(c.sorts) == 0 {
				at = atomS(c.name)
			}
			m := map[string]*Sexp{iv: at}
			for k, v := range sub {
				m[k] = v
			}
			txt += "(assert (not " + sexpSubst(body, m).String() + "))\n"
			obs = append(obs, mkO("/"+c.name, txt))
		}
		return obs, nil
	case "nat":
		// strong induction; the claim is proved for iv >= lo given it for all smaller iv >= lo
		lo := "0"
		if len(it.by.list) > 2 {
			lo = sexpSubst(it.by.list[2], sub).String()
		}
		txt := ds + decl("ind_n", "Int") + "(assert (>= ind_n " + lo + "))\n"
		b := sexpSubst(body, map[string]*Sexp{iv: atomS("ind_m")})
		guard := listS(atomS("=>"), listS(atomS("and"), listS(atomS("<="), atomS(lo), atomS("ind_m")), listS(atomS("<"), atomS("ind_m"), atomS("ind_n"))), b)
		if len(it.by.list) > 2 {
			// lo mentions the other variables: keep them fixed in the hypothesis
			b = sexpSubst(b, sub)
			guard = listS(atomS("=>"), listS(atomS("and"), listS(atomS("<="), atomS(lo), atomS("ind_m")), listS(atomS("<"), atomS("ind_m"), atomS("ind_n"))), b)
			txt += "(assert (forall ((ind_m Int)) " + guard.String() + "))\n"
		} else {
			qv := append([]*Sexp{listS(atomS("ind_m"), atomS("Int"))}, others...)
			if pats != nil {
				ann := []*Sexp{atomS("!"), guard}
				for _, p := range pats {
					ann = append(ann, sexpSubst(p, map[string]*Sexp{iv: atomS("ind_m")}))
				}
				guard = listS(ann...)
			}
			txt += "(assert " + listS(atomS("forall"), listS(qv...), guard).String() + ")\n"
		}
		m := map[string]*Sexp{iv: atomS("ind_n")}
		for k, v := range sub {
			m[k] = v
		}
		txt += "(assert (not " + sexpSubst(body, m).String() + "))\n"
		obs := []*Oblig{mkO("/step", txt)}
		// below lo the body must hold by its own guard
		txt2 := ds + decl("ind_n", "Int") + "(assert (< ind_n " + lo + "))\n(assert (not " + sexpSubst(body, m).String() + "))\n"
		obs = append(obs, mkO("/below", txt2))
		return obs, nil
	}
	return nil, fmt.Errorf("lemma %s: unknown proof method %s", it.name, it.by)
}
