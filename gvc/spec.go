package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"
)

// ---------- contract language: lexer, parser ----------

type Expr struct {
	op   string // ident num call field index update forall exists ite let old bin un lit
	name string
	args []*Expr
	vars []qvar
	pats [][]*Expr
	pos  string
}
type qvar struct{ name, typ string }

type lexer struct {
	toks []string
	i    int
	src  string
}

func lex(s string) []string {
	var out []string
	rs := []rune(s)
	i := 0
	for i < len(rs) {
		c := rs[i]
		switch {
		case unicode.IsSpace(c):
			i++
		case unicode.IsLetter(c) || c == '_' || c == '$':
			j := i
			for j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j]) || rs[j] == '_' || rs[j] == '$') {
				j++
			}
			out = append(out, string(rs[i:j]))
			i = j
		case unicode.IsDigit(c):
			j := i
			for j < len(rs) && (unicode.IsDigit(rs[j]) || (rs[j] == '.' && j+1 < len(rs) && unicode.IsDigit(rs[j+1]))) {
				j++
			}
			out = append(out, string(rs[i:j]))
			i = j
		case c == '"':
			j := i + 1
			for j < len(rs) && rs[j] != '"' {
				j++
			}
			out = append(out, string(rs[i:j+1]))
			i = j + 1
		default:
			ops := []string{"<==>", "==>", "::", ":=", "==", "!=", "<=", ">=", "&&", "||", ".."}
			done := false
			for _, o := range ops {
				if strings.HasPrefix(string(rs[i:min(i+4, len(rs))]), o) {
					out = append(out, o)
					i += len(o)
					done = true
					break
				}
			}
			if !done {
				out = append(out, string(c))
				i++
			}
		}
	}
	return out
}

type specErr string

func (l *lexer) peek() string {
	if l.i < len(l.toks) {
		return l.toks[l.i]
	}
	return ""
}
func (l *lexer) next() string { t := l.peek(); l.i++; return t }
func (l *lexer) accept(s string) bool {
	if l.peek() == s {
		l.i++
		return true
	}
	return false
}
func (l *lexer) expect(s string) {
	if !l.accept(s) {
		panic(specErr(fmt.Sprintf("expected %q got %q in: %s", s, l.peek(), l.src)))
	}
}

func parseExpr(s string) *Expr {
	l := &lexer{toks: lex(s), src: s}
	e := l.expr()
	if l.i < len(l.toks) {
		panic(specErr(fmt.Sprintf("trailing %q in: %s", l.peek(), s)))
	}
	return e
}

func (l *lexer) expr() *Expr { return l.iff() }

func (l *lexer) iff() *Expr {
	a := l.imp()
	for l.accept("<==>") {
		a = &Expr{op: "bin", name: "<==>", args: []*Expr{a, l.imp()}}
	}
	return a
}
func (l *lexer) imp() *Expr {
	a := l.or()
	if l.accept("==>") {
		return &Expr{op: "bin", name: "==>", args: []*Expr{a, l.imp()}}
	}
	return a
}
func (l *lexer) or() *Expr {
	a := l.and()
	for l.accept("||") {
		a = &Expr{op: "bin", name: "||", args: []*Expr{a, l.and()}}
	}
	return a
}
func (l *lexer) and() *Expr {
	a := l.cmp()
	for l.accept("&&") {
		a = &Expr{op: "bin", name: "&&", args: []*Expr{a, l.cmp()}}
	}
	return a
}
func (l *lexer) cmp() *Expr {
	a := l.sum()
	var res *Expr
	for {
		t := l.peek()
		switch t {
		case "<", "<=", ">", ">=", "==", "!=":
			l.next()
			b := l.sum()
			c := &Expr{op: "bin", name: t, args: []*Expr{a, b}}
			if res == nil {
				res = c
			} else {
				res = &Expr{op: "bin", name: "&&", args: []*Expr{res, c}}
			}
			a = b
			continue
		}
		break
	}
	if res != nil {
		return res
	}
	return a
}
func (l *lexer) sum() *Expr {
	a := l.prod()
	for {
		t := l.peek()
		if t == "+" || t == "-" {
			l.next()
			a = &Expr{op: "bin", name: t, args: []*Expr{a, l.prod()}}
		} else {
			return a
		}
	}
}
func (l *lexer) prod() *Expr {
	a := l.unary()
	for {
		t := l.peek()
		if t == "*" || t == "/" || t == "%" {
			l.next()
			a = &Expr{op: "bin", name: t, args: []*Expr{a, l.unary()}}
		} else {
			return a
		}
	}
}
func (l *lexer) unary() *Expr {
	switch l.peek() {
	case "!":
		l.next()
		return &Expr{op: "un", name: "!", args: []*Expr{l.unary()}}
	case "-":
		l.next()
		return &Expr{op: "un", name: "-", args: []*Expr{l.unary()}}
	}
	return l.postfix(l.primary())
}
func (l *lexer) postfix(e *Expr) *Expr {
	for {
		switch l.peek() {
		case ".":
			l.next()
			f := l.next()
			e = &Expr{op: "field", name: f, args: []*Expr{e}}
		case "[":
			l.next()
			i := l.expr()
			if l.accept(":=") {
				v := l.expr()
				l.expect("]")
				e = &Expr{op: "update", args: []*Expr{e, i, v}}
			} else {
				l.expect("]")
				e = &Expr{op: "index", args: []*Expr{e, i}}
			}
		default:
			return e
		}
	}
}

func (l *lexer) typ() string {
	t := l.next()
	switch t {
	case "*":
		return "*" + l.typ()
	case "[":
		l.expect("]")
		return "[]" + l.typ()
	case "(":
		s := "("
		depth := 1
		for depth > 0 {
			x := l.next()
			if x == "(" {
				depth++
			}
			if x == ")" {
				depth--
			}
			if x == "" {
				panic(specErr("unclosed type in " + l.src))
			}
			if s[len(s)-1] != '(' && x != ")" {
				s += " "
			}
			s += x
		}
		return s
	}
	if l.peek() == "." {
		l.next()
		t += "." + l.next()
	}
	if l.peek() == "[" {
		l.next()
		t += "[" + l.next() + "]"
		l.expect("]")
	}
	return t
}

func (l *lexer) primary() *Expr {
	t := l.next()
	switch {
	case t == "(":
		e := l.expr()
		l.expect(")")
		return e
	case t == "forall" || t == "exists":
		var vs []qvar
		for {
			n := l.next()
			ty := l.typ()
			vs = append(vs, qvar{n, ty})
			if !l.accept(",") {
				break
			}
		}
		l.expect("::")
		var pats [][]*Expr
		for l.peek() == "{" {
			l.next()
			var p []*Expr
			for {
				p = append(p, l.expr())
				if !l.accept(",") {
					break
				}
			}
			l.expect("}")
			pats = append(pats, p)
		}
		b := l.expr()
		return &Expr{op: t, vars: vs, args: []*Expr{b}, pats: pats}
	case t == "let":
		n := l.next()
		l.expect(":=")
		v := l.expr()
		l.expect("in")
		b := l.expr()
		return &Expr{op: "let", name: n, args: []*Expr{v, b}}
	case t == "if":
		c := l.expr()
		l.expect("then")
		a := l.expr()
		l.expect("else")
		b := l.expr()
		return &Expr{op: "ite", args: []*Expr{c, a, b}}
	case t == "old":
		l.expect("(")
		e := l.expr()
		l.expect(")")
		return &Expr{op: "old", args: []*Expr{e}}
	case t == "":
		panic(specErr("unexpected end in: " + l.src))
	case unicode.IsDigit([]rune(t)[0]):
		return &Expr{op: "num", name: t}
	case t[0] == '"':
		return &Expr{op: "str", name: t[1 : len(t)-1]}
	case unicode.IsLetter([]rune(t)[0]) || t[0] == '_' || t[0] == '$':
		if l.peek() == "(" {
			l.next()
			e := &Expr{op: "call", name: t}
			if !l.accept(")") {
				for {
					e.args = append(e.args, l.expr())
					if !l.accept(",") {
						break
					}
				}
				l.expect(")")
			}
			return e
		}
		return &Expr{op: "ident", name: t}
	}
	panic(specErr(fmt.Sprintf("unexpected %q in: %s", t, l.src)))
}

// ---------- contract files ----------

type Clause struct {
	kind string
	name string // label
	text string
	e    *Expr
	e2   *Expr
	mode string
	file string
	line int
}

type Contract struct {
	fn       string
	params   []string
	results  []string
	clauses  []*Clause
	uses     []string
	trusted  bool
	pure     bool
	opts     map[string]string
	file     string
	line     int
	used     bool
	inlineOK bool
}

func (c *Contract) get(kind string) []*Clause {
	var out []*Clause
	for _, x := range c.clauses {
		if x.kind == kind {
			out = append(out, x)
		}
	}
	return out
}

type Pred struct {
	name   string
	params []string
	body   *Expr
	text   string
}

type GhostField struct{ typ, name, sort string }

type PropSpec struct {
	id    string
	funcs []string // functions to verify
	lean  []string
	opts  map[string]string
}

type Specs struct {
	contracts map[string]*Contract
	preds     map[string]*Pred
	ghosts    map[string]GhostField // "type.name"
	owned     map[string]*Owned
	guards    map[string][]string // "type" -> fields guarded; mux field
	guardMux  map[string]string
	theories  map[string]*Theory
	props     map[string]*PropSpec
	immutable map[string]bool
	lockInv   map[string]*Expr
	lockEntry map[string]int
	globals   []*GlobalInv
}

// GlobalInv is an invariant over package-level variables: established by the
// package's init, kept by every function under contract of the package.
type GlobalInv struct {
	pkg  string
	e    *Expr
	text string
}

type Owned struct {
	typ    string
	sort   string
	fields []string // field order after address in the Node constructor
	kids   map[string]bool
}

var specs = &Specs{contracts: map[string]*Contract{}, preds: map[string]*Pred{}, ghosts: map[string]GhostField{}, owned: map[string]*Owned{}, guards: map[string][]string{}, guardMux: map[string]string{}, theories: map[string]*Theory{}, props: map[string]*PropSpec{}, immutable: map[string]bool{}, lockInv: map[string]*Expr{}, lockEntry: map[string]int{}}

var clauseKw = map[string]bool{"requires": true, "ensures": true, "modifies": true, "ghost": true, "inv": true, "uses": true, "trusted": true, "pure": true, "opt": true, "exsures": true, "owns": true, "produces": true, "borrows": true, "consumes": true, "assume": true, "fresh": true, "lemma": true, "candidate": true, "sets": true, "decreases": true, "lockreq": true, "ovfcond": true}
var topKw = map[string]bool{"func": true, "pred": true, "ghostfield": true, "owned": true, "guarded": true, "property": true, "theory": true, "axiomfile": true, "immutable": true, "globalinv": true, "lockinv": true, "lockentry": true}

func loadSpecs(dir string) error {
	files, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(files)
	for _, f := range files {
		if err := loadSpecFile(f); err != nil {
			return err
		}
	}
	files, _ = filepath.Glob(filepath.Join(dir, "*.smt"))
	sort.Strings(files)
	for _, f := range files {
		if err := loadTheory(f); err != nil {
			return err
		}
	}
	return nil
}

func loadSpecFile(file string) (err error) {
	data, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	line := 0
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specErr); ok {
				err = fmt.Errorf("%s:%d: %s", file, line, string(s))
				return
			}
			panic(r)
		}
	}()
	var cur *Contract
	lines := strings.Split(string(data), "\n")
	i := 0
	for i < len(lines) {
		line = i + 1
		raw := lines[i]
		if k := strings.Index(raw, "#"); k >= 0 {
			raw = raw[:k]
		}
		txt := strings.TrimSpace(raw)
		i++
		if txt == "" {
			continue
		}
		word := strings.Fields(txt)[0]
		// gather continuation lines
		for i < len(lines) {
			r2 := lines[i]
			if k := strings.Index(r2, "#"); k >= 0 {
				r2 = r2[:k]
			}
			t2 := strings.TrimSpace(r2)
			if t2 == "" {
				i++
				if strings.TrimSpace(lines[i-1]) == "" {
					// blank line: only a separator if next starts with a keyword; keep going
				}
				continue
			}
			w2 := strings.Fields(t2)[0]
			if clauseKw[strings.SplitN(w2, "(", 2)[0]] && !strings.HasPrefix(t2, "old(") || topKw[w2] {
				break
			}
			txt += " " + t2
			i++
		}
		rest := strings.TrimSpace(strings.TrimPrefix(txt, word))
		switch {
		case word == "func":
			cur = parseFuncHeader(rest)
			cur.file, cur.line = file, line
			if specs.contracts[cur.fn] != nil {
				panic(specErr("duplicate contract " + cur.fn))
			}
			specs.contracts[cur.fn] = cur
		case word == "pred":
			k := strings.Index(rest, "(")
			k2 := strings.Index(rest, ")")
			name := strings.TrimSpace(rest[:k])
			var ps []string
			for _, p := range strings.Split(rest[k+1:k2], ",") {
				if p = strings.TrimSpace(p); p != "" {
					ps = append(ps, p)
				}
			}
			body := strings.TrimSpace(rest[k2+1:])
			body = strings.TrimSpace(strings.TrimPrefix(body, "="))
			specs.preds[name] = &Pred{name: name, params: ps, body: parseExpr(body), text: body}
		case word == "ghostfield":
			fs := strings.Fields(rest)
			srt := strings.Join(fs[2:], " ")
			switch srt {
			case "int":
				srt = sInt
			case "real":
				srt = sReal
			case "bool":
				srt = sBool
			}
			specs.ghosts[fs[0]+"."+fs[1]] = GhostField{fs[0], fs[1], srt}
		case word == "guarded":
			fs := strings.Fields(rest)
			specs.guardMux[fs[0]] = fs[1]
			specs.guards[fs[0]] = fs[2:]
		case word == "globalinv":
			fs := strings.Fields(rest)
			t := strings.TrimSpace(strings.TrimPrefix(rest, fs[0]))
			specs.globals = append(specs.globals, &GlobalInv{pkg: fs[0], e: parseExpr(t), text: t})
		case word == "lockinv":
			fs := strings.Fields(rest)
			specs.lockInv[fs[0]] = parseExpr(strings.TrimSpace(strings.TrimPrefix(rest, fs[0])))
		case word == "lockentry":
			fs := strings.Fields(rest)
			specs.lockEntry[fs[0]] = map[string]int{"R": lockR, "W": lockW}[fs[1]]
		case word == "immutable":
			for _, f := range strings.Fields(rest) {
				specs.immutable[f] = true
			}
		case word == "owned":
			fs := strings.Fields(rest)
			o := &Owned{typ: fs[0], sort: fs[1], kids: map[string]bool{}}
			for _, f := range fs[2:] {
				if strings.HasPrefix(f, "*") {
					f = f[1:]
					o.kids[f] = true
				}
				o.fields = append(o.fields, f)
			}
			specs.owned[fs[0]] = o
		case word == "property":
			fs := strings.Fields(rest)
			ps := specs.props[fs[0]]
			if ps == nil {
				ps = &PropSpec{id: fs[0], opts: map[string]string{}}
				specs.props[fs[0]] = ps
			}
			for _, f := range fs[1:] {
				if strings.HasPrefix(f, "lean:") {
					ps.lean = append(ps.lean, f[5:])
				} else if k := strings.Index(f, "="); k > 0 {
					ps.opts[f[:k]] = f[k+1:]
				} else {
					ps.funcs = append(ps.funcs, f)
				}
			}
			cur = nil
		default:
			kw := strings.SplitN(word, "(", 2)[0]
			if !clauseKw[kw] || cur == nil {
				panic(specErr("unknown keyword " + word))
			}
			cl := &Clause{kind: word, text: rest, file: file, line: line}
			switch word {
			case "trusted":
				cur.trusted = true
				continue
			case "pure":
				cur.pure = true
				continue
			case "uses":
				cur.uses = append(cur.uses, strings.Fields(rest)...)
				continue
			case "opt":
				if cur.opts == nil {
					cur.opts = map[string]string{}
				}
				for _, f := range strings.Fields(rest) {
					kv := strings.SplitN(f, "=", 2)
					if len(kv) == 1 {
						kv = append(kv, "1")
					}
					cur.opts[kv[0]] = kv[1]
				}
				continue
			case "ghost", "sets":
				kv := splitTop(rest, ":=")
				if len(kv) != 2 {
					panic(specErr("ghost needs := : " + rest))
				}
				cl.e = parseExpr(kv[0])
				cl.e2 = parseExpr(kv[1])
			case "modifies", "fresh":
				cl.text = rest
			default:
				// optional label:  "ensures [label] expr"
				if strings.HasPrefix(rest, "[") {
					k := strings.Index(rest, "]")
					cl.name = rest[1:k]
					rest = strings.TrimSpace(rest[k+1:])
				}
				cl.e = parseExpr(rest)
			}
			cur.clauses = append(cur.clauses, cl)
		}
	}
	return nil
}

func splitTop(s, sep string) []string {
	depth := 0
	for i := 0; i+len(sep) <= len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			depth++
		case ')', ']', '}':
			depth--
		}
		if depth == 0 && s[i:i+len(sep)] == sep {
			return []string{s[:i], s[i+len(sep):]}
		}
	}
	return []string{s}
}

func splitCommas(s string) []string {
	var out []string
	depth := 0
	cur := ""
	for _, c := range s {
		switch c {
		case '(', '[', '{':
			depth++
		case ')', ']', '}':
			depth--
		}
		if c == ',' && depth == 0 {
			out = append(out, strings.TrimSpace(cur))
			cur = ""
			continue
		}
		cur += string(c)
	}
	if strings.TrimSpace(cur) != "" {
		out = append(out, strings.TrimSpace(cur))
	}
	return out
}

// "(*minmax.Max).Push(m, x) (err)"
func parseFuncHeader(s string) *Contract {
	// find the parameter list: last "(" group(s)
	c := &Contract{opts: map[string]string{}}
	s = strings.TrimSpace(s)
	// results
	var groups []string
	for strings.HasSuffix(s, ")") {
		depth := 0
		i := len(s) - 1
		for ; i >= 0; i-- {
			if s[i] == ')' {
				depth++
			}
			if s[i] == '(' {
				depth--
				if depth == 0 {
					break
				}
			}
		}
		groups = append([]string{s[i+1 : len(s)-1]}, groups...)
		s = strings.TrimSpace(s[:i])
		if len(groups) == 2 {
			break
		}
		if i > 0 && s != "" && !strings.HasSuffix(s, ")") {
			break
		}
	}
	if len(groups) == 0 {
		panic(specErr("bad func header " + s))
	}
	split := func(g string) []string {
		var o []string
		for _, x := range strings.Split(g, ",") {
			if x = strings.TrimSpace(x); x != "" {
				o = append(o, x)
			}
		}
		return o
	}
	c.params = split(groups[0])
	if len(groups) > 1 {
		c.results = split(groups[1])
	}
	c.fn = s
	return c
}
