package main

import (
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// Lemmas proved in Lean: the SMT text of the lemma is translated to Lean and
// checked, in the same run, against the proof named NAME_proof in
// lean/<theory>.lean (whose definitions interpret the theory's functions).

func leanSort(s *Sexp) string {
	if !s.isL {
		switch s.atom {
		case "Int":
			return "ℤ"
		case "Real":
			return "ℝ"
		case "Bool":
			return "Prop"
		}
		panic(specErr("no Lean sort for " + s.atom))
	}
	if s.list[0].atom == "Array" {
		return "(" + leanSort(s.list[1]) + " → " + leanSort(s.list[2]) + ")"
	}
	panic(specErr("no Lean sort for " + s.String()))
}

func leanExpr(s *Sexp) string {
	if !s.isL {
		a := s.atom
		if a[0] >= '0' && a[0] <= '9' {
			if strings.Contains(a, ".") {
				return "(" + strings.TrimSuffix(a, ".0") + " : ℝ)"
			}
			return "(" + a + " : ℤ)"
		}
		switch a {
		case "true":
			return "True"
		case "false":
			return "False"
		}
		return a
	}
	h := s.list[0].atom
	args := s.list[1:]
	switch h {
	case "!":
		return leanExpr(args[0])
	case "forall", "exists":
		q := "∀"
		if h == "exists" {
			q = "∃"
		}
		b := ""
		for _, v := range args[0].list {
			b += " (" + v.list[0].atom + " : " + leanSort(v.list[1]) + ")"
		}
		return "(" + q + b + ", " + leanExpr(args[1]) + ")"
	case "let":
		r := leanExpr(args[1])
		for i := len(args[0].list) - 1; i >= 0; i-- {
			v := args[0].list[i]
			r = "(let " + v.list[0].atom + " := " + leanExpr(v.list[1]) + "; " + r + ")"
		}
		return r
	}
	xs := make([]string, len(args))
	for i, a := range args {
		xs[i] = leanExpr(a)
	}
	ops := map[string]string{"and": " ∧ ", "or": " ∨ ", "+": " + ", "*": " * ", "/": " / ", "=>": " → "}
	if op, ok := ops[h]; ok {
		return "(" + strings.Join(xs, op) + ")"
	}
	rel := map[string]string{"=": " = ", "<": " < ", "<=": " ≤ ", ">": " > ", ">=": " ≥ "}
	if op, ok := rel[h]; ok {
		var cs []string
		for i := 0; i+1 < len(xs); i++ {
			cs = append(cs, "("+xs[i]+op+xs[i+1]+")")
		}
		return "(" + strings.Join(cs, " ∧ ") + ")"
	}
	switch h {
	case "-":
		if len(xs) == 1 {
			return "(-" + xs[0] + ")"
		}
		return "(" + strings.Join(xs, " - ") + ")"
	case "not":
		return "(¬" + xs[0] + ")"
	case "ite":
		return "(if " + xs[0] + " then " + xs[1] + " else " + xs[2] + ")"
	case "select":
		return "(" + xs[0] + " " + xs[1] + ")"
	case "store":
		return "(Function.update " + strings.Join(xs, " ") + ")"
	case "to_real":
		return "((" + xs[0] + " : ℤ) : ℝ)"
	}
	return "(" + h + " " + strings.Join(xs, " ") + ")"
}

func leanTheorem(it *Item) string {
	return fmt.Sprintf("theorem ax_%s : %s := %s_proof\n", it.name, leanExpr(it.form), it.name)
}

var leanMu sync.Mutex

// solveLean decides the Lean lemmas of one theory in one run of Lean.
func solveLean(th string, obs []*Oblig) {
	t0 := time.Now()
	src, err := os.ReadFile(filepath.Join(verifDir, "lean", th+".lean"))
	fail := func(m string) {
		for _, o := range obs {
			o.Status, o.Backend, o.Model = "unknown", "lean", m
		}
	}
	if err != nil {
		fail(err.Error())
		return
	}
	text := string(src) + "\n\n-- statements generated from contracts\n"
	for _, o := range obs {
		text += o.leanStmt
	}
	for _, o := range obs {
		text += "#print axioms ax_" + o.Name[strings.LastIndex(o.Name, ".")+1:] + "\n"
	}
	for _, bad := range []string{"sorry", "\naxiom ", "native_decide"} {
		if strings.Contains(string(src), bad) {
			fail("the Lean file contains " + bad)
			return
		}
	}
	tmp, err := os.MkdirTemp("", "gvclean")
	if err != nil {
		fail(err.Error())
		return
	}
	defer os.RemoveAll(tmp)
	f := filepath.Join(tmp, th+".lean")
	os.WriteFile(f, []byte(text), 0644)
	bin := "lean"
	if _, err := exec.LookPath(bin); err != nil {
		bin = leanBin
	}
	ctx, cancel := context.WithTimeout(context.Background(), 400*time.Second)
	defer cancel()
	out, err := exec.CommandContext(ctx, bin, f).CombinedOutput()
	s := string(out)
	if err != nil || strings.Contains(s, "error") || strings.Contains(s, "sorryAx") {
		if os.Getenv("GVC_LEAN") != "" {
			fmt.Fprintln(os.Stderr, s)
		}
		fail("lean: " + tail(s, 3000))
		return
	}
	for _, o := range obs {
		n := "ax_" + o.Name[strings.LastIndex(o.Name, ".")+1:]
		i := strings.Index(s, "'"+n+"' depends on axioms: [")
		ok := strings.Contains(s, "'"+n+"' does not depend on any axioms")
		if i >= 0 {
			l := s[i:]
			l = l[strings.Index(l, "[")+1 : strings.Index(l, "]")]
			ok = true
			for _, a := range strings.Split(l, ",") {
				switch strings.TrimSpace(a) {
				case "propext", "Classical.choice", "Quot.sound":
				default:
					ok = false
				}
			}
		}
		o.Backend, o.Time = "lean", time.Since(t0).Seconds()/float64(len(obs))
		if ok {
			o.Status = "unsat"
		} else {
			o.Status, o.Model = "unknown", "axioms of "+n+" not as expected"
		}
	}
	leanMu.Lock()
	solverTime["lean"] += time.Since(t0).Seconds()
	leanMu.Unlock()
}
