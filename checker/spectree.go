package main

import (
	"fmt"
	"os"

	"golang.org/x/tools/go/ssa"
)

// A specification as a decision tree: at each node exactly one alternative applies (told apart by disc); the operation succeeds
// exactly when the conditions of every alternative on the way to a leaf hold, with the value of the leaf.
type specAlt struct {
	name  string
	disc  []*Term
	conds []*Term
	names []string
	next  func() []*specAlt // nil at a leaf
	vals  []*Term
}

// specCheck compares the outcomes of fn with the tree. okCond is the success condition of an outcome; same compares the
// results with the values of the leaf reached.
func specCheck(c *Ctx, fn *ssa.Function, outs []Outcome, root []*specAlt, okCond func(Outcome) *Term, same func(st *State, o Outcome, leaf *specAlt) (string, bool)) {
	for _, b := range splitBool(outs, okCond) {
		if b.val {
			c.specAccept(fn, b, b.st, root, "", same)
		} else {
			c.specReject(fn, b, b.st, root, "")
		}
	}
}

func (c *Ctx) specAccept(fn *ssa.Function, b boolCase, st *State, alts []*specAlt, path string, same func(*State, Outcome, *specAlt) (string, bool)) {
	var none []*Term
	for _, a := range alts {
		none = append(none, bnot(mkAnd(a.disc...)))
	}
	if os.Getenv("MCHECK_DEBUG") == "spec" && !contradictory(st, none...) {
		println("SPEC", path)
		for _, a := range alts {
			for _, d := range a.disc {
				println("  disc", a.name, d.str(10), "=>", st.eval2(d).str(5), holds(st, d), refuted(st, 0))
				for _, f := range st.sortedFacts() {
					if f.op == "eq" && d.op == "eq" && (f.a[1] == d.a[1] || f.a[0] == d.a[0] || f.a[1] == d.a[0] || f.a[0] == d.a[1]) {
						println("     fact", st.facts[f], f.str(10), f.a[0].id, f.a[1].id, d.a[0].id, d.a[1].id)
					}
				}
			}
		}
	}
	if !c.oblige("accepting paths fall under a case of the specification", short(fn)+path, atPos(b.o), contradictory(st, none...), "success outside every specified case: %s", pathFacts(st)) {
		return
	}
	for _, a := range alts {
		s := st.clone()
		possible := true
		for _, d := range a.disc {
			if s.eval2(d) == tFalse || !s.assume(d) {
				possible = false
				break
			}
		}
		if !possible || refuted(s, 0) {
			continue
		}
		p := path
		if a.name != "" {
			p += " [" + a.name + "]"
		}
		for i, cond := range a.conds {
			n := fmt.Sprint("condition ", i)
			if i < len(a.names) {
				n = a.names[i]
			}
			c.oblige("success implies: "+n, short(fn)+p, atPos(b.o), holds(s, cond), "success without %s (%s)", n, clip(cond.str(6), 300))
			s.assume(cond)
		}
		if a.next != nil {
			c.specAccept(fn, b, s, a.next(), p, same)
			continue
		}
		if same != nil {
			d, ok := same(s, b.o, a)
			c.oblige("success returns the specified result", short(fn)+p, atPos(b.o), ok, "%s", d)
		}
	}
}

func (c *Ctx) specReject(fn *ssa.Function, b boolCase, st *State, alts []*specAlt, path string) {
	for _, a := range alts {
		s := st.clone()
		possible := true
		for _, d := range append(append([]*Term{}, a.disc...), a.conds...) {
			if s.eval2(d) == tFalse || !s.assume(d) {
				possible = false
				break
			}
		}
		if !possible || refuted(s, 0) {
			c.oblige("failure implies a violated condition", short(fn)+path+" ["+a.name+"]", atPos(b.o), true, "")
			continue
		}
		p := path
		if a.name != "" {
			p += " [" + a.name + "]"
		}
		if a.next != nil {
			c.specReject(fn, b, s, a.next(), p)
			continue
		}
		c.oblige("failure implies a violated condition", short(fn)+p, atPos(b.o), false, "fails although everything required holds: %s", pathFacts(b.st))
	}
}
