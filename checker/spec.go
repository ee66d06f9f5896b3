package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// analysis runs fn on symbolic arguments, reporting an undecided analysis as a failed obligation.
func (c *Ctx) analyse(e *Engine, fn *ssa.Function) (st *State, args []*Term, outs []Outcome, ok bool) {
	return c.analyseWith(e, fn, nil)
}

func (c *Ctx) analyseWith(e *Engine, fn *ssa.Function, prep func(st *State, args []*Term) []*Term) (st *State, args []*Term, outs []Outcome, ok bool) {
	defer func() {
		c.fnSeen(e)
		if r := recover(); r != nil {
			if a, isA := r.(abortError); isA {
				c.oblige("decided", short(fn), fn.Pos(), false, "the analysis gave up: %s", a.msg)
				ok = false
				return
			}
			panic(r)
		}
	}()
	e.stack, e.frames, e.pinned = nil, nil, nil
	st, args = e.rootState(fn)
	if prep != nil {
		args = prep(st, args)
	}
	entry := st.clone()
	outs = e.call(st, fn, args, nil)
	c.paths += len(outs)
	return entry, args, outs, true
}

func short(fn *ssa.Function) string {
	return trimMod(fn.String())
}

func trimMod(s string) string {
	for {
		i := indexOf(s, modPath+"/")
		if i < 0 {
			return s
		}
		s = s[:i] + s[i+len(modPath)+1:]
	}
}

func indexOf(s, t string) int {
	for i := 0; i+len(t) <= len(s); i++ {
		if s[i:i+len(t)] == t {
			return i
		}
	}
	return -1
}

func atPos(o Outcome) token.Pos {
	if o.at == nil {
		return token.NoPos
	}
	return o.at.Pos()
}

// result i of an outcome.
func (o Outcome) r(i int) *Term {
	if o.res == nil {
		return nil
	}
	if o.res.op == "tuple" {
		return o.res.a[i]
	}
	return o.res
}

type boolCase struct {
	st  *State
	val bool
	o   Outcome
}

// splitBool separates the outcomes by the truth of cond(outcome).
func splitBool(outs []Outcome, cond func(o Outcome) *Term) []boolCase {
	var r []boolCase
	for _, o := range outs {
		if o.panic {
			continue
		}
		t := cond(o)
		switch o.st.eval(t) {
		case tTrue:
			r = append(r, boolCase{o.st, true, o})
			continue
		case tFalse:
			r = append(r, boolCase{o.st, false, o})
			continue
		}
		s1, s2 := o.st.clone(), o.st.clone()
		if s1.assume(t) {
			r = append(r, boolCase{s1, true, o})
		}
		if s2.assume(bnot(t)) {
			r = append(r, boolCase{s2, false, o})
		}
	}
	return r
}

// holds: every reading of the disjunctive facts makes c true.
func holds(s *State, c *Term) bool {
	if s.eval(c) == tTrue {
		return true
	}
	n := s.clone()
	if !n.assume(bnot(c)) {
		return true
	}
	return refuted(n, 0)
}

// refuted: the facts of s are contradictory.
func refuted(s *State, d int) bool {
	if s.dead {
		return true
	}
	// re-evaluate the facts among themselves
	for _, f := range s.sortedFacts() {
		v := s.facts[f]
		if f.op == "or" {
			continue
		}
		n := s.clone()
		delete(n.facts, f)
		n.entC = map[*Term]int8{}
		switch n.eval2(f) {
		case tTrue:
			if !v {
				return true
			}
		case tFalse:
			if v {
				return true
			}
		}
	}
	if s.elementClash() || s.forallClash() || s.os2ipClash() {
		return true
	}
	if d > 10 {
		return false
	}
	for _, f := range s.sortedFacts() {
		if f.op != "or" || !s.facts[f] {
			continue
		}
		all := true
		for _, alt := range f.a {
			n := s.clone()
			delete(n.facts, f)
			n.entC = map[*Term]int8{}
			if !n.assumeDeep(alt) {
				continue
			}
			if !refuted(n, d+1) {
				all = false
				break
			}
		}
		if all {
			return true
		}
	}
	return false
}

// elementClash: a fact about one element contradicts an equality of sequences.
func (s *State) elementClash() bool {
	for _, eq := range s.sortedFacts() {
		if eq.op != "eq" || eq.s != "seq" || !s.facts[eq] {
			continue
		}
		for side := 0; side < 2; side++ {
			x, y := eq.a[side], eq.a[1-side]
			base, lo := x, tZero
			if x.op == "sub" {
				base, lo = x.a[0], x.a[1]
			}
			for _, f := range s.sortedFacts() {
				if f.op != "eq0" && f.op != "ge0" || !hasTerm(f, base) {
					continue
				}
				var sels []*Term
				subterms(f, func(t *Term) {
					if t.op == "sel" && t.a[0] == base {
						sels = append(sels, t)
					}
				})
				for _, sel := range sels {
					i := iSub(sel.a[1], lo)
					if s.eval(mkGe0(i)) != tTrue || s.eval(mkGe0(iSub(iSub(seqLen(x), i), tOne))) != tTrue {
						continue
					}
					g := substOne(f, sel, seqSel(y, i))
					if v := s.eval2(g); (v == tTrue || v == tFalse) && (v == tTrue) != s.facts[f] {
						return true
					}
				}
			}
		}
	}
	return false
}

// assumeDeep assumes c, looking at every conjunct with the finer evaluation.
func (s *State) assumeDeep(c *Term) bool {
	if c.op == "and" {
		for _, x := range c.a {
			if !s.assumeDeep(x) {
				return false
			}
		}
		return true
	}
	if s.eval2(c) == tFalse {
		return false
	}
	return s.assume(c)
}

// eval2 refines eval with reasoning about small modular quotients.
func (s *State) eval2(c *Term) *Term {
	if v := s.eval(c); v == tTrue || v == tFalse {
		return v
	}
	neg := false
	d := c
	for d.op == "not" {
		d, neg = d.a[0], !neg
	}
	res := func(v *Term) *Term {
		if neg && (v == tTrue || v == tFalse) {
			return bnot(v)
		}
		return v
	}
	if d.op == "eq0" || d.op == "ge0" {
		// a single mod atom whose argument lies in [0,2N): replace it by x or x-N when decided
		for m := range toPoly(d.a[0]) {
			if m.op != "mod" || !isConst(m.a[1]) {
				continue
			}
			x, n := m.a[0], m.a[1]
			switch {
			case s.entails(mkGe0(x)) && s.entails(mkGe0(iSub(iSub(n, tOne), x))):
				return res(s.eval(substOne(d, m, x)))
			case s.entails(mkGe0(iSub(x, n))) && s.entails(mkGe0(iSub(iSub(iAdd(n, n), tOne), x))):
				return res(s.eval(substOne(d, m, iSub(x, n))))
			case d == mkEq0(m) && s.entails(mkGe0(iSub(x, tOne))) && s.entails(mkGe0(iSub(iSub(iAdd(n, n), tOne), x))):
				return res(s.eval(mkEqInt(x, n)))
			}
		}
	}
	return c
}

// possible: the conditions cs are jointly consistent with s.
func contradictory(s *State, cs ...*Term) bool {
	n := s.clone()
	for _, c := range cs {
		if n.eval2(c) == tFalse || !n.assume(c) {
			return true
		}
	}
	return refuted(n, 0)
}

// errNil is the condition "the last result is a nil error".
func errNil(o Outcome) *Term {
	t := o.res
	if t.op == "tuple" {
		t = t.a[len(t.a)-1]
	}
	return mkIsNil(t)
}

// field reads a struct field by name through pointers, following embedded structs.
func (e *Engine) field(st *State, v *Term, t types.Type, name string) (*Term, types.Type) {
	for d := deref(t); d != nil && v.op != "struct"; d = deref(t) {
		v = e.load(st, v)
		t = d
	}
	s := structType(t)
	if s == nil {
		return nil, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return fld(v, t, i), s.Field(i).Type()
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() {
			ft := s.Field(i).Type()
			if d := deref(ft); d != nil && structType(d) != nil || structType(ft) != nil {
				if f, t2 := e.field(st, fld(v, t, i), ft, name); f != nil {
					return f, t2
				}
			}
		}
	}
	return nil, nil
}

func (e *Engine) bigField(st *State, v *Term, t types.Type, name string) *Term {
	f, _ := e.field(st, v, t, name)
	if f == nil {
		e.abort("no field %s in %s", name, t)
	}
	return e.bigVal(st, f)
}

// try runs an analysis step, reporting an undecided analysis as a failed obligation.
func (c *Ctx) try(fn *ssa.Function, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if a, isA := r.(abortError); isA {
				c.oblige("decided", short(fn), fn.Pos(), false, "the analysis gave up: %s", a.msg)
				ok = false
				return
			}
			panic(r)
		}
	}()
	f()
	return true
}

// firstDiff locates the first place two terms differ, for diagnostics.
func firstDiff(a, b *Term) string {
	for d := 0; d < 400; d++ {
		if a == b {
			return "equal"
		}
		if a.op != b.op || a.s != b.s || len(a.a) != len(b.a) {
			return clip(a.str(5), 300) + "  vs  " + clip(b.str(5), 300)
		}
		next := -1
		for i := range a.a {
			if a.a[i] != b.a[i] {
				next = i
				break
			}
		}
		if next < 0 {
			return clip(a.str(5), 300) + "  vs  " + clip(b.str(5), 300)
		}
		a, b = a.a[next], b.a[next]
	}
	return "deep"
}

// forallClash: a fact about one element contradicts a fact about all elements.
func (s *State) forallClash() bool {
	var alls []*Term
	for f, v := range s.facts {
		if v && f.op == "forall" {
			alls = append(alls, f)
		}
	}
	if len(alls) == 0 {
		return false
	}
	idx := map[*Term][]*Term{}
	for f := range s.facts {
		if f.op == "forall" {
			continue
		}
		subterms(f, func(t *Term) {
			if t.op == "sel" {
				for _, x := range idx[t.a[0]] {
					if x == t.a[1] {
						return
					}
				}
				idx[t.a[0]] = append(idx[t.a[0]], t.a[1])
			}
		})
	}
	for _, f := range alls {
		var tried []*Term
		clash := false
		subterms(f.a[1], func(t *Term) {
			if clash || t.op != "sel" || t.a[1] != f.a[0] {
				return
			}
		next:
			for _, i := range idx[t.a[0]] {
				for _, x := range tried {
					if x == i {
						continue next
					}
				}
				tried = append(tried, i)
				if !s.entails(mkGe0(i)) || !s.entails(mkGe0(iSub(iSub(f.a[2], i), tOne))) {
					continue
				}
				if s.eval2(substOne(f.a[1], f.a[0], i)) == tFalse {
					clash = true
					return
				}
			}
		})
		if clash {
			return true
		}
	}
	return false
}

// os2ipClash: a number is bounded below what a nonzero byte of its representation makes it.
func (s *State) os2ipClash() bool {
	var sels []*Term
	for _, f := range s.sortedFacts() {
		if f.op == "eq0" && !s.facts[f] && f.a[0].op == "sel" {
			sels = append(sels, f.a[0])
		}
	}
	if sels == nil {
		return false
	}
	for _, f := range s.sortedFacts() {
		if f.op != "ge0" || !s.facts[f] || !hasOp(f, "os2ip") {
			continue
		}
		for _, sel := range sels {
			num := os2ip(sel.a[0])
			if num.op != "os2ip" || !hasTerm(f, num) {
				continue
			}
			// f: limit - num >= 0, so num < 256^n for n the length of limit+1
			limit := iAdd(f.a[0], num)
			if hasTerm(limit, num) {
				continue
			}
			limit = iAdd(limit, tOne)
			bl := mk("bitlen", "", KInt, 31, limit)
			if limit.op == "int" {
				bl = ci(int64(limit.n.BitLen()))
			}
			n := iFdiv(iAdd(bl, ci(7)), ci(8))
			after := iSub(iSub(seqLen(sel.a[0]), sel.a[1]), tOne)
			if s.eval(mkGe0(iSub(after, n))) == tTrue && s.eval(mkGe0(sel.a[1])) == tTrue {
				return true
			}
		}
	}
	return false
}
