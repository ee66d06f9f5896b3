package main

import (
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Event records an effect in program order.
type Event struct {
	prev *Event
	n    int
	kind string
	name string
	args []*Term
	res  []*Term
	fn   *ssa.Function
	at   ssa.Instruction
}

// State is the abstract machine state of one partition.
type State struct {
	mem   map[*Term]*Term // object -> content
	facts map[*Term]bool  // boolean atom -> truth
	ev    *Event
	ctr   map[string]int
	dead  bool
	entC  map[*Term]int8 // entailment cache for the current facts
}

func newState() *State {
	return &State{mem: map[*Term]*Term{}, facts: map[*Term]bool{}, ctr: map[string]int{}, entC: map[*Term]int8{}}
}

func (s *State) clone() *State {
	n := &State{dead: s.dead, mem: make(map[*Term]*Term, len(s.mem)+4), facts: make(map[*Term]bool, len(s.facts)+4), ev: s.ev, ctr: make(map[string]int, len(s.ctr)+2), entC: map[*Term]int8{}}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.ctr {
		n.ctr[k] = v
	}
	for k, v := range s.entC {
		n.entC[k] = v
	}
	return n
}

func (s *State) fresh(site string) int {
	n := s.ctr[site]
	s.ctr[site] = n + 1
	return n
}

func (s *State) event(e *Event) *Event {
	e.prev = s.ev
	if s.ev != nil {
		e.n = s.ev.n + 1
	}
	s.ev = e
	return e
}

// baseMem is the memory after package initialisation, shared by every state.
var baseMem = map[*Term]*Term{}

// events returns the events of s in program order.
func (s *State) events() []*Event {
	var r []*Event
	for e := s.ev; e != nil; e = e.prev {
		r = append(r, e)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func (s *State) content(o *Term) *Term {
	if c, ok := s.mem[o]; ok {
		return c
	}
	if c, ok := baseMem[o]; ok {
		return c
	}
	return defaultContent(o)
}

// ---------------------------------------------------------------- facts

// assume adds c; it returns false if the state becomes contradictory.
func (s *State) assume(c *Term) bool {
	v := s.eval(c)
	if v == tTrue {
		return true
	}
	if v == tFalse {
		return false
	}
	val := true
	for c.op == "not" {
		c, val = c.a[0], !val
	}
	if !val && c.op == "ge0" {
		c, val = bnot(c), true
	}
	if val && c.op == "eq" && len(c.a) == 2 && c.a[0].k == KVal {
		for i, x := range c.a {
			if x.op == "iface" && !s.assume(bnot(mkIsNil(c.a[1-i]))) {
				return false
			}
		}
	}
	if c.op == "and" {
		if val {
			for _, x := range c.a {
				if !s.assume(x) {
					return false
				}
			}
			return true
		}
		// some conjunct fails: keep the undecided ones as a disjunction
		var alts []*Term
		for _, x := range c.a {
			switch s.eval(x) {
			case tFalse:
				return true
			case tTrue:
			default:
				alts = append(alts, bnot(x))
			}
		}
		switch len(alts) {
		case 0:
			return false
		case 1:
			return s.assume(alts[0])
		}
		s.facts[c] = false
		c, val = mk("or", "", KBool, 0, alts...), true
	}
	s.facts[c] = val
	s.entC = map[*Term]int8{}
	// consequences
	switch c.op {
	case "eq":
		if val && c.s == "seq" {
			if !s.assumeSoft(mkEqInt(seqLen(c.a[0]), seqLen(c.a[1]))) {
				return false
			}
			if c.a[0].op == "list" && c.a[1].op == "list" {
				for i, x := range c.a[0].a {
					if y := c.a[1].a[i]; x.k == KInt && y.k == KInt && !s.assumeSoft(mkEqInt(x, y)) {
						return false
					}
				}
			}
		}
	case "typeis":
		if val {
			s.assumeSoft(bnot(mkIsNil(c.a[0])))
		}
	case "isnil":
		if val && c.a[0].k == KSeq {
			s.assumeSoft(mkEq0(mk("len", "", KInt, 0, c.a[0])))
		}
	case "allzero":
	}
	if val {
		s.implied(c)
	}
	// tighten: p>=0 and p!=0  =>  p-1>=0
	if c.op == "eq0" && !val {
		for _, p := range []*Term{c.a[0], iNeg(c.a[0])} {
			if s.entails(mkGe0(p)) {
				return s.assume(mkGe0(iSub(p, tOne)))
			}
		}
	}
	if c.op == "ge0" {
		for f, v := range s.facts {
			if v || f.op != "eq0" {
				continue
			}
			for _, p := range []*Term{f.a[0], iNeg(f.a[0])} {
				if p == c.a[0] {
					return s.assume(mkGe0(iSub(p, tOne)))
				}
			}
		}
		if _, hi, ok := rng(c.a[0]); ok && hi.Sign() == 0 {
			if z := mkEq0(c.a[0]); z.op == "eq0" && !s.facts[z] {
				if v, has := s.facts[z]; has && !v {
					return false
				}
				s.facts[z] = true
				s.entC = map[*Term]int8{}
				s.implied(z)
			}
			return true
		}
		// infeasible linear system?
		if s.entails(mkGe0(iSub(ci(-1), c.a[0]))) {
			return false
		}
	}
	return true
}

func (s *State) assumeSoft(c *Term) bool { return s.assume(c) }

// implied adds model-specific consequences of a fact (registered by the models).
func (s *State) implied(c *Term) {
	for _, f := range impliedHooks {
		for _, x := range f(c) {
			s.assume(x)
		}
	}
}

var impliedHooks []func(c *Term) []*Term

// eval decides c under the facts: tTrue, tFalse or c itself.
func (s *State) eval(c *Term) *Term {
	switch c.op {
	case "true", "false":
		return c
	case "not":
		v := s.eval(c.a[0])
		if v == tTrue || v == tFalse {
			return bnot(v)
		}
		return c
	case "and":
		all := true
		for _, x := range c.a {
			v := s.eval(x)
			if v == tFalse {
				return tFalse
			}
			if v != tTrue {
				all = false
			}
		}
		if all {
			return tTrue
		}
	}
	if v, ok := s.facts[c]; ok {
		return cbool(v)
	}
	switch c.op {
	case "ge0":
		if s.entails(c) {
			return tTrue
		}
		if s.entails(bnot(c)) {
			return tFalse
		}
	case "eq0":
		p := c.a[0]
		if s.entails(mkGe0(p)) && s.entails(mkGe0(iNeg(p))) {
			return tTrue
		}
		if s.entails(mkGe0(iSub(p, tOne))) || s.entails(mkGe0(iSub(ci(-1), p))) {
			return tFalse
		}
		// mod(A,N) = R with 0 <= R < N says the same as mod(A-R,N) = 0
		for m, k := range toPoly(p) {
			if m.op != "mod" || k.CmpAbs(big1) != 0 {
				continue
			}
			r := iSub(m, iMul(p, cbig(k)))
			d := mkEq0(iMod(iSub(m.a[0], r), m.a[1]))
			if d == c {
				continue
			}
			if v, ok := s.facts[d]; ok {
				if !v {
					return tFalse
				}
				if s.entails(mkGe0(r)) && s.entails(mkGe0(iSub(iSub(m.a[1], r), tOne))) {
					return tTrue
				}
			}
		}
	case "eq":
		// lengths differ?
		if c.s == "seq" {
			d := iSub(seqLen(c.a[0]), seqLen(c.a[1]))
			if s.eval(mkEq0(d)) == tFalse {
				return tFalse
			}
		}
		if c.s == "seq" && c.a[0].op == "list" && c.a[1].op == "list" && len(c.a[0].a) == len(c.a[1].a) {
			all := true
			for i, x := range c.a[0].a {
				y := c.a[1].a[i]
				if x.k != KInt || y.k != KInt {
					all = all && x == y
					continue
				}
				switch s.eval(mkEqInt(x, y)) {
				case tFalse:
					return tFalse
				case tTrue:
				default:
					all = false
				}
			}
			if all {
				return tTrue
			}
		}
		// exclusive equalities with distinct constants
		for f, v := range s.facts {
			if v && f.op == "eq" && f != c {
				for i := 0; i < 2; i++ {
					for j := 0; j < 2; j++ {
						if f.a[i] == c.a[j] && distinctConst(f.a[1-i], c.a[1-j]) {
							return tFalse
						}
					}
				}
			}
		}
	case "cb.present":
		if s.entails(mkGe0(iNeg(seqLen(c.a[0])))) {
			return tFalse
		}
	case "typeis":
		for f, v := range s.facts {
			if f.op == "typeis" && v && f.a[0] == c.a[0] && f.s != c.s && concreteType(f.s) && concreteType(c.s) {
				return tFalse
			}
		}
		if v, ok := s.facts[mkIsNil(c.a[0])]; ok && v {
			return tFalse
		}
	case "isnil":
		// a non-empty slice is not nil
		if c.a[0].k == KSeq {
			if s.entails(mkGe0(iSub(mk("len", "", KInt, 0, c.a[0]), tOne))) {
				return tFalse
			}
		}
	case "allzero":
	}
	if c.op == "isnil" || c.op == "typeis" || c.op == "eq" {
		return s.instance(c)
	}
	return c
}

// instance decides an atom as an instance of a fact about all elements.
func (s *State) instance(c *Term) *Term {
	if !hasOp(c, "sel") {
		return c
	}
	for f, v := range s.facts {
		if !v || f.op != "forall" {
			continue
		}
		g, want := f.a[1], tTrue
		if g.op == "not" {
			g, want = g.a[0], tFalse
		}
		if g.op != c.op || g.s != c.s {
			continue
		}
		i := matchAt(g, c, f.a[0])
		if i != nil && s.entails(mkGe0(i)) && s.entails(mkGe0(iSub(iSub(f.a[2], i), tOne))) && substOne(g, f.a[0], i) == c {
			return want
		}
	}
	return c
}

// matchAt finds the term the variable b of the pattern stands for in t.
func matchAt(p, t, b *Term) *Term {
	if p == b {
		return t
	}
	if p == t || p.op != t.op || p.s != t.s || len(p.a) != len(t.a) {
		return nil
	}
	for i := range p.a {
		if r := matchAt(p.a[i], t.a[i], b); r != nil {
			return r
		}
	}
	return nil
}

func concreteType(s string) bool { return len(s) == 0 || s[len(s)-1] != '!' }

func distinctConst(x, y *Term) bool {
	if x == y {
		return false
	}
	if x.op == "bytes" && y.op == "bytes" {
		return true
	}
	if x.op == "list" && y.op == "list" && len(x.a) == len(y.a) {
		for i := range x.a {
			if distinctConst(x.a[i], y.a[i]) {
				return true
			}
		}
	}
	return x.op == "int" && y.op == "int"
}

// ---------------------------------------------------------------- linear entailment

type lin struct {
	c map[*Term]*big.Int // includes tOne
}

func (s *State) cmp(d *Term) (int, bool) {
	if r, ok := constCmp(d); ok {
		if r != 0 && s.facts[mkEq0(d)] {
			return 0, true
		}
		return r, ok
	}
	ge := s.entails(mkGe0(d))
	le := s.entails(mkGe0(iNeg(d)))
	switch {
	case ge && le:
		return 0, true
	case ge:
		return 1, true
	case le:
		return -1, true
	}
	return 0, false
}

// entails decides ge0 goals (and, via eval, other atoms) from the facts.
func (s *State) entails(c *Term) bool {
	switch c.op {
	case "true":
		return true
	case "false":
		return false
	case "ge0":
	default:
		return s.eval(c) == tTrue
	}
	if v, ok := s.facts[c]; ok {
		return v
	}
	if r, ok := s.entC[c]; ok {
		return r == 1
	}
	r := s.entailLin(c.a[0])
	if r {
		s.entC[c] = 1
	} else {
		s.entC[c] = 0
	}
	return r
}

func (s *State) entailLin(goal *Term) bool {
	if s.entailQuick(toPoly(goal)) {
		return true
	}
	// negated goal: -goal-1 >= 0
	neg := toPoly(iSub(ci(-1), goal))
	var pool []poly
	keys := make([]*Term, 0, len(s.facts))
	for f := range s.facts {
		keys = append(keys, f)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	for _, f := range keys {
		v := s.facts[f]
		switch {
		case f.op == "ge0" && v:
			pool = append(pool, toPoly(f.a[0]))
		case f.op == "eq0" && v:
			pool = append(pool, toPoly(f.a[0]), toPoly(iNeg(f.a[0])))
			// residues: tie the argument to its quotient
			for m := range toPoly(f.a[0]) {
				if m.op == "wrap" && m.w <= 6 {
					if b := atomBounds(m); len(b) >= 2 {
						pool = append(pool, b[0], b[1])
					}
				}
			}
		}
	}
	if infeasible(neg, pool) {
		return true
	}
	// a goal that grows with a minimum holds if it holds for both operands
	for m, c := range toPoly(goal) {
		if m.op == "min" && c.Sign() > 0 {
			return s.entails(mkGe0(substOne(goal, m, m.a[0]))) && s.entails(mkGe0(substOne(goal, m, m.a[1])))
		}
	}
	return false
}

// entailQuick decides goals that follow from at most one fact and the signs of atoms.
func (s *State) entailQuick(g poly) bool {
	nonneg := func(p poly) bool {
		for m, c := range p {
			if m == tOne {
				if c.Sign() < 0 {
					return false
				}
				continue
			}
			if c.Sign() < 0 {
				return false
			}
			if s.facts[mkGe0(m)] {
				continue
			}
			if lo, _, ok := rng(m); ok && lo.Sign() >= 0 {
				continue
			}
			return false
		}
		return true
	}
	if nonneg(g) {
		return true
	}
	for f, v := range s.facts {
		if f.op != "ge0" || !v {
			continue
		}
		p := toPoly(f.a[0])
		// the fact must cancel every negative monomial of the goal
		ok := true
		for m, c := range g {
			if m != tOne && c.Sign() < 0 {
				if k, has := p[m]; !has || k.Cmp(c) > 0 {
					ok = false
					break
				}
			}
		}
		if ok && nonneg(polyAddScaled(g, p, big.NewInt(-1))) {
			return true
		}
	}
	return false
}

// atomBounds yields constraints that always hold for an atom.
func atomBounds(m *Term) []poly {
	var r []poly
	if m == tOne {
		return nil
	}
	switch m.op {
	case "fdiv":
		x, c := toPoly(m.a[0]), m.a[1].n
		// x - c*q >= 0 ; c*q + c-1 - x >= 0
		p := polyAddScaled(x, poly{m: big1}, new(big.Int).Neg(c))
		q := polyAddScaled(poly{tOne: new(big.Int).Sub(c, big1)}, poly{m: c}, big1)
		q = polyAddScaled(q, x, big.NewInt(-1))
		r = append(r, p, q)
	case "wrap":
		if m.w <= 62 {
			q := iFdivAtom(m.a[0], m.w)
			// m = x - 2^w*q
			p := polyAddScaled(toPoly(m.a[0]), poly{q: big1}, new(big.Int).Neg(pow2(m.w)))
			p = polyAddScaled(p, poly{m: big1}, big.NewInt(-1))
			r = append(r, p, polyAddScaled(poly{}, p, big.NewInt(-1)))
		}
	case "mod":
		r = append(r, poly{m: big1})
		// mod < N when N >= 1 is a side condition of the producers
		p := polyAddScaled(toPoly(m.a[1]), poly{m: big1, tOne: big1}, big.NewInt(-1))
		r = append(r, p)
	case "cap":
		l := mk("len", "", KInt, 0, m.a[0])
		if m.a[0].op == "seqid" {
			l = seqLen(m.a[0].a[0])
		}
		r = append(r, polyAddScaled(poly{m: big1}, toPoly(l), big.NewInt(-1)))
	case "min":
		for _, x := range m.a {
			r = append(r, polyAddScaled(toPoly(x), poly{m: big1}, big.NewInt(-1)))
		}
	case "max":
		for _, x := range m.a {
			r = append(r, polyAddScaled(poly{m: big1}, toPoly(x), big.NewInt(-1)))
		}
	}
	if lo, hi, ok := rng(m); ok {
		r = append(r, polyAddScaled(poly{m: big1}, poly{tOne: lo}, big.NewInt(-1)))
		r = append(r, polyAddScaled(poly{tOne: hi}, poly{m: big1}, big.NewInt(-1)))
	} else {
		for _, f := range atomHooks {
			r = append(r, f(m)...)
		}
	}
	return r
}

var atomHooks []func(m *Term) []poly

// iFdivAtom is the quotient variable tied to wrap(w,x).
func iFdivAtom(x *Term, w int) *Term {
	if q := iFdiv(x, cbig(pow2(w))); q.op == "fdiv" && q.a[0] == x {
		return q
	}
	return mk("fdivq", "", KInt, 0, x, ci(int64(w)))
}

// infeasible reports whether goal>=0 together with pool and the implicit bounds has no solution
// (Fourier-Motzkin over the rationals with integer tightening; sound, incomplete).
func infeasible(goal poly, pool []poly) bool {
	goal = tighten(goal)
	if k, ok := constOnly(goal); ok {
		return k.Sign() < 0
	}
	// relevant constraints by connectivity
	seen := map[*Term]bool{}
	var cons []poly
	used := make([]bool, len(pool))
	var work []*Term
	addVars := func(p poly) {
		for m := range p {
			if m != tOne && !seen[m] {
				seen[m] = true
				work = append(work, m)
			}
		}
	}
	cons = append(cons, goal)
	addVars(goal)
	rounds := 0
	for len(work) > 0 && rounds < 400 && len(cons) < 120 {
		rounds++
		m := work[0]
		work = work[1:]
		for _, p := range atomBounds(m) {
			cons = append(cons, p)
			addVars(p)
		}
		for i, p := range pool {
			if used[i] {
				continue
			}
			if _, ok := p[m]; ok {
				used[i] = true
				cons = append(cons, p)
				addVars(p)
			}
		}
	}
	return fm(cons)
}

func constOnly(p poly) (*big.Int, bool) {
	if len(p) == 0 {
		return new(big.Int), true
	}
	if len(p) == 1 {
		if k, ok := p[tOne]; ok {
			return k, true
		}
	}
	return nil, false
}

func tighten(p poly) poly {
	g := new(big.Int)
	for m, c := range p {
		if m != tOne {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
	}
	if g.Cmp(big1) <= 0 {
		return p
	}
	r := poly{}
	for m, c := range p {
		d := new(big.Int)
		d.Div(c, g)
		r.add(m, d)
	}
	return r
}

func polyKey(p poly) string {
	t := fromPolyRaw(p)
	return t
}

func fromPolyRaw(p poly) string {
	ms := make([]*Term, 0, len(p))
	for m := range p {
		ms = append(ms, m)
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i].id < ms[j].id })
	b := []byte{}
	for _, m := range ms {
		b = appendInt(b, m.id)
		b = append(b, '*')
		b = p[m].Append(b, 16)
		b = append(b, ';')
	}
	return string(b)
}

func appendInt(b []byte, n int) []byte { return big.NewInt(int64(n)).Append(b, 10) }

func fm(cons []poly) bool {
	// deduplicate
	dedup := func(in []poly) ([]poly, bool) {
		best := map[string]int{}
		var out []poly
		for _, p := range in {
			p = tighten(p)
			if k, ok := constOnly(p); ok {
				if k.Sign() < 0 {
					return nil, true
				}
				continue
			}
			q := poly{}
			for m, c := range p {
				if m != tOne {
					q[m] = c
				}
			}
			key := fromPolyRaw(q)
			if i, ok := best[key]; ok {
				// keep the smaller constant (stronger)
				a, b := out[i][tOne], p[tOne]
				if a == nil {
					a = new(big.Int)
				}
				if b == nil {
					b = new(big.Int)
				}
				if b.Cmp(a) < 0 {
					out[i] = p
				}
				continue
			}
			best[key] = len(out)
			out = append(out, p)
		}
		return out, false
	}
	cons, bad := dedup(cons)
	if bad {
		return true
	}
	// substitute equalities (pairs of opposite constraints) with a unit coefficient
	for round := 0; round < 30; round++ {
		keys := map[string]bool{}
		for _, p := range cons {
			keys[fromPolyRaw(p)] = true
		}
		var eq poly
		var v *Term
		for _, p := range cons {
			if !keys[fromPolyRaw(polyAddScaled(poly{}, p, big.NewInt(-1)))] {
				continue
			}
			for m, c := range p {
				if m != tOne && c.CmpAbs(big1) == 0 && (v == nil || m.id > v.id) {
					v, eq = m, p
				}
			}
			if v != nil {
				break
			}
		}
		if v == nil {
			break
		}
		var next []poly
		for _, p := range cons {
			if c, ok := p[v]; ok {
				// p - (c/eq[v])*eq has no v; eq[v] is 1 or -1
				k := new(big.Int).Mul(c, eq[v])
				p = polyAddScaled(p, eq, k.Neg(k))
			}
			next = append(next, p)
		}
		if cons, bad = dedup(next); bad {
			return true
		}
	}
	for iter := 0; iter < 60; iter++ {
		// choose the variable with the fewest combinations
		pos, negc := map[*Term]int{}, map[*Term]int{}
		for _, p := range cons {
			for m, c := range p {
				if m == tOne {
					continue
				}
				if c.Sign() > 0 {
					pos[m]++
				} else {
					negc[m]++
				}
			}
		}
		vars := map[*Term]bool{}
		for m := range pos {
			vars[m] = true
		}
		for m := range negc {
			vars[m] = true
		}
		if len(vars) == 0 {
			return false
		}
		var v *Term
		bestCost := 1 << 30
		for m := range vars {
			c := pos[m]*negc[m] - pos[m] - negc[m]
			if c < bestCost || (c == bestCost && (v == nil || m.id < v.id)) {
				bestCost, v = c, m
			}
		}
		if pos[v]*negc[v] > 600 {
			return false
		}
		var P, N, rest []poly
		for _, p := range cons {
			c, ok := p[v]
			switch {
			case !ok:
				rest = append(rest, p)
			case c.Sign() > 0:
				P = append(P, p)
			default:
				N = append(N, p)
			}
		}
		for _, p := range P {
			for _, n := range N {
				a, b := p[v], new(big.Int).Neg(n[v])
				g := new(big.Int).GCD(nil, nil, a, b)
				ca, cb := new(big.Int).Div(b, g), new(big.Int).Div(a, g)
				r := polyAddScaled(poly{}, p, ca)
				r = polyAddScaled(r, n, cb)
				delete(r, v)
				rest = append(rest, r)
			}
		}
		cons, bad = dedup(rest)
		if bad {
			return true
		}
		if len(cons) > 400 {
			return false
		}
	}
	return false
}

// ---------------------------------------------------------------- normalisation under facts

// wrap reduces x to w bits unless the facts already bound it.
func (s *State) wrap(w int, x *Term) *Term {
	if w == 0 {
		return x
	}
	y := mkWrap(w, x)
	if y.op != "wrap" {
		return y
	}
	if s.entails(mkGe0(x)) && s.entails(mkGe0(iSub(cbig(allOnes(w)), x))) {
		return x
	}
	return y
}

// mayOverflow: x, of the signed type t, is computed from a number taken from an argument or from decoded data and is not known to be
// in range. Lengths, bit lengths and counters are far from the bounds of int.
func (s *State) mayOverflow(t types.Type, x *Term) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Kind() != types.Int && b.Kind() != types.Int64 || x.k != KInt {
		return false
	}
	far := false
	for m := range toPoly(x) {
		if m.op == "cb.optint" || m.op == "sym" {
			far = true
			s.assume(mkGe0(iAdd(m, cbig(pow2(63)))))
			s.assume(mkGe0(iSub(cbig(new(big.Int).Sub(pow2(63), big.NewInt(1))), m)))
		}
	}
	return far && !(s.entails(mkGe0(iAdd(x, cbig(pow2(63))))) && s.entails(mkGe0(iSub(cbig(new(big.Int).Sub(pow2(63), big.NewInt(1))), x))))
}

// norm rewrites encodings whose width is decided by the facts.
func (s *State) norm(t *Term) *Term {
	if t == nil {
		return nil
	}
	m := map[*Term]*Term{}
	s.normCollect(t, m, map[*Term]bool{})
	if len(m) == 0 {
		return t
	}
	return substM(t, m, map[*Term]*Term{})
}

func (s *State) normCollect(t *Term, m map[*Term]*Term, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	for _, x := range t.a {
		s.normCollect(x, m, seen)
	}
	switch t.op {
	case "minbe":
		l := seqLen(t)
		for _, w := range []int64{32} {
			if isCoordLike(t.a[0]) && w == 32 {
				if s.entails(mkGe0(iSub(l, ci(w)))) {
					m[t] = mkBE(w, t.a[0])
				}
			}
		}
	case "sub":
		if t.a[1] == tZero {
			if r, ok := s.cmp(iSub(t.a[2], seqLen(t.a[0]))); ok && r == 0 {
				m[t] = t.a[0]
			}
		}
	case "sel":
		if x := t.a[0]; x.op == "cat" || x.op == "sub" || x.op == "pw" || x.op == "upd" {
			if r := seqSelC(x, t.a[1], s.cmp); r != t {
				m[t] = r
			}
		}
	case "fdiv":
		if q := s.quotient(t.a[0], t.a[1]); q != nil {
			m[t] = q
		}
	case "wrap":
		if t.w < 32 {
			if q := s.quotient(t.a[0], cbig(pow2(t.w))); q != nil {
				m[t] = iSub(t.a[0], iMul(cbig(pow2(t.w)), q))
			}
		}
	case "min":
		if s.entails(mkGe0(iSub(t.a[1], t.a[0]))) {
			m[t] = t.a[0]
		} else if s.entails(mkGe0(iSub(t.a[0], t.a[1]))) {
			m[t] = t.a[1]
		}
	case "gate":
		if v := s.eval(t.a[0]); v == tTrue {
			m[t] = t.a[1]
		} else if v == tFalse {
			m[t] = t.a[2]
		}
	}
}

func (s *State) sortedFacts() []*Term {
	keys := make([]*Term, 0, len(s.facts))
	for f := range s.facts {
		keys = append(keys, f)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	return keys
}

// quotient decides a floor division with a small quotient from the bounds of the dividend.
func (s *State) quotient(x, c *Term) *Term {
	for _, q := range []int64{0, 1, -1, 2} {
		lo := iScale(c, q)
		if s.entails(mkGe0(iSub(x, lo))) && s.entails(mkGe0(iSub(iSub(iAdd(lo, c), tOne), x))) {
			return ci(q)
		}
	}
	return nil
}
