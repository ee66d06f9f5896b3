package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// Termination of summarised loops: every way back to the header either has a fact that bounds the number K of the iteration by
// quantities the loop does not change, or makes one common measure smaller: a length, or an integer bounded from below (or, growing,
// from above).

// endsWhy decides it; "" if the loop ends. backs are the ways back, hs the state at the header, h the values there.
func (e *Engine) endsWhy(id string, start int, K *Term, backs []exitPath, outs []*State, hs *State, heads []*Term, back func(i int, b *path) *Term) string {
	variant := func(t *Term) bool { return hasPhi(t, id) || t == K || newLeaf(t, start) }
	// bounded: a fact says that v, of which more and more is taken, stays below something invariant
	bounded := func(st *State, v *Term) bool {
		for f, yes := range st.facts {
			if !yes || f.op != "ge0" {
				continue
			}
			ok, neg := true, false
			for m, c := range toPoly(f.a[0]) {
				switch {
				case m == v:
					neg = c.Sign() < 0
				case m != tOne && variant(m):
					ok = false
				}
			}
			if ok && neg {
				return true
			}
		}
		return false
	}
	var open []*path
	for _, b := range backs {
		if !bounded(b.p.st, K) && !(drawn(b.p.st, hs) && acceptable(b.p.st, outs, hs, variant)) {
			open = append(open, b.p)
		}
	}
	if len(open) == 0 {
		return ""
	}
	for i, h := range heads {
		down, up := true, true
		for _, p := range open {
			bv := back(i, p)
			if bv == nil || bv.k != h.k {
				down, up = false, false
				break
			}
			x, y := h, bv
			if h.k == KSeq {
				x, y = seqLen(h), seqLen(bv)
			} else if h.k != KInt {
				down, up = false, false
				break
			}
			less := p.st.entails(mkGe0(iSub(iSub(x, y), tOne)))
			below := h.k == KSeq || p.st.entails(mkGe0(iAdd(y, ci(64))))
			down = down && less && below
			up = up && p.st.entails(mkGe0(iSub(iSub(y, x), tOne))) && bounded(p.st, x)
		}
		if down || up {
			return ""
		}
	}
	return "nothing bounds the number of iterations: " + clip(pathFacts(open[0].st), 400)
}

// drawn: fresh random bytes were read since, without an error; what is repeated until they are acceptable ends with probability one.
func drawn(st, since *State) bool {
	for ev := st.ev; ev != nil && ev != since.ev; ev = ev.prev {
		if ev.kind == "read" && len(ev.res) > 1 && st.eval(mkIsNil(ev.res[1])) == tTrue {
			return true
		}
	}
	return false
}

// acceptable: what the loop leaves alone allows some other draw to end it, and no draw needs something not to be empty of which that
// is not known. outs are the states in which the loop is left.
func acceptable(back *State, outs []*State, hs *State, variant func(*Term) bool) bool {
	need := map[*Term]int{}
	n := 0
next:
	for _, o := range outs {
		if !drawn(o, hs) {
			continue
		}
		o = o.clone()
		for f, yes := range back.facts {
			if variant(f) || mentions(f, "rand") {
				continue
			}
			if !yes {
				f = bnot(f)
			}
			if !o.assume(f) {
				continue next
			}
		}
		if n++; n > 60 {
			return true
		}
		for f := range o.facts {
			for x := range lengths(f, map[*Term]bool{}) {
				if !variant(x) && !mentions(x, "rand") && o.entails(mkGe0(iSub(x, tOne))) && !back.entails(mkGe0(iSub(x, tOne))) {
					need[x] |= 1 << n
				}
			}
		}
	}
	for _, set := range need {
		if set == 1<<(n+1)-2 {
			return false
		}
	}
	return n > 0
}

// lengths collects the lengths t speaks of.
func lengths(t *Term, m map[*Term]bool) map[*Term]bool {
	if t.op == "len" {
		m[t] = true
	}
	for _, x := range t.a {
		lengths(x, m)
	}
	return m
}

// mentions: the operation stands somewhere in t.
func mentions(t *Term, op string) bool {
	if t.op == op {
		return true
	}
	for _, x := range t.a {
		if mentions(x, op) {
			return true
		}
	}
	return false
}

// newLeaf: t is made of a symbol that did not exist before start.
func newLeaf(t *Term, start int) bool {
	if len(t.a) == 0 {
		return t.id > start && t.n == nil && t.op != "bytes" && t.op != "nil"
	}
	for _, x := range t.a {
		if newLeaf(x, start) {
			return true
		}
	}
	return false
}

type endsKey struct {
	fn  *ssa.Function
	pos token.Pos
}

// recordEnd notes whether the loop ended in this analysis of it.
func (e *Engine) recordEnd(fn *ssa.Function, l *loopT, why string) {
	if e.quiet > 0 {
		return
	}
	k := endsKey{fn, loopPos(l)}
	if e.P.ends == nil {
		e.P.ends = map[endsKey]string{}
	}
	if old, ok := e.P.ends[k]; !ok || old == "" {
		e.P.ends[k] = why
	}
}

func loopPos(l *loopT) token.Pos {
	best := token.NoPos
	for b := range l.body {
		for _, in := range b.Instrs {
			if _, phi := in.(*ssa.Phi); phi {
				continue
			}
			if p := in.Pos(); p.IsValid() && (best == token.NoPos || p < best) {
				best = p
			}
		}
	}
	return best
}
