package main

import (
	"golang.org/x/tools/go/ssa"
)

// Functions recognised by their types stand for what they compute wherever they are called. When several have the types of
// one, only those stand for it that compute it; the others (helpers around them, or of another purpose) are analysed where
// they are called, like any function.

// calls: is g reached from f by calls within the module?
func calls(f, g *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	reachable(f, seen)
	if f == g {
		return false
	}
	return seen[g]
}

// innermost are the functions of the set that call no other of it.
func innermost(set map[*ssa.Function]bool) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for f := range set {
		in := true
		for g := range set {
			in = in && !calls(f, g)
		}
		if in {
			r[f] = true
		}
	}
	if len(r) == 0 {
		return set
	}
	return r
}

// attempt runs part of a check and undoes it if it fails.
func (c *Ctx) attempt(f func()) (ok bool) {
	old := *c
	old.byRule, old.funcs = map[string]int{}, map[string]bool{}
	for k, v := range c.byRule {
		old.byRule[k] = v
	}
	for k, v := range c.funcs {
		old.funcs[k] = v
	}
	engines := len(c.P.engines)
	obls := map[*Engine]map[string]*Obligation{}
	for _, e := range c.P.engines {
		m := map[string]*Obligation{}
		for k, o := range e.obls {
			x := *o
			m[k] = &x
		}
		obls[e] = m
	}
	bad := func() (n int) {
		for _, e := range c.P.engines {
			for _, o := range e.obls {
				if o.bad > 0 && o.kind != "nil" && o.kind != "panic" {
					n++
				}
			}
		}
		return
	}
	before := bad()
	defer func() {
		p := recover()
		ok = p == nil && len(c.finds) == len(old.finds) && bad() == before
		if !ok {
			*c = old
			c.P.engines = c.P.engines[:engines]
			for e, m := range obls {
				e.obls = m
			}
		}
	}()
	f()
	return
}

// settle leaves in the set the functions that pass the check; if none does, those to report.
func (c *Ctx) settle(set map[*ssa.Function]bool, accepted map[*ssa.Function]bool, check func(f *ssa.Function)) {
	fs := sortFuncs(set)
	if len(fs) < 2 {
		for _, f := range fs {
			accepted[f] = true
		}
		return
	}
	any := false
	for rest := set; len(rest) > 0; {
		f := sortFuncs(innermost(rest))[0]
		less := map[*ssa.Function]bool{}
		for g := range rest {
			if g != f {
				less[g] = true
			}
		}
		rest = less
		if c.attempt(func() { check(f) }) {
			accepted[f], any = true, true
		}
	}
	if !any {
		for f := range innermost(set) {
			accepted[f] = true
		}
	}
	for f := range set {
		if !accepted[f] {
			delete(set, f)
		}
	}
}
