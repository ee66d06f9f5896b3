package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// initPackages interprets the package initialisers; the resulting memory is the base of every analysis.
func (e *Engine) initPackages(rel ...string) {
	st := newState()
	e.quiet++
	defer func() { e.quiet-- }()
	for _, lp := range e.P.prog.AllPackages() {
		if lp.Pkg.Path() == "encoding/asn1" {
			if g, ok := lp.Members["NullBytes"].(*ssa.Global); ok {
				e.store(st, globalPtr(g), e.newSlice(st, "asn1.NullBytes", cbytes("\x05\x00")))
			}
			if g, ok := lp.Members["NullRawValue"].(*ssa.Global); ok {
				t := deref(g.Type())
				e.store(st, globalPtr(g), setFld(zeroValue(t), t, 1, ci(5)))
			}
		}
	}
	for _, r := range rel {
		sp := e.P.pkgs[r]
		if sp == nil {
			continue
		}
		if g, ok := sp.Members["init$guard"].(*ssa.Global); ok {
			st.mem[globalPtr(g).a[0]] = tFalse
		}
		outs := e.call(st, sp.Func("init"), nil, nil)
		var live []Outcome
		for _, o := range outs {
			if !o.panic {
				live = append(live, o)
			}
		}
		if len(live) != 1 {
			d := ""
			for i, o := range outs {
				if i < 3 {
					d += fmt.Sprintf("\n panic=%v at %s: %s", o.panic, posOf(e.P, o.at), clip(pathFacts(o.st), 600))
				}
			}
			e.abort("package %s has %d initialisation outcomes%s", r, len(live), d)
		}
		st = live[0].st
	}
	for o, c := range st.mem {
		baseMem[o] = c
	}
}

// runRoot analyses fn on symbolic arguments named after its parameters.
func (e *Engine) runRoot(fn *ssa.Function) []Outcome {
	st, args := e.rootState(fn)
	return e.call(st, fn, args, nil)
}

func (e *Engine) rootState(fn *ssa.Function) (*State, []*Term) {
	st := newState()
	var args []*Term
	for i, p := range fn.Params {
		n := p.Name()
		if n == "" || n == "_" {
			n = "arg" + string(rune('0'+i))
		}
		a := sym(n, p.Type())
		args = append(args, a)
		declareCoords(n, p.Type())
		e.bindCurve(st, a, p.Type())
		if i == 0 && fn.Signature.Recv() != nil {
			st.assume(bnot(mkIsNil(a)))
		}
	}
	return st, args
}

// declareCoords records that the coordinates of a key parameter are field elements.
func declareCoords(n string, t types.Type) {
	if d := deref(t); d != nil {
		t = d
	}
	st := structType(t)
	if st == nil {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Name() == "X" || f.Name() == "Y" {
			if d := deref(f.Type()); d != nil && isBigInt(d) {
				coordTerms[sym(n+"."+f.Name(), d)] = true
			}
		}
		if f.Embedded() && structType(f.Type()) != nil {
			declareCoords(n+"."+f.Name(), f.Type())
		}
	}
}

// bindCurve fixes the curve of a key parameter to the SM2 curve the package publishes (precondition of the SM2 checks).
func (e *Engine) bindCurve(st *State, a *Term, t types.Type) {
	if e.curve == nil || a.op != "ptr" {
		return
	}
	if d := deref(t); d != nil && structType(d) != nil {
		c := st.content(a.a[0])
		if n := e.withCurve(c, d); n != c {
			st.mem[a.a[0]] = n
		}
	}
}

func (e *Engine) withCurve(c *Term, t types.Type) *Term {
	s := structType(t)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if typeName(f.Type()) == "crypto/elliptic.Curve" {
			c = setFld(c, t, i, e.curve)
		} else if f.Embedded() && structType(f.Type()) != nil {
			v := fld(c, t, i)
			if n := e.withCurve(v, f.Type()); n != v {
				c = setFld(c, t, i, n)
			}
		}
	}
	return c
}

// useSM2Curve makes every key parameter of the following roots a key on the package's curve.
func (e *Engine) useSM2Curve() {
	f := e.P.fn("sm2", "SM2P256V1")
	if f == nil {
		e.abort("no SM2P256V1")
	}
	outs := e.call(newState(), f, nil, nil)
	if len(outs) != 1 {
		e.abort("SM2P256V1 has %d outcomes", len(outs))
	}
	t := f.Signature.Results().At(0).Type()
	e.curve = mkT("iface", tstr(t), KVal, 0, t, outs[0].res)
	termNames[e.curve] = "SM2curve"
	if s := e.snap(newState(), e.curve); s.op == "iface" && s.a[0].op == "struct" {
		termNames[s] = "SM2curve"
		for _, x := range s.a[0].a {
			if x.op == "ref" && x.a[0].op == "struct" {
				termNames[x] = "SM2"
				e.curveParams = x
			}
		}
	}
}
