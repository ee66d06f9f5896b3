package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const schemaPKIXOut = "{" + schemaAlg + ";BitString}"

// keyOut analyses the functions that write keys.
type keyOut struct {
	c *Ctx
	e *Engine
	// what the key under analysis contains, as handed to the function
	d, x, y *Term
	f       map[string]*Term
}

// object is a key of type t in memory, unknown but for its curve.
func (k *keyOut) object(st *State, t types.Type, curve *Term) *Term {
	return k.e.newPtr(st, "key", k.withCurve(sym("key", t), t, curve))
}

func (k *keyOut) withCurve(v *Term, t types.Type, curve *Term) *Term {
	if i := fieldIndex(t, "Curve"); i >= 0 {
		return setFld(v, t, i, curve)
	}
	if i := fieldIndex(t, "PublicKey"); i >= 0 {
		pt := structType(t).Field(i).Type()
		return setFld(v, t, i, k.withCurve(fld(v, t, i), pt, curve))
	}
	return v
}

// algorithm: an algorithm identifier with these parameters (nil: none).
func (m *matcher) algorithm(t *Term, oid, params *Term, what string) {
	f := m.fields(t, 2, "the algorithm of "+what)
	if m.why != "" {
		return
	}
	m.same(f[0], oid, "the algorithm of "+what)
	p := m.fields(f[1], 5, "the parameters of "+what)
	if m.why != "" {
		return
	}
	full := m.seq(p[4])
	switch {
	case params == tNil: // NULL
		if full == tEmpty {
			m.num(p[0], 0, "the class of the parameters of "+what)
			m.num(p[1], 5, "the tag of the parameters of "+what)
			m.same(p[3], tEmpty, "the parameters of "+what)
			return
		}
		m.same(full, cbytes("\x05\x00"), "the parameters of "+what)
	case params == nil:
		if f[1] != zeroValue(f[1].typ) && full != tEmpty {
			m.fail(what+" has parameters", full.str(3))
		}
		for i := range p[:4] {
			if m.seqOrNum(p[i]) {
				m.fail(what+" has parameters", p[i].str(3))
			}
		}
	default:
		if full.op == "asn1enc" && full.s == "ObjectIdentifier" {
			m.same(full.a[0], params, "the parameters of "+what)
		} else {
			m.fail("the parameters of "+what+" are not an object identifier", full.str(3))
		}
	}
}

// seqOrNum: the value is not known to be zero.
func (m *matcher) seqOrNum(t *Term) bool {
	return !(t == tZero || t == tFalse || t == tNil || m.st.norm(t) == tZero || t.k != KInt && t.k != KBool && m.seq(t) == tEmpty)
}

// bits: a bit string of whole bytes; old-style values leave the length at zero.
func (m *matcher) bits(t *Term, want *Term, what string) {
	f := m.fields(t, 2, what)
	if m.why != "" {
		return
	}
	m.same(f[0], want, what)
	n := m.st.norm(f[1])
	if n != tZero && m.st.eval2(mkEqInt(n, iScale(seqLen(want), 8))) != tTrue {
		m.fail("the length of "+what+" is not that of whole bytes", n.str(3))
	}
}

// point is the encoding of a public key on a curve.
func (k *keyOut) point(curve *Term) *Term {
	return mk("ecpoint", "", KSeq, 0, curve, k.x, k.y)
}

func (k *keyOut) ecInner(m *matcher, t *Term, st *State, nc namedCurve, needOID bool) {
	v := m.fields(m.enc(t, schemaECPriv, "the private key"), 4, "the private key")
	if m.why != "" {
		return
	}
	m.num(v[0], 1, "the version")
	key := m.seq(v[1])
	n := st.norm(nc.order(k.c, k.e, st))
	size := iFdiv(iAdd(mk("bitlen", "", KInt, 31, n), ci(7)), ci(8))
	if n.op == "int" {
		size = ci(int64(n.n.BitLen()+7) / 8)
	}
	if st.eval2(mkEqInt(seqLen(key), size)) != tTrue {
		m.fail("the scalar does not have the size of the order of the curve", seqLen(key).str(4))
	}
	if !st.sameNumber(os2ip(key), k.d) {
		m.fail("the scalar is not that of the key", key.str(4))
	}
	if oid := m.seq(v[2]); needOID || oid != tEmpty {
		m.same(oid, nc.oid, "the curve of the private key")
	}
	curve, _ := nc.term(k.e, st)
	m.bits(v[3], k.point(curve), "the public key")
}

func (k *keyOut) prepKey(st *State, p *Term, t types.Type, nc namedCurve) {
	k.d = k.e.bigField(st, p, t, "D")
	st.assume(mkGe0(k.d))
	st.assume(mkGe0(iSub(iSub(nc.order(k.c, k.e, st), tOne), k.d)))
}

// run analyses fn on one argument; every outcome is handed to f.
func (k *keyOut) run(fn *ssa.Function, name string, arg func(st *State) *Term, f func(o Outcome)) {
	_, _, outs, ok := k.c.analyseWith(k.e, fn, func(st *State, args []*Term) []*Term {
		args[0] = arg(st)
		return args
	})
	if !ok {
		return
	}
	k.c.noPanic(k.e, fn, outs)
	k.c.oblige("analysed", short(fn)+" "+name, fn.Pos(), len(outs) > 0, "no outcome")
	for _, o := range outs {
		if !refuted(o.st, 0) {
			f(o)
		}
	}
}

// always: fn succeeds and its result is accepted by want.
func (k *keyOut) always(fn *ssa.Function, name string, arg func(st *State) *Term, want func(m *matcher, st *State, res *Term)) {
	k.run(fn, name, arg, func(o Outcome) {
		if o.res.op == "tuple" {
			k.c.oblige("such a key is written", short(fn)+" "+name, atPos(o), o.st.eval2(errNil(o)) == tTrue, "fails: %s", pathFacts(o.st))
		}
		m := &matcher{e: k.e, st: o.st}
		want(m, o.st, o.r(0))
		k.c.oblige("the encoding is the specified one", short(fn)+" "+name, atPos(o), m.why == "", "%s", m.why)
	})
}

func (k *keyOut) never(fn *ssa.Function, name string, arg func(st *State) *Term) {
	k.run(fn, name, arg, func(o Outcome) {
		k.c.oblige("no other key is written", short(fn)+" "+name, atPos(o), o.st.eval2(errNil(o)) == tFalse, "succeeds: %s", pathFacts(o.st))
	})
}

func checkKeyWriters(c *Ctx) {
	fns := map[string]*ssa.Function{}
	for _, n := range []string{"MarshalECPrivateKey", "MarshalPKCS8PrivateKey", "MarshalPKIXPublicKey", "MarshalPKCS1PrivateKey", "MarshalPKCS1PublicKey"} {
		fns[n] = c.P.fn("x509", n)
		if !c.oblige("anchor", "x509."+n, 0, fns[n] != nil, "not found") {
			return
		}
	}
	e := keysEngine(c)
	rsaModels(c, e)
	noMarshalErrors(e)
	e.models["crypto/elliptic.Marshal"] = func(e *Engine, cc *callCtx) []Outcome {
		s := mk("ecpoint", "", KSeq, 0, e.snap(cc.st, cc.args[0]), e.bigVal(cc.st, cc.args[1]), e.bigVal(cc.st, cc.args[2]))
		return ret(cc, e.newSlice(cc.st, siteOf(cc.in()), s))
	}
	k := &keyOut{c: c, e: e}
	ecT, sm2T := c.libType("crypto/ecdsa", "PrivateKey"), c.P.pkgs["sm2"].Pkg.Scope().Lookup("PrivateKey").Type()
	ecPT, sm2PT := c.libType("crypto/ecdsa", "PublicKey"), c.P.pkgs["sm2"].Pkg.Scope().Lookup("PublicKey").Type()
	rsaT, rsaPT := c.libType("crypto/rsa", "PrivateKey"), c.libType("crypto/rsa", "PublicKey")
	edT, edPT := c.libType("crypto/ed25519", "PrivateKey"), c.libType("crypto/ed25519", "PublicKey")
	ptr := func(t types.Type) types.Type { return types.NewPointer(t) }
	boxed := func(t types.Type, x *Term) *Term { return mkT("iface", tstr(t), KVal, 0, t, x) }
	otherCurve := func(st *State) *Term {
		x := sym("curve", c.libType("crypto/elliptic", "Curve"))
		for _, nc := range namedCurves {
			cv, _ := nc.term(e, st)
			if nc.sm2 {
				cv = e.curve
			}
			st.assume(bnot(mkEq(x, cv)))
		}
		return x
	}
	curveVal := func(nc namedCurve, st *State) *Term {
		if nc.sm2 {
			return e.curve
		}
		t, _ := nc.term(e, st)
		return t
	}
	outer := func(m *matcher, res *Term, oid, params *Term) *Term {
		v := m.fields(m.enc(res, schemaPKCS8, "the result"), 3, "the result")
		if m.why != "" {
			return nil
		}
		m.num(v[0], 0, "the version")
		m.algorithm(v[1], oid, params, "the key")
		return v[2]
	}
	spki := func(m *matcher, res *Term, oid, params, key *Term) {
		v := m.fields(m.enc(res, schemaPKIXOut, "the result"), 2, "the result")
		if m.why != "" {
			return
		}
		m.algorithm(v[0], oid, params, "the key")
		b := m.fields(v[1], 2, "the key")
		if m.why == "" && m.st.eval2(mkEqInt(b[1], iScale(seqLen(m.seq(b[0])), 8))) != tTrue {
			m.fail("the bit string is not one of whole bytes", b[1].str(4))
		}
		m.same(v[1].a[0], key, "the key")
	}
	for _, nc := range namedCurves {
		for _, t := range []types.Type{ecT, sm2T} {
			if t == sm2T && !nc.sm2 {
				continue
			}
			name := tstr(t) + " " + nc.name
			make := func(t types.Type) func(st *State) *Term {
				return func(st *State) *Term {
					p := k.object(st, t, curveVal(nc, st))
					k.x, k.y = e.bigField(st, p, ptr(t), "X"), e.bigField(st, p, ptr(t), "Y")
					if t == ecT || t == sm2T {
						k.prepKey(st, p, ptr(t), nc)
					}
					return p
				}
			}
			if t == ecT {
				k.always(fns["MarshalECPrivateKey"], name, make(t), func(m *matcher, st *State, res *Term) {
					k.ecInner(m, res, st, nc, true)
				})
			}
			mkBoxed := func(t types.Type) func(st *State) *Term {
				return func(st *State) *Term { return boxed(ptr(t), make(t)(st)) }
			}
			k.always(fns["MarshalPKCS8PrivateKey"], name, mkBoxed(t), func(m *matcher, st *State, res *Term) {
				if in := outer(m, res, oidECKey, nc.oid); m.why == "" {
					k.ecInner(m, in, st, nc, false)
				}
			})
			pt := ecPT
			if t == sm2T {
				pt = sm2PT
			}
			k.always(fns["MarshalPKIXPublicKey"], name, mkBoxed(pt), func(m *matcher, st *State, res *Term) {
				curve, _ := nc.term(e, st)
				spki(m, res, oidECKey, nc.oid, k.point(curve))
			})
		}
	}
	for _, t := range []types.Type{ecT, sm2T, ecPT, sm2PT} {
		arg := func(st *State) *Term { return k.object(st, t, otherCurve(st)) }
		name := tstr(t) + " on another curve"
		if t == ecT {
			k.never(fns["MarshalECPrivateKey"], name, arg)
		}
		fn := fns["MarshalPKCS8PrivateKey"]
		if t == ecPT || t == sm2PT {
			fn = fns["MarshalPKIXPublicKey"]
		}
		k.never(fn, name, func(st *State) *Term { return boxed(ptr(t), arg(st)) })
	}
	other := func(ts ...types.Type) func(st *State) *Term {
		return func(st *State) *Term {
			x := sym("key", types.NewInterfaceType(nil, nil))
			for _, t := range ts {
				st.assume(bnot(typeIs(x, t)))
			}
			return x
		}
	}
	k.never(fns["MarshalPKCS8PrivateKey"], "another type", other(ptr(ecT), ptr(sm2T), ptr(rsaT), edT))
	k.never(fns["MarshalPKIXPublicKey"], "another type", other(ptr(ecPT), ptr(sm2PT), ptr(rsaPT), edPT))

	// Ed25519
	var key *Term
	bytesOf := func(t types.Type) func(st *State) *Term {
		return func(st *State) *Term {
			key = sym("key", t)
			return boxed(t, key)
		}
	}
	k.always(fns["MarshalPKCS8PrivateKey"], "Ed25519", bytesOf(edT), func(m *matcher, st *State, res *Term) {
		in := outer(m, res, oidEd25519Key, nil)
		s := m.enc(in, "[]byte", "the seed")
		if m.why != "" {
			return
		}
		s = m.seq(s)
		seed := s.op == "app" && s.s == "(crypto/ed25519.PrivateKey).Seed" && sameSeq(st, m.seq(s.a[0]), specSeq(key))
		if !seed && !sameSeq(st, s, seqSub(specSeq(key), tZero, ci(32))) {
			m.fail("the seed is not that of the key", s.str(4))
		}
	})
	k.always(fns["MarshalPKIXPublicKey"], "Ed25519", bytesOf(edPT), func(m *matcher, st *State, res *Term) {
		spki(m, res, oidEd25519Key, nil, specSeq(key))
	})

	// RSA
	rsaPub := func(m *matcher, res *Term) {
		v := m.fields(m.enc(res, schemaRSAPub, "the key"), 2, "the key")
		if m.why != "" {
			return
		}
		k.rsaNum(m, v[0], k.f["N"], "N")
		k.rsaNum(m, v[1], k.f["E"], "E")
	}
	obj := func(t types.Type) func(st *State) *Term {
		return func(st *State) *Term {
			v := sym("key", t)
			key = e.newPtr(st, "key", v)
			k.f = map[string]*Term{}
			for _, n := range []string{"N", "E", "D", "Primes"} {
				if f, _ := e.field(st, v, t, n); f != nil {
					k.f[n] = e.snap(st, f)
				}
			}
			if k.f["Primes"] != nil {
				k.f["Primes"] = specSeq(k.f["Primes"])
				st.assume(mkGe0(iSub(seqLen(k.f["Primes"]), ci(2))))
			}
			return key
		}
	}
	box := func(t types.Type) func(st *State) *Term {
		return func(st *State) *Term { return boxed(ptr(t), obj(t)(st)) }
	}
	k.always(fns["MarshalPKCS1PublicKey"], "RSA", obj(rsaPT), func(m *matcher, st *State, res *Term) { rsaPub(m, res) })
	k.always(fns["MarshalPKIXPublicKey"], "RSA", box(rsaPT), func(m *matcher, st *State, res *Term) {
		v := m.fields(m.enc(res, schemaPKIXOut, "the result"), 2, "the result")
		if m.why != "" {
			return
		}
		m.algorithm(v[0], oidRSAKey, tNil, "the key")
		b := m.fields(v[1], 2, "the key")
		if m.why != "" {
			return
		}
		in := m.seq(b[0])
		if m.st.eval2(mkEqInt(b[1], iScale(seqLen(in), 8))) != tTrue {
			m.fail("the bit string is not one of whole bytes", b[1].str(4))
		}
		rsaPub(m, in)
	})
	k.always(fns["MarshalPKCS1PrivateKey"], "RSA", obj(rsaT), func(m *matcher, st *State, res *Term) { k.rsaPriv(m, st, res, rsaT) })
	k.always(fns["MarshalPKCS8PrivateKey"], "RSA", box(rsaT), func(m *matcher, st *State, res *Term) {
		if in := outer(m, res, oidRSAKey, tNil); m.why == "" {
			k.rsaPriv(m, st, in, rsaT)
		}
	})
}

// rsaNum: the value written is the named number of the key.
func (k *keyOut) rsaNum(m *matcher, t, want *Term, name string) {
	if m.why != "" || want == nil {
		m.fail(name+" is unknown", "")
		return
	}
	if m.st.norm(want) != m.st.norm(k.e.snap(m.st, t)) {
		m.fail(name+" is not that of the key", t.str(4))
	}
}

func (k *keyOut) rsaPriv(m *matcher, st *State, res *Term, kt types.Type) {
	v := m.fields(m.enc(res, schemaRSAPriv, "the key"), 10, "the key")
	if m.why != "" {
		return
	}
	e := k.e
	ps := k.f["Primes"]
	multi := st.eval2(mkGe0(iSub(seqLen(ps), ci(3))))
	want := tOne
	switch multi {
	case tFalse:
		want = tZero
	case tTrue:
	default:
		m.fail("the version does not depend on the number of primes", "")
	}
	if st.norm(v[0]) != want {
		m.fail("the version is not as specified", v[0].str(3))
	}
	k.rsaNum(m, v[1], k.f["N"], "N")
	k.rsaNum(m, v[2], k.f["E"], "E")
	k.rsaNum(m, v[3], k.f["D"], "D")
	snap := func(t *Term) *Term { return st.norm(e.snap(st, t)) }
	for i := 0; i < 2; i++ {
		if m.why == "" && snap(v[4+i]) != snap(seqSel(ps, ci(int64(i)))) {
			m.fail(fmt.Sprint("prime ", i, " is not that of the key"), v[4+i].str(4))
		}
	}
	pt := structType(kt).Field(fieldIndex(kt, "Precomputed")).Type()
	pre := rsaPre(sym("key", kt), pt)
	for i, n := range []string{"Dp", "Dq", "Qinv"} {
		f, _ := e.field(st, pre, pt, n)
		if m.why == "" && snap(v[6+i]) != snap(f) {
			m.fail(n+" is not that of the key", v[6+i].str(4))
		}
	}
	crt, ct := e.field(st, pre, pt, "CRTValues")
	cv := e.seqOf(st, crt)
	et := ct.Underlying().(*types.Slice).Elem()
	b := bvar(cv)
	el := seqSel(cv, b)
	f := func(n string) *Term { return fld(el, et, fieldIndex(et, n)) }
	got := asMap(e.snap(st, e.seqOf(st, v[9])))
	if m.why != "" {
		return
	}
	if st.eval2(mkEqInt(seqLen(got), tZero)) == tTrue {
		got = tEmpty
	}
	if st.eval2(mkEqInt(seqLen(got), seqLen(cv))) != tTrue || got != tEmpty && got.op != "map" {
		m.fail("there is not one additional prime for every CRT value", got.str(4))
		return
	}
	if got == tEmpty {
		return
	}
	x := m.fields(substOne(got.a[1], got.a[0], b), 3, "an additional prime")
	if m.why != "" {
		return
	}
	for i, w := range []*Term{seqSel(ps, iAdd(b, ci(2))), f("Exp"), f("Coeff")} {
		if snap(x[i]) != snap(w) {
			m.fail("an additional prime is not that of the key", x[i].str(5))
		}
	}
}

func init() {
	tr := []string{"the standard library and golang.org/x/crypto behave as documented", "golang.org/x/tools/go/ssa"}
	addCheck(&Check{id: "C28", rule: "abstract interpretation of the key writers per key type and curve against the specified structure", run: checkKeyWriters, trusted: tr})
}
