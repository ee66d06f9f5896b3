package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

var (
	oidRSAKey     = oidTerm(1, 2, 840, 113549, 1, 1, 1)
	oidDSAKey     = oidTerm(1, 2, 840, 10040, 4, 1)
	oidECKey      = oidTerm(1, 2, 840, 10045, 2, 1)
	oidEd25519Key = oidTerm(1, 3, 101, 112)
)

type namedCurve struct {
	name string
	oid  *Term
	sm2  bool
}

var namedCurves = []namedCurve{
	{"P224", oidTerm(1, 3, 132, 0, 33), false},
	{"P256", oidTerm(1, 2, 840, 10045, 3, 1, 7), false},
	{"P384", oidTerm(1, 3, 132, 0, 34), false},
	{"P521", oidTerm(1, 3, 132, 0, 35), false},
	{"SM2", oidTerm(1, 2, 156, 10197, 1, 301), true},
}

// term is the curve as a value; params is what curve operations see.
func (n namedCurve) term(e *Engine, st *State) (curve, params *Term) {
	if n.sm2 {
		return e.snap(st, e.curve), e.curveParams
	}
	t := mk("app", "crypto/elliptic."+n.name, KVal, 0)
	return t, t
}

func (n namedCurve) order(c *Ctx, e *Engine, st *State) *Term {
	if n.sm2 {
		return sm2N
	}
	curve, _ := n.term(e, st)
	pt := types.NewPointer(c.libType("crypto/elliptic", "CurveParams"))
	return e.bigField(st, mkTyped("app", "ec.params", pt, curve), pt, "N")
}

// isType: x is an interface value with the dynamic type t; its contents.
func isType(x *Term, t types.Type) *Term {
	if x.op == "iface" && x.s == tstr(t) {
		return x.a[0]
	}
	return nil
}

const (
	schemaECPriv  = "{int;[]byte;ObjectIdentifier optional,explicit,tag:0;BitString optional,explicit,tag:1}"
	schemaPKCS8   = "{int;" + schemaAlg + ";[]byte}"
	schemaSPKI    = "{RawContent;" + schemaAlg + ";BitString}"
	schemaRSAPriv = "{int;*Int;int;*Int;*Int;*Int;*Int optional;*Int optional;*Int optional;[]{*Int;*Int;*Int} optional,omitempty}"
	schemaRSAPub  = "{*Int;int}"
)

// ecKeyAlts: the value v of a SEC 1 private key on the curve named oid.
func ecKeyAlts(c *Ctx, e *Engine, st *State, ecT types.Type, v, oid *Term) func() []*specAlt {
	return func() (alts []*specAlt) {
		k := os2ip(fp(v, ecT, 1))
		for _, nc := range namedCurves {
			n := nc.order(c, e, st)
			alts = append(alts, &specAlt{name: nc.name, disc: []*Term{mkEqSeq(oid, nc.oid)},
				conds: []*Term{mkGe0(iSub(k, tOne)), mkGe0(iSub(iSub(n, k), tOne))},
				names: []string{"a scalar of at least 1", "a scalar below the order of the curve"},
				vals:  []*Term{cbytes(nc.name), k}})
		}
		return
	}
}

// unwrap: the number x modulo a power of two is x when it is in range.
func (st *State) unwrap(x *Term) *Term {
	if x.op == "wrap" && st.eval2(mkGe0(x.a[0])) == tTrue && st.eval2(mkGe0(iSub(cbig(pow2(x.w)), iAdd(x.a[0], tOne)))) == tTrue {
		return x.a[0]
	}
	return x
}

// sameNumber: x and y are equal numbers, one of them without leading zero bytes that the state knows of.
func (st *State) sameNumber(x, y *Term) bool {
	x, y = st.unwrap(st.norm(x)), st.unwrap(st.norm(y))
	if x == y || st.eval2(mkEqInt(x, y)) == tTrue {
		return true
	}
	for i := 0; i < 2; i++ {
		if x.op == "os2ip" && y.op == "os2ip" && x.a[0].op == "sub" {
			s := x.a[0]
			if st.norm(s.a[0]) == st.norm(y.a[0]) && st.eval2(mkEqInt(s.a[2], seqLen(s.a[0]))) == tTrue {
				b := bvar(s.a[0])
				if st.eval2(mkForall(b, mkEqInt(seqSel(s.a[0], b), tZero), s.a[1])) == tTrue {
					return true
				}
			}
		}
		x, y = y, x
	}
	return false
}

// sameECKey compares a parsed key with the leaf of ecKeyAlts.
func sameECKey(c *Ctx, e *Engine, st *State, x *Term, leaf *specAlt) (string, bool) {
	for _, nc := range namedCurves {
		if cbytes(nc.name) != leaf.vals[0] {
			continue
		}
		var t types.Type
		if nc.sm2 {
			t = c.P.pkgs["sm2"].Pkg.Scope().Lookup("PrivateKey").Type()
		} else {
			t = c.libType("crypto/ecdsa", "PrivateKey")
		}
		t = types.NewPointer(t)
		p := isType(x, t)
		if p == nil {
			return fmt.Sprint("the result is not a ", tstr(t), ": ", x.str(3)), false
		}
		curve, params := nc.term(e, st)
		got, _ := e.field(st, p, t, "Curve")
		if got == nil || st.norm(e.snap(st, got)) != st.norm(curve) {
			return "the curve of the key is not the one named", false
		}
		if d := e.bigField(st, p, t, "D"); !st.sameNumber(d, leaf.vals[1]) {
			return "the scalar of the key is not the one encoded: " + d.str(5), false
		}
		for i, n := range []string{"X", "Y"} {
			co := e.bigField(st, p, t, n)
			op := []string{"ec.x", "ec.y"}[i]
			if co.op != "app" || co.s != op || co.a[0].op != "ecmul" || co.a[0].a[0] != params || co.a[0].a[1].op != "ecbase" || !st.sameNumber(co.a[0].a[2], leaf.vals[1]) {
				return n + " is not that of the scalar times the base point: " + co.str(5), false
			}
		}
		return "", true
	}
	return "unknown leaf", false
}

func keysEngine(c *Ctx) *Engine {
	e := x509Engine(c)
	e.noMerge, e.maxPaths, e.freezeElems = true, 4000, true
	return e
}

func checkParseEC(c *Ctx) {
	fn := c.P.fn("x509", "ParseECPrivateKey")
	if !c.oblige("anchor", "x509.ParseECPrivateKey", 0, fn != nil, "ParseECPrivateKey is not found") {
		return
	}
	ecT := bySchema(c, "x509", "ecPrivateKey", schemaECPriv)
	if ecT == nil {
		return
	}
	e := keysEngine(c)
	entry, args, outs, ok := c.analyseWith(e, fn, nil)
	if !ok {
		return
	}
	c.noPanic(e, fn, outs)
	der := e.seqOf(entry, args[0])
	v := asn1Val(ecT, "", der)
	root := []*specAlt{{
		conds: []*Term{asn1OK(asn1Schema(ecT), "", der), mkEqInt(fp(v, ecT, 0), tOne)},
		names: []string{"a well-formed ECPrivateKey", "version 1"},
		next:  ecKeyAlts(c, e, entry, ecT, v, fp(v, ecT, 2)),
	}}
	specCheck(c, fn, outs, root, errNil, func(st *State, o Outcome, leaf *specAlt) (string, bool) {
		return sameECKey(c, e, st, o.r(0), leaf)
	})
}

func checkParsePKCS8(c *Ctx) {
	fn, rsaFn := c.P.fn("x509", "ParsePKCS8PrivateKey"), c.P.fn("x509", "ParsePKCS1PrivateKey")
	if !c.oblige("anchor", "x509.ParsePKCS8PrivateKey", 0, fn != nil && rsaFn != nil, "ParsePKCS8PrivateKey or ParsePKCS1PrivateKey is not found") {
		return
	}
	ecT, p8T := bySchema(c, "x509", "ecPrivateKey", schemaECPriv), bySchema(c, "x509", "pkcs8", schemaPKCS8)
	if ecT == nil || p8T == nil {
		return
	}
	e := keysEngine(c)
	rsaOK := func(s *Term) *Term { return mk("rsapriv.ok", "", KBool, 0, s) }
	rsaT := rsaFn.Signature.Results().At(0).Type()
	e.hook(func(f *ssa.Function, st *State, args []*Term) []Outcome {
		if f != rsaFn {
			return nil
		}
		s := e.seqOf(st, args[0])
		return fork2(st, "ParsePKCS1PrivateKey", rsaOK(s), func(st *State) []*Term {
			x := mkTyped("rsapriv", "", rsaT, s)
			st.assume(bnot(mkIsNil(x)))
			return []*Term{x}
		}, 2)
	})
	entry, args, outs, ok := c.analyseWith(e, fn, nil)
	if !ok {
		return
	}
	c.noPanic(e, fn, outs)
	der := e.seqOf(entry, args[0])
	v := asn1Val(p8T, "", der)
	alg, key := fp(v, p8T, 1, 0), fp(v, p8T, 2)
	params := fp(v, p8T, 1, 1, 4)
	oidT := c.libType("encoding/asn1", "ObjectIdentifier")
	pOK := asn1OK(asn1Schema(oidT), "", params)
	pOID := specSeq(asn1Val(oidT, "", params))
	ev := asn1Val(ecT, "", key)
	ecConds := []*Term{asn1OK(asn1Schema(ecT), "", key), mkEqInt(fp(ev, ecT, 0), tOne)}
	ecNames := []string{"a well-formed ECPrivateKey inside", "version 1"}
	bt := types.NewSlice(types.Typ[types.Byte])
	seed := specSeq(asn1Val(bt, "", key))
	rsaLeaf := &specAlt{name: "RSA", disc: []*Term{mkEqSeq(alg, oidRSAKey)}, conds: []*Term{rsaOK(key)}, names: []string{"a valid RSA private key inside"}}
	edLeaf := &specAlt{name: "Ed25519", disc: []*Term{mkEqSeq(alg, oidEd25519Key)},
		conds: []*Term{mkEq0(seqLen(params)), asn1OK("[]byte", "", key), mkEqInt(seqLen(seed), ci(32))},
		names: []string{"no parameters", "an octet string inside", "a seed of 32 bytes"}}
	root := []*specAlt{{
		conds: []*Term{asn1OK(asn1Schema(p8T), "", der)}, names: []string{"a well-formed PrivateKeyInfo"},
		next: func() []*specAlt {
			return []*specAlt{rsaLeaf, edLeaf,
				{name: "EC, curve in the parameters", disc: []*Term{mkEqSeq(alg, oidECKey), pOK}, conds: ecConds, names: ecNames, next: ecKeyAlts(c, e, entry, ecT, ev, pOID)},
				{name: "EC, curve in the key", disc: []*Term{mkEqSeq(alg, oidECKey), bnot(pOK)}, conds: ecConds, names: ecNames, next: ecKeyAlts(c, e, entry, ecT, ev, fp(ev, ecT, 2))}}
		}}}
	specCheck(c, fn, outs, root, errNil, func(st *State, o Outcome, leaf *specAlt) (string, bool) {
		switch leaf {
		case rsaLeaf:
			if p := isType(o.r(0), rsaT); p == nil || st.norm(p) != st.norm(mkTyped("rsapriv", "", rsaT, key)) {
				return "the result is not the RSA key inside: " + o.r(0).str(4), false
			}
			return "", true
		case edLeaf:
			t := c.libType("crypto/ed25519", "PrivateKey")
			p := isType(o.r(0), t)
			if p == nil {
				return "the result is not an Ed25519 key: " + o.r(0).str(4), false
			}
			k := e.seqOf(st, p)
			if k.op != "app" || k.s != "crypto/ed25519.NewKeyFromSeed" || !sameSeq(st, specSeq(k.a[0]), seed) {
				return "the key is not that of the seed: " + k.str(5), false
			}
			return "", true
		}
		return sameECKey(c, e, st, o.r(0), leaf)
	})
}

func bigInt(s string) *Term {
	n, _ := new(big.Int).SetString(s, 10)
	return cbig(n)
}

func checkParsePKCS1Pub(c *Ctx) {
	fn := c.P.fn("x509", "ParsePKCS1PublicKey")
	if !c.oblige("anchor", "x509.ParsePKCS1PublicKey", 0, fn != nil, "ParsePKCS1PublicKey is not found") {
		return
	}
	T := bySchema(c, "x509", "pkcs1PublicKey", schemaRSAPub)
	if T == nil {
		return
	}
	e := keysEngine(c)
	entry, args, outs, ok := c.analyseWith(e, fn, nil)
	if !ok {
		return
	}
	c.noPanic(e, fn, outs)
	conds, v := strictDER(T, e.seqOf(entry, args[0]))
	n, ex := e.bigVal(entry, fp(v, T, 0)), fp(v, T, 1)
	root := []*specAlt{{conds: append(conds, mkGe0(iSub(n, tOne)), mkGe0(iSub(ex, tOne)), mkGe0(iSub(ci(1<<31-1), ex))),
		names: []string{"a well-formed RSAPublicKey", "nothing after it", "a positive modulus", "a positive exponent", "an exponent below 2^31"}}}
	specCheck(c, fn, outs, root, errNil, func(st *State, o Outcome, leaf *specAlt) (string, bool) {
		return sameRSAPub(e, st, o.r(0), fn.Signature.Results().At(0).Type(), n, ex)
	})
}

func sameRSAPub(e *Engine, st *State, p *Term, t types.Type, n, ex *Term) (string, bool) {
	if g := e.bigField(st, p, t, "N"); st.eval2(mkEqInt(g, n)) != tTrue {
		return "the modulus is not the one encoded: " + g.str(4), false
	}
	if g, _ := e.field(st, p, t, "E"); st.eval2(mkEqInt(g, ex)) != tTrue {
		return "the exponent is not the one encoded: " + g.str(4), false
	}
	return "", true
}

// rsaModels: validity of an RSA key is a predicate of its numbers, and Precompute changes none of them.
func rsaModels(c *Ctx, e *Engine) {
	t := types.NewPointer(c.libType("crypto/rsa", "PrivateKey"))
	e.models["(*crypto/rsa.PrivateKey).Validate"] = func(e *Engine, cc *callCtx) []Outcome {
		st, k := cc.st, cc.args[0]
		ex, _ := e.field(st, k, t, "E")
		ps, _ := e.field(st, k, t, "Primes")
		outs := forkOK(cc, rsaValid(e.bigField(st, k, t, "N"), ex, e.bigField(st, k, t, "D"), asMap(e.snap(st, ps))), func(*State) *Term { return tNil })
		for i, o := range outs {
			outs[i].res = o.res.a[1]
		}
		return outs
	}
	e.models["(*crypto/rsa.PrivateKey).Precompute"] = func(e *Engine, cc *callCtx) []Outcome {
		if cc.args[0].op == "ptr" {
			kt := t.Elem()
			v := e.load(cc.st, cc.args[0])
			if i := fieldIndex(kt, "Precomputed"); i >= 0 {
				pt := structType(kt).Field(i).Type()
				pre := rsaPre(e.snap(cc.st, v), pt)
				e.store(cc.st, cc.args[0], setFld(v, kt, i, pre))
				// the values for the Chinese remainder theorem: one for every prime but the first two
				crt, _ := e.field(cc.st, pre, pt, "CRTValues")
				ps, _ := e.field(cc.st, v, kt, "Primes")
				if n := seqLen(e.seqOf(cc.st, ps)); cc.st.eval2(mkGe0(iSub(n, ci(2)))) == tTrue {
					cc.st.assume(mkEqInt(iSub(n, ci(2)), seqLen(e.seqOf(cc.st, crt))))
				}
			}
		}
		return []Outcome{{st: cc.st, res: tNil}}
	}
}

func rsaPre(key *Term, t types.Type) *Term { return mkTyped("rsa.pre", "", t, key) }

// asMap: appending one element for every index lists the elements in order.
func asMap(x *Term) *Term {
	if x.op == "rep" && x.a[1].op == "list" && len(x.a[1].a) == 1 {
		return mkMapSeq(x.a[0], x.a[1].a[0], x.a[2])
	}
	if x.op == "cat" {
		na := make([]*Term, len(x.a))
		for i, y := range x.a {
			na[i] = asMap(y)
		}
		return seqCat(na...)
	}
	return x
}

func rsaValid(n, ex, d, primes *Term) *Term { return mk("rsa.valid", "", KBool, 0, n, ex, d, primes) }

func checkParsePKCS1(c *Ctx) {
	fn := c.P.fn("x509", "ParsePKCS1PrivateKey")
	if !c.oblige("anchor", "x509.ParsePKCS1PrivateKey", 0, fn != nil, "ParsePKCS1PrivateKey is not found") {
		return
	}
	T := bySchema(c, "x509", "pkcs1PrivateKey", schemaRSAPriv)
	if T == nil {
		return
	}
	e := keysEngine(c)
	rsaModels(c, e)
	entry, args, outs, ok := c.analyseWith(e, fn, nil)
	if !ok {
		return
	}
	c.noPanic(e, fn, outs)
	conds, v := strictDER(T, e.seqOf(entry, args[0]))
	num := func(i int) *Term { return e.bigVal(entry, fp(v, T, i)) }
	more := fp(v, T, 9)
	mt := structType(T).Field(9).Type().Underlying().(*types.Slice).Elem()
	b := bvar(more)
	prime := fp(seqSel(more, b), mt, 0)
	ptrT := structType(T).Field(4).Type()
	primes := e.snap(entry, seqCat(mkListT([]*Term{fp(v, T, 4), fp(v, T, 5)}, ptrT), mkMapSeq(b, prime, seqLen(more))))
	conds = append(conds, mkGe0(iSub(tOne, fp(v, T, 0))))
	names := []string{"a well-formed RSAPrivateKey", "nothing after it", "a version of at most 1"}
	for i, n := range map[int]string{1: "modulus", 3: "private exponent", 4: "first prime", 5: "second prime"} {
		conds, names = append(conds, mkGe0(iSub(num(i), tOne))), append(names, "a positive "+n)
	}
	conds = append(conds, mkForall(b, mkGe0(iSub(e.bigVal(entry, prime), tOne)), seqLen(more)), rsaValid(num(1), fp(v, T, 2), num(3), primes))
	names = append(names, "positive additional primes", "a valid key")
	root := []*specAlt{{conds: conds, names: names}}
	specCheck(c, fn, outs, root, errNil, func(st *State, o Outcome, leaf *specAlt) (string, bool) {
		t := fn.Signature.Results().At(0).Type()
		if d, ok := sameRSAPub(e, st, o.r(0), t, num(1), fp(v, T, 2)); !ok {
			return d, false
		}
		if d := e.bigField(st, o.r(0), t, "D"); st.eval2(mkEqInt(d, num(3))) != tTrue {
			return "the private exponent is not the one encoded: " + d.str(5), false
		}
		ps, _ := e.field(st, o.r(0), t, "Primes")
		if g := asMap(e.snap(st, ps)); !sameSeq(st, g, primes) {
			return "the primes are not those encoded: " + g.str(6), false
		}
		return "", true
	})
}

func checkParsePKIX(c *Ctx) {
	fn := c.P.fn("x509", "ParsePKIXPublicKey")
	if !c.oblige("anchor", "x509.ParsePKIXPublicKey", 0, fn != nil, "ParsePKIXPublicKey is not found") {
		return
	}
	T := bySchema(c, "x509", "publicKeyInfo", schemaSPKI)
	if T == nil {
		return
	}
	e := keysEngine(c)
	entry, args, outs, ok := c.analyseWith(e, fn, nil)
	if !ok {
		return
	}
	c.noPanic(e, fn, outs)
	conds, v := strictDER(T, e.seqOf(entry, args[0]))
	s := newSPKI(c, e, entry, T, v)
	root := []*specAlt{{conds: conds, names: []string{"a well-formed SubjectPublicKeyInfo", "nothing after it"}, next: s.alts}}
	specCheck(c, fn, outs, root, errNil, func(st *State, o Outcome, leaf *specAlt) (string, bool) { return s.same(st, o.r(0), leaf) })
}

// spki describes the public key in a SubjectPublicKeyInfo.
type spki struct {
	c                *Ctx
	e                *Engine
	st               *State
	alg, params, key *Term
	rsa, dsa, ed     *specAlt
	ec               map[*specAlt]namedCurve
	u                map[string]*Term
}

func cbTerm(op, name string, k Kind, s *Term, key ...*Term) *Term {
	switch op {
	case "cb.ok":
		return cbOK(name, s, key...)
	case "cb.rest":
		return cbRest(name, s, key...)
	case "cb.val":
		return cbVal(s)
	}
	panic(op)
}

func newSPKI(c *Ctx, e *Engine, st *State, T types.Type, v *Term) *spki {
	s := &spki{c: c, e: e, st: st, alg: fp(v, T, 1, 0), params: fp(v, T, 1, 1, 4), ec: map[*specAlt]namedCurve{}, u: map[string]*Term{}}
	bt := types.NewSlice(types.Typ[types.Byte])
	s.key = specSeq(mkTyped("app", "(encoding/asn1.BitString).RightAlign", bt, fp(v, T, 2)))
	return s
}

var (
	cbSeq = ci(48)
	cbBig = cbytes("*math/big.Int")
	cbInt = cbytes("*int")
)

// ints reads a SEQUENCE of integers at the start of s with cryptobyte.
func cbInts(s *Term, keys ...*Term) (conds []*Term, names []string, vals []*Term) {
	for i, k := range keys {
		name := fmt.Sprint("integer ", i+1)
		conds, names = append(conds, cbTerm("cb.ok", "Integer", KBool, s, k)), append(names, name)
		vals = append(vals, mk("cb.int", k.s, KInt, 0, s))
		s = cbTerm("cb.rest", "Integer", KSeq, s, k)
	}
	return
}

func positive(vals []*Term) (r []*Term) {
	for _, v := range vals {
		r = append(r, mkGe0(iSub(v, tOne)))
	}
	return
}

func (s *spki) alts() (alts []*specAlt) {
	names := []string{"positive numbers", "positive numbers", "positive numbers", "positive numbers"}
	{
		conds := []*Term{mkEqSeq(s.params, cbytes("\x05\x00")), cbTerm("cb.ok", "ASN1", KBool, s.key, cbSeq)}
		ic, in, vals := cbInts(cbTerm("cb.val", "ASN1", KSeq, s.key, cbSeq), cbBig, cbInt)
		s.rsa = &specAlt{name: "RSA", disc: []*Term{mkEqSeq(s.alg, oidRSAKey)}, conds: append(append(conds, ic...), positive(vals)...),
			names: append(append([]string{"NULL parameters", "a SEQUENCE"}, in...), names...), vals: vals}
	}
	{
		ic, in, vals := cbInts(s.key, cbBig)
		conds := append(ic, cbTerm("cb.ok", "ASN1", KBool, s.params, cbSeq))
		pc, pn, pv := cbInts(cbTerm("cb.val", "ASN1", KSeq, s.params, cbSeq), cbBig, cbBig, cbBig)
		vals = append(vals, pv...)
		s.dsa = &specAlt{name: "DSA", disc: []*Term{mkEqSeq(s.alg, oidDSAKey)}, conds: append(append(conds, pc...), positive(vals)...),
			names: append(append(append(in, "a SEQUENCE of parameters"), pn...), names...), vals: vals}
	}
	s.ed = &specAlt{name: "Ed25519", disc: []*Term{mkEqSeq(s.alg, oidEd25519Key)},
		conds: []*Term{mkEq0(seqLen(s.params)), mkEqInt(seqLen(s.key), ci(32))}, names: []string{"no parameters", "32 bytes"}}
	oidT := s.c.libType("encoding/asn1", "ObjectIdentifier")
	oid := specSeq(mkTyped("cb.get", "ReadASN1ObjectIdentifier", oidT, s.params))
	ec := &specAlt{name: "EC", disc: []*Term{mkEqSeq(s.alg, oidECKey)}, conds: []*Term{cbTerm("cb.ok", "ASN1ObjectIdentifier", KBool, s.params)}, names: []string{"an object identifier as parameters"},
		next: func() (alts []*specAlt) {
			for _, nc := range namedCurves {
				curve, _ := nc.term(s.e, s.st)
				u := s.unmarshal(curve)
				a := &specAlt{name: nc.name, disc: []*Term{mkEqSeq(oid, nc.oid)}, conds: []*Term{bnot(mkIsNil(u.a[0]))}, names: []string{"a point of the curve"}, vals: u.a}
				s.ec[a] = nc
				alts = append(alts, a)
			}
			return
		}}
	return []*specAlt{s.rsa, s.dsa, s.ed, ec}
}

// unmarshal is elliptic.Unmarshal of the key on the curve, as a pair.
func (s *spki) unmarshal(curve *Term) *Term {
	bp := types.NewPointer(s.c.libType("math/big", "Int"))
	v := types.NewTuple(types.NewVar(0, nil, "", bp), types.NewVar(0, nil, "", bp))
	return mkTyped("app", "crypto/elliptic.Unmarshal", v, curve, s.key)
}

func (s *spki) same(st *State, x *Term, leaf *specAlt) (string, bool) {
	e, c := s.e, s.c
	ptr := func(t types.Type) (*Term, types.Type, string) {
		t = types.NewPointer(t)
		p := isType(x, t)
		return p, t, fmt.Sprint("the result is not a ", tstr(t), ": ", x.str(3))
	}
	num := func(p *Term, t types.Type, name string, want *Term) (string, bool) {
		if g := e.bigField(st, p, t, name); st.eval2(mkEqInt(g, want)) != tTrue {
			return name + " is not the one encoded: " + g.str(5), false
		}
		return "", true
	}
	switch leaf {
	case s.rsa:
		p, t, d := ptr(c.libType("crypto/rsa", "PublicKey"))
		if p == nil {
			return d, false
		}
		return sameRSAPub(e, st, p, t, leaf.vals[0], leaf.vals[1])
	case s.dsa:
		p, t, d := ptr(c.libType("crypto/dsa", "PublicKey"))
		if p == nil {
			return d, false
		}
		for i, n := range []string{"Y", "P", "Q", "G"} {
			if d, ok := num(p, t, n, leaf.vals[i]); !ok {
				return d, false
			}
		}
		return "", true
	case s.ed:
		p := isType(x, c.libType("crypto/ed25519", "PublicKey"))
		if p == nil {
			return "the result is not an Ed25519 key: " + x.str(3), false
		}
		return "the key is not the one encoded: " + e.seqOf(st, p).str(5), sameSeq(st, e.seqOf(st, p), s.key)
	}
	nc := s.ec[leaf]
	t := c.libType("crypto/ecdsa", "PublicKey")
	if nc.sm2 {
		t = c.P.pkgs["sm2"].Pkg.Scope().Lookup("PublicKey").Type()
	}
	p, t, d := ptr(t)
	if p == nil {
		return d, false
	}
	curve, _ := nc.term(e, st)
	got, _ := e.field(st, p, t, "Curve")
	if got == nil || st.norm(e.snap(st, got)) != st.norm(curve) {
		return "the curve of the key is not the one named", false
	}
	for i, n := range []string{"X", "Y"} {
		if d, ok := num(p, t, n, e.bigVal(st, leaf.vals[i])); !ok {
			return d, false
		}
	}
	return "", true
}

func init() {
	tr := []string{"the standard library and golang.org/x/crypto behave as documented", "golang.org/x/tools/go/ssa"}
	addCheck(&Check{id: "C27", rule: "abstract interpretation of the key parsers against the specified decision trees and results", run: func(c *Ctx) {
		checkParseEC(c)
		checkParsePKCS8(c)
		checkParsePKCS1(c)
		checkParsePKCS1Pub(c)
		checkParsePKIX(c)
	}, trusted: tr})
}
