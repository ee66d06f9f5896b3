package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// p12Engine prepares an engine for package pkcs12; with summaries, key derivation and RC2 are uninterpreted functions
// (decided by their own properties).
func p12Engine(c *Ctx, summaries bool) *Engine {
	e := newEngine(c.P)
	e.local = map[string]bool{modPath + "/sm3.New": true, modPath + "/sm3.Sum": true}
	if !p12Ready {
		e.initPackages("sm3", "sm2", "x509", "pkcs12")
		p12Ready = true
	}
	specEng = e
	if summaries {
		e.callHook = p12Hook(c, e)
	}
	return e
}

var p12Ready bool

// pbkdfFn finds the key derivation: by name, else by its unique signature.
func pbkdfFn(p *Program) *ssa.Function {
	if f := p.fn("pkcs12", "pbkdf"); f != nil {
		return f
	}
	var found *ssa.Function
	for _, f := range p.allFuncs() {
		if f.Pkg == nil || f.Pkg != p.pkgs["pkcs12"] || f.Signature.Recv() != nil {
			continue
		}
		ps := f.Signature.Params()
		if ps.Len() == 8 && f.Signature.Results().Len() == 1 {
			if _, ok := ps.At(0).Type().Underlying().(*types.Signature); ok {
				if found != nil {
					return nil
				}
				found = f
			}
		}
	}
	return found
}

// hashName identifies a hash function value by what it computes.
func (e *Engine) hashName(st *State, f *Term) *Term {
	if f.op == "fn" && f.fn != nil {
		in := mkT("sym", "hashin", KSeq, 0, types.Typ[types.Byte])
		s := st.clone()
		a := e.newSlice(s, "hashin", in)
		outs := e.call(s, f.fn, []*Term{a}, f.a)
		if len(outs) == 1 && !outs[0].panic {
			r := e.seqOf(outs[0].st, outs[0].res)
			for _, alg := range []string{"sha1", "sha256", "sm3"} {
				if r == mkHash(cbytes(alg), nil, in) {
					return cbytes(alg)
				}
			}
		}
	}
	return f
}

func pbkdfTerm(hash, u, v, salt, pw, r, id, size *Term) *Term {
	return mk("fixed", "pbkdf", KSeq, 0, size, mk("pbkdf", "", KSeq, 0, hash, u, v, salt, pw, r, id))
}

func p12Hook(c *Ctx, e *Engine) func(fn *ssa.Function, st *State, args []*Term) []Outcome {
	pb := pbkdfFn(c.P)
	rc := c.P.fn("pkcs12", "New")
	return func(fn *ssa.Function, st *State, args []*Term) []Outcome {
		switch fn {
		case pb:
			t := pbkdfTerm(e.hashName(st, args[0]), args[1], args[2], e.seqOf(st, args[3]), e.seqOf(st, args[4]), args[5], args[6], args[7])
			return []Outcome{{st: st, res: e.newSlice(st, "pbkdf", t)}}
		case rc:
			key, t1 := e.seqOf(st, args[0]), args[1]
			ok := mkAnd(mkGe0(iSub(seqLen(key), tOne)), mkGe0(iSub(ci(128), seqLen(key))), mkGe0(iSub(t1, tOne)), mkGe0(iSub(ci(1024), t1)))
			cc := &callCtx{st: st, name: "pkcs12.New"}
			return forkOK(cc, ok, func(st *State) *Term { return mk("blockobj", "rc2", KVal, 0, key, t1) })
		}
		return nil
	}
}

// fp follows struct field positions.
func fp(t *Term, T types.Type, idx ...int) *Term {
	for _, i := range idx {
		t, T = fld(t, T, i), structType(T).Field(i).Type()
	}
	if _, ok := T.Underlying().(*types.Slice); ok {
		// the contents of the slice as first seen
		return specSeq(t)
	}
	return t
}

// specSeq reads the contents of a slice value in a state where nothing has been written to it.
func specSeq(t *Term) *Term {
	return specEng.seqOf(newState(), t)
}

var specEng *Engine

// bySchema finds a named type of a package: by name, else the one that is encoded the same way.
func bySchema(c *Ctx, pkg, name, schema string) types.Type {
	sc := c.P.pkgs[pkg].Pkg.Scope()
	if o, ok := sc.Lookup(name).(*types.TypeName); ok && asn1Schema(o.Type()) == schema {
		return o.Type()
	}
	for _, n := range sc.Names() {
		if o, ok := sc.Lookup(n).(*types.TypeName); ok && asn1Schema(o.Type()) == schema {
			return o.Type()
		}
	}
	c.oblige("anchor", pkg+"."+name, 0, false, "no type of the form %s", schema)
	return nil
}

// fnBySig finds a function of a package by name, else the only one with that signature.
func fnBySig(c *Ctx, pkg, name, sig string) *ssa.Function {
	show := func(f *ssa.Function) string {
		return types.TypeString(types.NewSignatureType(nil, nil, nil, anon(f.Signature.Params()), anon(f.Signature.Results()), f.Signature.Variadic()), func(p *types.Package) string {
			if p == f.Pkg.Pkg {
				return ""
			}
			return p.Name()
		})
	}
	f := c.P.fn(pkg, name)
	if f != nil && show(f) == sig {
		return f
	}
	var found *ssa.Function
	for _, g := range c.P.allFuncs() {
		if g.Pkg == c.P.pkgs[pkg] && g.Signature.Recv() == nil && g.Parent() == nil && show(g) == sig {
			if found != nil {
				c.oblige("anchor", pkg+"."+name, 0, false, "no function %s, and several with signature %s", name, sig)
				return nil
			}
			found = g
		}
	}
	if found == nil {
		c.oblige("anchor", pkg+"."+name, 0, false, "no function %s with signature %s", name, sig)
	}
	return found
}

func anon(t *types.Tuple) *types.Tuple {
	var vs []*types.Var
	for i := 0; i < t.Len(); i++ {
		vs = append(vs, types.NewParam(0, nil, "", t.At(i).Type()))
	}
	return types.NewTuple(vs...)
}

const (
	schemaAlg   = "{ObjectIdentifier;RawValue optional}"
	schemaCI    = "{ObjectIdentifier;RawValue tag:0,explicit,optional}"
	schemaPfx   = "{int;" + schemaCI + ";{{" + schemaAlg + ";[]byte};[]byte;int optional,default:1} optional}"
	schemaECI   = "{ObjectIdentifier;" + schemaAlg + ";[]byte tag:0,optional}"
	schemaED    = "{int;" + schemaECI + "}"
	schemaAttr  = "{ObjectIdentifier;RawValue set}"
	schemaBag   = "{ObjectIdentifier;RawValue tag:0,explicit;[]" + schemaAttr + " set,optional}"
	schemaEPKI  = "{" + schemaAlg + ";[]byte}"
	schemaPBE   = "{[]byte;int}"
	schemaCBag  = "{ObjectIdentifier;[]byte tag:0,explicit}"
	schemaOctet = "[]byte"
)

var (
	oid3DES      = oidTerm(1, 2, 840, 113549, 1, 12, 1, 3)
	oidRC2       = oidTerm(1, 2, 840, 113549, 1, 12, 1, 6)
	oidData      = oidTerm(1, 2, 840, 113549, 1, 7, 1)
	oidEncrypted = oidTerm(1, 2, 840, 113549, 1, 7, 6)
	oidSHA1T     = oidTerm(1, 3, 14, 3, 2, 26)
)

func oidTerm(n ...int64) *Term {
	var el []*Term
	for _, x := range n {
		el = append(el, ci(x))
	}
	return mkList(el, false)
}

// strictDER: s is exactly one value of the type, and that value.
func strictDER(t types.Type, s *Term) (conds []*Term, v *Term) {
	sch := asn1Schema(t)
	v = asn1Val(t, "", s)
	if _, ok := t.Underlying().(*types.Slice); ok {
		v = specSeq(v)
	}
	return []*Term{asn1OK(sch, "", s), mkEq0(seqLen(asn1Rest(sch, "", s)))}, v
}

func pbeSecret(salt, pw, iter *Term, id, size int64) *Term {
	return pbkdfTerm(cbytes("sha1"), ci(20), ci(64), salt, pw, iter, ci(id), ci(size))
}

func pbeBlock(alg string, key *Term) *Term {
	if alg == "rc2" {
		return mk("blockobj", "rc2", KVal, 0, key, iScale(seqLen(key), 8))
	}
	return mk("blockobj", alg, KVal, 0, key)
}

// pbeCase is one way of protecting data: the conditions, their names and the value.
type pbeCase struct {
	name  string
	conds []*Term
	names []string
	val   *Term
}

var pbeAlgs = []struct {
	name string
	oid  *Term
	size int64
}{{"3des", oid3DES, 24}, {"rc2", oidRC2, 5}}

// pbeDecrypt specifies password-based decryption: algorithm identifier (a term of type pkix.AlgorithmIdentifier), data and password.
func pbeDecrypt(pbeT types.Type, oid, params, data, pw *Term) (r []pbeCase) {
	for _, a := range pbeAlgs {
		cs, p := strictDER(pbeT, params)
		salt, iter := fp(p, pbeT, 0), fp(p, pbeT, 1)
		key, iv := pbeSecret(salt, pw, iter, 1, a.size), pbeSecret(salt, pw, iter, 2, 8)
		n := seqLen(data)
		dec := mk("fixed", "cbc", KSeq, 0, n, mk("cbc", "dec", KSeq, 0, pbeBlock(a.name, key), iv, data))
		ps := seqSel(dec, iSub(n, tOne))
		cut := iSub(n, ps)
		r = append(r, pbeCase{
			name: a.name,
			conds: append([]*Term{mkEqSeq(oid, a.oid)}, append(cs,
				mkGe0(iSub(n, tOne)), mkEq0(mkWrap(3, n)),
				mkGe0(iSub(ps, tOne)), mkGe0(iSub(ci(8), ps)), mkGe0(iSub(n, ps)),
				mkEqSeq(seqSubC(dec, cut, n, constCmp), mkFill(ps, ps)))...),
			names: []string{"the algorithm identifier", "well-formed parameters", "nothing after the parameters", "some data", "whole blocks", "padding length at least 1", "padding length at most 8", "padding inside the data", "padding bytes all equal to the padding length"},
			val:   seqSubC(dec, tZero, cut, constCmp),
		})
	}
	return
}

func checkPBE(c *Ctx) {
	pbeT := bySchema(c, "pkcs12", "pbeParams", schemaPBE)
	dec := fnBySig(c, "pkcs12", "pbDecrypt", "func(decryptable, []byte) ([]byte, error)")
	enc := fnBySig(c, "pkcs12", "pbEncrypt", "func(encryptable, []byte, []byte) error")
	if pbeT == nil || dec == nil || enc == nil {
		return
	}
	for _, k := range []struct {
		name, schema string
		alg, data    int
	}{{"encryptedContentInfo", schemaECI, 1, 2}, {"encryptedPrivateKeyInfo", schemaEPKI, 0, 1}} {
		t := bySchema(c, "pkcs12", k.name, k.schema)
		if t == nil {
			return
		}
		algT := structType(t).Field(k.alg).Type()
		for _, ptr := range []bool{false, true} {
			e := p12Engine(c, true)
			var val *Term
			entry, args, outs, ok := c.analyseWith(e, dec, func(st *State, a []*Term) []*Term {
				val = mkTyped("sym", "info", t)
				x, xt := val, t
				if ptr {
					x, xt = e.newPtr(st, "info", val), types.NewPointer(t)
				}
				return []*Term{mkT("iface", tstr(xt), KVal, 0, xt, x), a[1]}
			})
			if !ok {
				return
			}
			c.noPanic(e, dec, outs)
			pw := e.seqOf(entry, args[1])
			alg := fld(val, t, k.alg)
			root := []*specAlt{}
			for _, p := range pbeDecrypt(pbeT, fp(alg, algT, 0), fp(alg, algT, 1, 4), fp(val, t, k.data), pw) {
				root = append(root, &specAlt{name: k.name + " " + p.name, disc: p.conds[:1], conds: p.conds[1:], names: p.names[1:], vals: []*Term{p.val}})
			}
			specCheck(c, dec, outs, root, errNil, func(st *State, o Outcome, leaf *specAlt) (string, bool) {
				got := e.seqOf(o.st, o.r(0))
				return "plaintext is not the unpadded CBC decryption: " + firstDiff(got, leaf.vals[0]), sameSeq(st, got, leaf.vals[0])
			})
			if bad := c.global("pkcs12", "ErrDecryption"); bad != nil {
				for _, b := range splitBool(outs, errNil) {
					for _, a := range root {
						if s := b.st.clone(); !b.val {
							ok := true
							for _, f := range append(append([]*Term{}, a.disc...), a.conds[:4]...) {
								if s.eval2(f) == tFalse || !s.assume(f) {
									ok = false
									break
								}
							}
							if ok && !refuted(s, 0) {
								c.oblige("wrong padding is reported as ErrDecryption", short(dec), atPos(b.o), b.o.r(1) == bad, "the error is %s", clip(b.o.r(1).str(4), 200))
							}
						}
					}
				}
			}
			for _, b := range splitBool(outs, errNil) {
				if !b.val {
					c.oblige("a failed decryption returns no data", short(dec), atPos(b.o), holds(b.st, mkEq0(e.lenOf(b.o.st, b.o.r(0)))), "data is returned together with an error")
				}
			}
		}
		// encryption
		e := p12Engine(c, true)
		val := mkTyped("sym", "info", t)
		var cell *Term
		entry, args, outs, ok := c.analyseWith(e, enc, func(st *State, a []*Term) []*Term {
			cell = e.newPtr(st, "info", val)
			e.pinned = []*Term{cell}
			xt := types.NewPointer(t)
			return []*Term{mkT("iface", tstr(xt), KVal, 0, xt, cell), a[1], a[2]}
		})
		if !ok {
			return
		}
		c.noPanic(e, enc, outs)
		msg, pw := e.seqOf(entry, args[1]), e.seqOf(entry, args[2])
		alg := fld(val, t, k.alg)
		var root []*specAlt
		for _, a := range pbeAlgs {
			cs, p := strictDER(pbeT, fp(alg, algT, 1, 4))
			root = append(root, &specAlt{name: k.name + " " + a.name, disc: []*Term{mkEqSeq(fp(alg, algT, 0), a.oid)}, conds: cs,
				names: []string{"well-formed parameters", "nothing after the parameters"},
				vals:  []*Term{pbeEncrypt(a.name, a.size, fp(p, pbeT, 0), fp(p, pbeT, 1), msg, pw)}})
		}
		specCheck(c, enc, outs, root, errNil, func(st *State, o Outcome, leaf *specAlt) (string, bool) {
			got := e.load(o.st, cell)
			want := setFld(val, t, k.data, got)
			_ = want
			d := e.seqOf(o.st, fld(got, t, k.data))
			if !sameSeq(st, d, leaf.vals[0]) {
				return "ciphertext is not the CBC encryption of the padded data: " + firstDiff(d, leaf.vals[0]), false
			}
			for i := 0; i < structType(t).NumFields(); i++ {
				if i != k.data && fld(got, t, i) != fld(val, t, i) {
					return "field " + structType(t).Field(i).Name() + " changes", false
				}
			}
			return "", true
		})
	}
}

// pbeEncrypt is the PKCS #12 password-based encryption of msg.
func pbeEncrypt(alg string, size int64, salt, iter, msg, pw *Term) *Term {
	ps := iSub(ci(8), mkWrap(3, seqLen(msg)))
	in := seqCat(msg, mkFill(ps, ps))
	return mk("fixed", "cbc", KSeq, 0, seqLen(in), mk("cbc", "enc", KSeq, 0, pbeBlock(alg, pbeSecret(salt, pw, iter, 1, size)), pbeSecret(salt, pw, iter, 2, 8), in))
}

// sameSeq: the two byte sequences are equal in st.
func sameSeq(st *State, x, y *Term) bool {
	return x == y || st.norm(x) == st.norm(y) || seqSame(st, x, y)
}

func checkMACGate(c *Ctx) {
	fn := fnBySig(c, "pkcs12", "getSafeContents", "func([]byte, []byte) ([]safeBag, []byte, error)")
	pfxT := bySchema(c, "pkcs12", "pfxPdu", schemaPfx)
	ciT := bySchema(c, "pkcs12", "contentInfo", schemaCI)
	edT := bySchema(c, "pkcs12", "encryptedData", schemaED)
	bagT := bySchema(c, "pkcs12", "safeBag", schemaBag)
	pbeT := bySchema(c, "pkcs12", "pbeParams", schemaPBE)
	if fn == nil || pfxT == nil || ciT == nil || edT == nil || bagT == nil || pbeT == nil {
		return
	}
	e := p12Engine(c, true)
	entry, args, outs, ok := c.analyse(e, fn)
	if !ok {
		return
	}
	c.noPanic(e, fn, outs)
	p12, pw := e.seqOf(entry, args[0]), e.seqOf(entry, args[1])
	root := safeSpec(pfxT, ciT, edT, bagT, pbeT, p12, pw)
	specCheck(c, fn, outs, root, errNil, func(st *State, o Outcome, leaf *specAlt) (string, bool) {
		got := e.seqOf(o.st, o.r(0))
		if !sameSeq(st, got, leaf.vals[0]) {
			return "the bags are not those of the two safes in order: " + firstDiff(got, leaf.vals[0]), false
		}
		return "the password handed on is not the one the MAC was verified with", sameSeq(st, e.seqOf(o.st, o.r(1)), leaf.vals[1])
	})
	bad := c.global("pkcs12", "ErrIncorrectPassword")
	m0, m1 := macTerm(pfxT, ciT, p12, pw), macTerm(pfxT, ciT, p12, tEmpty)
	for _, b := range splitBool(outs, errNil) {
		if b.val || bad == nil {
			continue
		}
		s := b.st.clone()
		ok := true
		for _, f := range append(append([]*Term{}, root[0].conds...), bnot(m0), bnot(mkAnd(emptyPassword(pw), m1))) {
			if s.eval2(f) == tFalse || !s.assume(f) {
				ok = false
				break
			}
		}
		if ok && !refuted(s, 0) {
			got := b.o.r(2)
			c.oblige("a wrong password is reported as ErrIncorrectPassword", short(fn), atPos(b.o), got == bad, "the error is %s", clip(got.str(4), 200))
		}
	}
	for _, b := range splitBool(outs, errNil) {
		if !b.val {
			c.oblige("a failure releases no bags", short(fn), atPos(b.o), holds(b.st, mkEq0(e.lenOf(b.o.st, b.o.r(0)))), "bags are returned together with an error")
		}
	}
}

// emptyPassword: pw is the BMP encoding of the empty string.
func emptyPassword(pw *Term) *Term {
	return mkAnd(mkEq0(iSub(seqLen(pw), ci(2))), mkEq0(seqSel(pw, ci(0))), mkEq0(seqSel(pw, ci(1))))
}

// macTerm: the digest in the PFX is the HMAC-SHA1 of the content under the key derived from pw.
func macTerm(pfxT, ciT types.Type, p12, pw *Term) *Term {
	_, pfx := strictDER(pfxT, p12)
	authT := structType(pfxT).Field(1).Type()
	rawT := structType(ciT).Field(1).Type()
	_, inner := strictDER(rawT, fp(fp(pfx, pfxT, 1), authT, 1, 3))
	salt, iter := fp(pfx, pfxT, 2, 1), fp(pfx, pfxT, 2, 2)
	key := pbkdfTerm(cbytes("sha1"), ci(20), ci(64), salt, pw, iter, ci(3), ci(20))
	return mkEqSeq(fp(pfx, pfxT, 2, 0, 1), mk("fixed", "hmac", KSeq, 0, ci(20), mk("hmac", "", KSeq, 0, cbytes("sha1"), key, fp(inner, rawT, 3))))
}

func safeSpec(pfxT, ciT, edT, bagT, pbeT types.Type, p12, pw *Term) []*specAlt {
	cs, pfx := strictDER(pfxT, p12)
	authT := structType(pfxT).Field(1).Type()
	rawT := structType(ciT).Field(1).Type()
	auth := fp(pfx, pfxT, 1)
	cs2, inner := strictDER(rawT, fp(auth, authT, 1, 3))
	content := fp(inner, rawT, 3)
	macOID := fp(pfx, pfxT, 2, 0, 0, 0)
	mac := func(pw *Term) *Term { return macTerm(pfxT, ciT, p12, pw) }
	safesT := types.NewSlice(ciT)
	cs3, safes := strictDER(safesT, content)
	bagsT := types.NewSlice(bagT)
	var elem func(i int64, pw, acc *Term) []*specAlt
	elem = func(i int64, pw, acc *Term) []*specAlt {
		if i == 2 {
			return []*specAlt{{vals: []*Term{acc, pw}}}
		}
		el := seqSel(safes, ci(i))
		typ, raw := fp(el, ciT, 0), fp(el, ciT, 1, 3)
		finish := func(data *Term) ([]*Term, func() []*specAlt) {
			b, bags := strictDER(bagsT, data)
			return b, func() []*specAlt { return elem(i+1, pw, seqCat(acc, bags)) }
		}
		bagNames := []string{"well-formed bags", "nothing after the bags"}
		octT := types.NewSlice(types.Typ[types.Byte])
		dc, data := strictDER(octT, raw)
		bc, next := finish(data)
		r := []*specAlt{{name: "plain safe", disc: []*Term{mkEqSeq(typ, oidData)}, conds: append(dc, bc...), names: append([]string{"an octet string", "nothing after it"}, bagNames...), next: next}}
		ec, ed := strictDER(edT, raw)
		eciT := structType(edT).Field(1).Type()
		algT := structType(eciT).Field(1).Type()
		alg := fp(ed, edT, 1, 1)
		for _, p := range pbeDecrypt(pbeT, fp(alg, algT, 0), fp(alg, algT, 1, 4), fp(ed, edT, 1, 2), pw) {
			bc, next := finish(p.val)
			conds := append(append(append([]*Term{}, ec...), mkEq0(fp(ed, edT, 0))), p.conds...)
			names := append(append([]string{"well-formed encryptedData", "nothing after it", "version 0"}, p.names...), bagNames...)
			r = append(r, &specAlt{name: "safe encrypted with " + p.name, disc: []*Term{bnot(mkEqSeq(typ, oidData)), mkEqSeq(typ, oidEncrypted), p.conds[0]}, conds: append(conds, bc...), names: names, next: next})
		}
		return r
	}
	conds := append(cs, mkEq0(iSub(fp(pfx, pfxT, 0), ci(3))), mkEqSeq(fp(auth, authT, 0), oidData))
	conds = append(conds, cs2...)
	conds = append(conds, bnot(mkEq0(seqLen(macOID))), mkEqSeq(macOID, oidSHA1T))
	names := []string{"a well-formed PFX", "nothing after the PFX", "version 3", "a password-protected (data) AuthenticatedSafe", "a well-formed content", "nothing after the content", "a MAC", "the HMAC-SHA1 algorithm"}
	after := func(pw *Term) func() []*specAlt {
		return func() []*specAlt {
			return []*specAlt{{conds: append(append([]*Term{}, cs3...), mkEq0(iSub(seqLen(safes), ci(2)))),
				names: []string{"a well-formed AuthenticatedSafe", "nothing after it", "exactly two safes"}, next: func() []*specAlt { return elem(0, pw, tEmpty) }}}
		}
	}
	empty := emptyPassword(pw)
	return []*specAlt{{conds: conds, names: names, next: func() []*specAlt {
		return []*specAlt{
			{name: "MAC verifies", disc: []*Term{mac(pw)}, next: after(pw)},
			{name: "MAC verifies with the empty spelling", disc: []*Term{bnot(mac(pw)), empty, mac(tEmpty)}, next: after(tEmpty)},
		}
	}}}
}

func checkKDF(c *Ctx) {
	fn := pbkdfFn(c.P)
	if !c.oblige("anchor", "pkcs12.pbkdf", 0, fn != nil, "the key derivation function is not found") {
		return
	}
	// the hash function handed in by the callers of the key derivation
	n := 0
	var hash *ssa.Function
	for _, f := range c.P.allFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok || call.Common().StaticCallee() != fn {
					continue
				}
				n++
				h := "unknown"
				if g, ok := call.Common().Args[0].(*ssa.Function); ok {
					hash = g
					e := p12Engine(c, false)
					if t := e.hashName(newState(), fnTerm(g)); t.op == "bytes" {
						h = t.s
					}
				}
				u, _ := call.Common().Args[1].(*ssa.Const)
				v, _ := call.Common().Args[2].(*ssa.Const)
				good := h == "sha1" && u != nil && v != nil && u.Int64() == 20 && v.Int64() == 64
				c.oblige("the key derivation is used with SHA-1 and its sizes 20 and 64", short(f), in.Pos(), good, "hash %s", h)
			}
		}
	}
	if !c.oblige("call sites", short(fn), fn.Pos(), n > 0 && hash != nil, "the key derivation is never called with a named hash function") {
		return
	}
	for _, size := range []int64{5, 8, 20, 24} {
		for _, any := range []bool{true, false} {
			e := p12Engine(c, false)
			e.iterForms = true
			entry, args, outs, ok := c.analyseWith(e, fn, func(st *State, a []*Term) []*Term {
				a[0] = fnTerm(hash)
				a[1], a[2], a[7] = ci(20), ci(64), ci(size)
				if !any {
					st.assume(mkGe0(iSub(a[5], tOne)))
				}
				return a
			})
			if !ok {
				return
			}
			if any {
				c.noPanic(e, fn, outs)
				continue
			}
			salt, pw := e.seqOf(entry, args[3]), e.seqOf(entry, args[4])
			for _, o := range outs {
				if o.panic {
					continue
				}
				var sp []*Term
				known := true
				for _, x := range []*Term{salt, pw} {
					empty := mkEq0(seqLen(x))
					switch {
					case holds(o.st, empty):
						sp = append(sp, tEmpty)
					case contradictory(o.st, empty):
						sp = append(sp, mkCyc(x, iScale(iFdiv(iAdd(seqLen(x), ci(63)), ci(64)), 64)))
					default:
						known = false
					}
				}
				where := fmt.Sprintf("%s, %d bytes", short(fn), size)
				if !c.oblige("empty and non-empty salts and passwords are told apart", where, atPos(o), known, "") {
					continue
				}
				want := kdfTerm(args[6], seqCat(sp...), args[5], size)
				got := e.seqOf(o.st, o.r(0))
				c.oblige("derived bytes are those of RFC 7292 appendix B.2", where, atPos(o), sameSeq(o.st, got, want), "%s", firstDiff(got, want))
			}
		}
	}
}

// kdfTerm is the RFC 7292 appendix B.2 derivation with SHA-1 of size bytes from I = S||P.
func kdfTerm(id, in, r *Term, size int64) *Term {
	h := func(x *Term) *Term { return mkHash(cbytes("sha1"), nil, x) }
	b := seqVar(tEmpty, types.Typ[types.Byte])
	var out []*Term
	for n := int64(0); n < size; n += 20 {
		if n > 0 {
			last := out[len(out)-1]
			B := seqCat(last, last, last, seqSubC(last, tZero, ci(4), constCmp))
			body := mkBE(64, iAdd(iAdd(os2ip(seqVar(B, types.Typ[types.Byte])), os2ip(B)), tOne))
			in = mkBlkmap(in, tZero, ci(64), seqVar(B, types.Typ[types.Byte]), body, iFdiv(seqLen(in), ci(64)))
		}
		out = append(out, mkIter(b, h(b), iSub(r, tOne), h(seqCat(mkList(copies(id, 64), true), in))))
	}
	return seqSubC(seqCat(out...), tZero, ci(size), constCmp)
}

func init() {
	addCheck(&Check{id: "C11", rule: "abstract interpretation of the key derivation for each key size in use; loop summaries with iterated-function and block-update closed forms, compared with the RFC 7292 appendix B.2 formula", run: checkKDF})
	addCheck(&Check{id: "C10", rule: "abstract interpretation of the PFX reader: every return path against the decision tree of the PKCS #12 integrity check and content types", run: checkMACGate})
	addCheck(&Check{id: "C12", rule: "abstract interpretation of password-based encryption and decryption: every return path against the CBC/padding formula", run: checkPBE})
}

// global is the value of an exported package variable after initialisation.
func (c *Ctx) global(pkg, name string) *Term {
	g, _ := c.P.pkgs[pkg].Members[name].(*ssa.Global)
	if !c.oblige("anchor", pkg+"."+name, 0, g != nil, "exported variable not found") {
		return nil
	}
	return specEng.load(newState(), globalPtr(g))
}
