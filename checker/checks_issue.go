package main

import (
	"encoding/asn1"
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// issue analyses the functions that sign certificates, requests and revocation lists.
type issue struct {
	c *Ctx
	e *Engine
	// the signer: its public key
	pub                *Term
	entry              *State
	pubT               types.Type
	certT, reqT, listT types.Type
	lastTBS            *Term
	kd                 *signerKind
	a                  sigAlg
}

type signerKind struct {
	name, key, def string
	curve          *namedCurve
	t              types.Type
}

var (
	signOK = mk("sign.ok", "", KBool, 0)
	extOK  = mk("ext.ok", "", KBool, 0)
)

func sigAlgByName(n string) sigAlg {
	for _, a := range sigAlgs {
		if a.name == n {
			return a
		}
	}
	panic(n)
}

// pssParams is the encoding of the RSA-PSS parameters for a hash, with NULL parameters of the hashes, MGF1 and a salt of the length of the hash.
func pssParams(hash string) *Term {
	oid := map[string]asn1.ObjectIdentifier{"sha256": {2, 16, 840, 1, 101, 3, 4, 2, 1}, "sha384": {2, 16, 840, 1, 101, 3, 4, 2, 2}, "sha512": {2, 16, 840, 1, 101, 3, 4, 2, 3}}[hash]
	type ai struct {
		Algorithm  asn1.ObjectIdentifier
		Parameters asn1.RawValue
	}
	h := ai{oid, asn1.NullRawValue}
	hb, _ := asn1.Marshal(h)
	b, _ := asn1.Marshal(struct {
		Hash ai  `asn1:"explicit,tag:0"`
		MGF  ai  `asn1:"explicit,tag:1"`
		Salt int `asn1:"explicit,tag:2"`
	}{h, ai{asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 1, 8}, asn1.RawValue{FullBytes: hb}}, hashSize(hash)})
	return cbytes(string(b))
}

func newIssue(c *Ctx) *issue {
	e := keysEngine(c)
	k := &issue{c: c, e: e}
	noMarshalErrors(e)
	checksigHook(c, e)
	e.models["crypto/elliptic.Marshal"] = ecPointModel
	builders := c.extBuilders("Certificate", "bool", "[]byte", "[]byte")
	for f := range c.extBuilders("CertificateRequest") {
		builders[f] = true
	}
	e.hook(func(f *ssa.Function, st *State, args []*Term) []Outcome {
		if !builders[f] {
			return nil
		}
		r := f.Signature.Results()
		var as []*Term
		for i, a := range args {
			if tstr(f.Params[i].Type()) == "[]byte" {
				a = e.seqOf(st, a)
			}
			as = append(as, e.snap(st, a))
		}
		return fork2(st, "extensions", extOK, func(st *State) []*Term {
			return []*Term{mkTyped("ext", "", r.At(0).Type(), as...)}
		}, 2)
	})
	equal := func(st *State, x, y *Term) *Term { return mk("key.equal", "", KBool, 0, e.snap(st, x), e.snap(st, y)) }
	for _, n := range []string{"(*crypto/rsa.PublicKey).Equal", "(*crypto/ecdsa.PublicKey).Equal", "(crypto/ed25519.PublicKey).Equal"} {
		e.models[n] = func(e *Engine, cc *callCtx) []Outcome { return ret(cc, equal(cc.st, cc.args[0], cc.args[1])) }
	}
	sm2Equal := c.P.fn("sm2", "PublicKey.Equal")
	e.hook(func(f *ssa.Function, st *State, args []*Term) []Outcome {
		if f == sm2Equal && f != nil {
			return []Outcome{{st: st, res: equal(st, args[0], args[1])}}
		}
		return nil
	})
	e.models["method:Public"] = func(e *Engine, cc *callCtx) []Outcome { return ret(cc, k.pub) }
	e.models["method:Sign"] = func(e *Engine, cc *callCtx) []Outcome {
		st := cc.st
		msg, opts := e.seqOf(st, cc.args[2]), e.snap(st, cc.args[3])
		return fork2(st, "Sign", signOK, func(st *State) []*Term {
			s := mk("sign", "", KSeq, 0, msg, opts)
			st.event(&Event{kind: "signed", name: "signed", args: []*Term{msg, opts, cc.args[1], s}, fn: cc.fn, at: cc.instr})
			return []*Term{e.newSlice(st, siteOf(cc.in()), s)}
		}, 2)
	}
	return k
}

func ecPointModel(e *Engine, cc *callCtx) []Outcome {
	s := mk("ecpoint", "", KSeq, 0, e.snap(cc.st, cc.args[0]), e.bigVal(cc.st, cc.args[1]), e.bigVal(cc.st, cc.args[2]))
	return ret(cc, e.newSlice(cc.st, siteOf(cc.in()), s))
}

// boxedKey is a public key of a kind, in an interface.
func (k *issue) boxedKey(st *State, name string, kd *signerKind) *Term {
	if kd.t == nil {
		x := sym(name, types.NewInterfaceType(nil, nil))
		st.assume(bnot(mkIsNil(x)))
		for _, n := range keyTypeNames {
			st.assume(bnot(typeIs(x, k.c.pubType(n.alg))))
		}
		return x
	}
	v := sym(name, kd.t)
	if d := deref(kd.t); d != nil {
		s := sym(name, d)
		if kd.curve != nil {
			cv := k.e.curve
			if !kd.curve.sm2 {
				cv, _ = kd.curve.term(k.e, st)
			}
			s = setFld(s, d, fieldIndex(d, "Curve"), cv)
		} else if i := fieldIndex(d, "Curve"); i >= 0 {
			for _, nc := range namedCurves {
				cv := k.e.curve
				if !nc.sm2 {
					cv, _ = nc.term(k.e, st)
				}
				st.assume(bnot(mkEq(fld(s, d, i), cv)))
			}
		}
		v = k.e.newPtr(st, name, s)
	}
	return mkT("iface", tstr(kd.t), KVal, 0, kd.t, v)
}

// pubInfo: the algorithm and the bytes of a public key.
func (k *issue) pubInfo(st *State, boxed *Term, kd *signerKind) (oid, params, key *Term) {
	x := boxed.a[0]
	switch kd.key {
	case "RSA":
		n, _ := k.e.field(k.entry, x, kd.t, "N")
		ex, _ := k.e.field(k.entry, x, kd.t, "E")
		return oidRSAKey, tNil, asn1Enc(schemaRSAPub, "", mk("struct", "", KVal, 0, k.e.snap(k.entry, n), ex))
	case "Ed25519":
		return oidEd25519Key, nil, specSeq(x)
	}
	cv, _ := kd.curve.term(k.e, st)
	return oidECKey, kd.curve.oid, mk("ecpoint", "", KSeq, 0, cv, k.e.bigField(k.entry, x, kd.t, "X"), k.e.bigField(k.entry, x, kd.t, "Y"))
}

// sigID: t is the identifier of the signature algorithm.
func (k *issue) sigID(m *matcher, t *Term, what string) {
	a := k.a
	switch {
	case a.pss:
		f := m.fields(t, 2, what)
		if m.why != "" {
			return
		}
		m.same(f[0], a.oid, what)
		p := m.fields(f[1], 5, "the parameters of "+what)
		if m.why == "" {
			m.same(p[4], pssParams(a.hash), "the parameters of "+what)
		}
	case a.key == "RSA":
		m.algorithm(t, a.oid, tNil, what)
	default:
		m.algorithm(t, a.oid, nil, what)
	}
}

// signed: the bytes tbs are what the signature is over.
func (k *issue) signed(m *matcher, o Outcome, tbs, sig *Term, rand *Term) {
	var ev []*Event
	for _, x := range o.st.events() {
		if x.kind == "signed" {
			ev = append(ev, x)
		}
	}
	if m.why != "" {
		return
	}
	if len(ev) != 1 {
		m.fail(fmt.Sprint("the key signs ", len(ev), " times"), "")
		return
	}
	msg, opts := ev[0].args[0], ev[0].args[1]
	want := tbs
	if k.a.hash != "" && k.a.hash != "sm3" {
		want = mkHash(cbytes(k.a.hash), nil, tbs)
	}
	if !sameSeq(m.st, msg, want) {
		m.fail("what is signed is not (the digest of) the signed part of the result", firstDiff(msg, want))
		return
	}
	if ev[0].args[2] != rand {
		m.fail("the key does not sign with the source of randomness given", ev[0].args[2].str(3))
		return
	}
	k.options(m, opts)
	m.bits(sig, ev[0].args[3], "the signature")
	if f := m.fields(sig, 2, "the signature"); m.why == "" && m.st.norm(f[1]) == tZero {
		return
	}
}

func (k *issue) options(m *matcher, opts *Term) {
	h := int64(0)
	if n := map[string]string{"sha1": "SHA1", "sha256": "SHA256", "sha384": "SHA384", "sha512": "SHA512", "md5": "MD5", "sm3": "SM3"}[k.a.hash]; n != "" {
		h = k.c.constVal("x509", n)
	}
	if opts.op != "iface" {
		m.fail("the options of the signature are unknown", opts.str(3))
		return
	}
	if k.a.pss {
		t := k.c.libType("crypto/rsa", "PSSOptions")
		o := opts.a[0]
		if t == nil || opts.s != tstr(types.NewPointer(t)) || o.op != "ref" || o.a[0].op != "struct" {
			m.fail("the options of the signature are not those of RSA-PSS", opts.str(3))
			return
		}
		salt, hash := fld(o.a[0], t, fieldIndex(t, "SaltLength")), fld(o.a[0], t, fieldIndex(t, "Hash"))
		if salt != ci(-1) && salt != ci(int64(hashSize(k.a.hash))) || hash != ci(h) {
			m.fail("the options of the signature have the wrong salt or hash", opts.str(4))
		}
		return
	}
	if opts.a[0] != ci(h) {
		m.fail("the options of the signature do not name the hash", opts.str(3))
	}
}

// envelope takes a signed structure apart: the fields of what is signed.
func (k *issue) envelope(m *matcher, o Outcome, schema, tbsSchema string, hasRaw bool, nTBS int, rand *Term) []*Term {
	n, off := 3, 0
	if hasRaw {
		n, off = 4, 1
	}
	v := m.fields(m.enc(o.r(0), schema, "the result"), n, "the result")
	if m.why != "" {
		return nil
	}
	if hasRaw {
		m.same(v[0], tEmpty, "the raw contents of the result")
	}
	tbs := m.fields(v[off], nTBS, "what is signed")
	if m.why != "" {
		return nil
	}
	bytes := asn1Enc(tbsSchema, "", v[off])
	if raw := m.seq(tbs[0]); raw != tEmpty {
		// given as raw contents: these must be the encoding of the same fields
		e := m.enc(raw, tbsSchema, "the raw contents of what is signed")
		f := m.fields(e, nTBS, "what is signed")
		if m.why != "" {
			return nil
		}
		m.same(f[0], tEmpty, "the raw contents of what is signed")
		tbs, bytes = f, raw
	}
	k.lastTBS = bytes
	k.sigID(m, v[off+1], "the algorithm of the signature")
	k.signed(m, o, bytes, v[off+2], rand)
	return tbs
}

// name: the encoding of a name; that given, or else that of the name's fields.
func (k *issue) name(m *matcher, got, v *Term, t types.Type, what string) *Term {
	raw, _ := k.e.field(k.entry, v, t, "RawSubject")
	r := k.e.seqOf(m.st, raw)
	switch m.st.eval2(mkEq0(seqLen(r))) {
	case tFalse:
		m.same(got, r, what)
	case tTrue:
		n, _ := k.e.field(k.entry, v, t, "Subject")
		g := m.seq(got)
		if g.op != "asn1enc" || !k.isRDN(g.a[0], n) {
			m.fail(what+" is not the encoding of that given", g.str(4))
		}
	default:
		m.fail(what+" does not depend on whether a raw name is given", "")
	}
	return m.seq(got)
}

// isRDN: t is the name given as a sequence.
func (k *issue) isRDN(t, n *Term) bool {
	return t.op == "app" && t.s == "(crypto/x509/pkix.Name).ToRDNSequence" && len(t.a) == 1 && t.a[0] == k.e.snap(k.entry, n)
}

func (k *issue) utc(m *matcher, got, v *Term, t types.Type, name string) {
	f, ft := k.e.field(k.entry, v, t, name)
	k.isUTC(m, got, f, ft, name)
}

func (k *issue) isUTC(m *matcher, got, f *Term, ft types.Type, name string) {
	want := mkTyped("app", "(time.Time).UTC", ft, k.e.snap(k.entry, f))
	if m.why == "" && k.e.snap(m.st, got) != want {
		m.fail(name+" is not that given, in UTC", got.str(4))
	}
}

func (k *issue) keyInfo(m *matcher, t, oid, params, key *Term) {
	f := m.fields(t, 3, "the public key")
	if m.why != "" {
		return
	}
	m.same(f[0], tEmpty, "the raw contents of the public key")
	m.algorithm(f[1], oid, params, "the public key")
	b := m.fields(f[2], 2, "the public key")
	if m.why != "" {
		return
	}
	in := m.seq(b[0])
	if key.op == "asn1enc" && in.op == "asn1enc" {
		if in.s != key.s || in.a[0].op != "struct" || len(in.a[0].a) != len(key.a[0].a) {
			m.fail("the public key is not that given", in.str(4))
			return
		}
		for i, x := range in.a[0].a {
			if m.st.norm(k.e.snap(m.st, x)) != m.st.norm(key.a[0].a[i]) {
				m.fail("the public key is not that given", in.str(4))
			}
		}
	} else {
		m.same(in, key, "the public key")
	}
	if m.why == "" && m.st.eval2(mkEqInt(b[1], iScale(seqLen(in), 8))) != tTrue {
		m.fail("the public key is not one of whole bytes", b[1].str(4))
	}
}

const (
	schemaPKInfo = "{RawContent;" + schemaAlg + ";BitString}"
	schemaExt    = "{ObjectIdentifier;bool optional;[]byte}"
	schemaTBS    = "{RawContent;int optional,explicit,default:0,tag:0;*Int;" + schemaAlg + ";RawValue;{Time;Time};RawValue;" + schemaPKInfo + ";BitString optional,tag:1;BitString optional,tag:2;[]" + schemaExt + " optional,explicit,tag:3}"
	schemaCert   = "{RawContent;" + schemaTBS + ";" + schemaAlg + ";BitString}"
)

func (k *issue) certificate(m *matcher, o Outcome, args []*Term, pk *signerKind) {
	e, st := k.e, o.st
	T := k.certT
	f := k.envelope(m, o, schemaCert, schemaTBS, true, 11, args[0])
	if m.why != "" {
		return
	}
	m.num(f[1], 2, "the version")
	sn, _ := e.field(k.entry, args[1], T, "SerialNumber")
	if st.norm(e.snap(st, f[2])) != st.norm(e.snap(k.entry, sn)) {
		m.fail("the serial number is not that of the template", f[2].str(4))
	}
	k.sigID(m, f[3], "the algorithm inside")
	full := func(t *Term, what string) *Term {
		r := m.fields(t, 5, what)
		if m.why != "" {
			return nil
		}
		return r[4]
	}
	issuer := k.name(m, full(f[4], "the issuer"), args[2], T, "the issuer")
	v := m.fields(f[5], 2, "the validity")
	if m.why != "" {
		return
	}
	k.utc(m, v[0], args[1], T, "NotBefore")
	k.utc(m, v[1], args[1], T, "NotAfter")
	subject := k.name(m, full(f[6], "the subject"), args[1], T, "the subject")
	oid, params, key := k.pubInfo(st, args[3], pk)
	k.keyInfo(m, f[7], oid, params, key)
	for _, x := range f[8:10] {
		if g := m.fields(x, 2, "a unique identifier"); m.why == "" {
			m.same(g[0], tEmpty, "a unique identifier")
		}
	}
	if m.why != "" {
		return
	}
	// extensions: of the template, for this subject and these key identifiers
	x := f[10]
	if x.op != "ext" {
		m.fail("the extensions are not those built from the template", x.str(3))
		return
	}
	var ids []*Term
	seen := 0
	for _, a := range x.a {
		switch {
		case a.k == KSeq:
			ids = append(ids, a)
		case a.k == KBool:
			w := mkEqSeq(subject, cbytes("\x30\x00"))
			if a != w && (st.eval2(a) == nil || st.eval2(a) != st.eval2(w)) {
				m.fail("the extensions are not built for the subject", a.str(3))
			}
			seen |= 1
		case a == e.snap(k.entry, args[1]):
			seen |= 2
		}
	}
	if len(ids) != 2 || seen != 3 {
		m.fail("the extensions are not built from the template, the subject and two key identifiers", x.str(3))
		return
	}
	id := func(v *Term) *Term {
		f, _ := e.field(k.entry, v, T, "SubjectKeyId")
		return e.seqOf(st, f)
	}
	aki, _ := e.field(k.entry, args[1], T, "AuthorityKeyId")
	want := e.seqOf(st, aki)
	self, has := st.eval2(mkEqSeq(issuer, subject)), st.eval2(mkEq0(seqLen(id(args[2]))))
	switch {
	case self == tFalse && has == tFalse:
		want = id(args[2])
	case self != tTrue && has != tTrue:
		m.fail("the authority key identifier does not depend on the issuer", "")
	}
	m.same(ids[0], want, "the authority key identifier")
	want = id(args[1])
	ca, _ := e.field(k.entry, args[1], T, "IsCA")
	own := st.eval2(mkEq0(seqLen(want)))
	switch ca = st.eval2(ca); {
	case own == tTrue && ca == tTrue:
		want = mkHash(cbytes("sha1"), nil, key)
		if key.op == "asn1enc" {
			b := m.fields(f[7].a[2], 2, "the public key")
			want = mkHash(cbytes("sha1"), nil, m.seq(b[0]))
		}
	case own != tFalse && ca != tFalse:
		m.fail("the subject key identifier does not depend on whether the template has one", "")
	}
	m.same(ids[1], want, "the subject key identifier")
	k.verified(m, true)
}

// verified: a signature of an algorithm that can be verified has been verified.
func (k *issue) verified(m *matcher, want bool) bool {
	found := false
	for f, v := range m.st.facts {
		if f.op == "isnil" && f.a[0].op == "checksig" && v == want {
			if want {
				x := f.a[0]
				if n, ok := constInt(x.a[0]); !ok || n != k.c.constVal("x509", k.a.name) || x.a[2].op != "sign" || k.lastTBS == nil || !sameSeq(m.st, x.a[1], k.lastTBS) || k.e.snap(m.st, x.a[3]) != k.e.snap(m.st, k.pub) {
					continue
				}
			}
			found = true
		}
	}
	if want && m.why == "" && k.verifiable() && !found {
		m.fail("the signature made is not verified", "")
	}
	return found
}

func (k *issue) verifiable() bool { return k.a.hash != "md5" && k.a.hash != "sha1" && k.a.key != "DSA" }

// refusal lists the conditions under which no certificate is issued to the template.
func (k *issue) refusal(args []*Term) (conds []*Term, names []string) {
	f := func(i int, n string) *Term {
		x, _ := k.e.field(k.entry, args[i], k.certT, n)
		return x
	}
	ml := f(1, "MaxPathLen")
	path := mkAnd(f(1, "BasicConstraintsValid"), mkAnd(bnot(f(1, "IsCA")), mkAnd(bnot(mkEqInt(ml, ci(-1))), mkOr2(bnot(mkEq0(ml)), f(1, "MaxPathLenZero")))))
	pk := f(2, "PublicKey")
	eq := mk("key.equal", "", KBool, 0, k.e.snap(k.entry, k.pub.a[0]), k.e.snap(k.entry, pk))
	return []*Term{mkIsNil(f(1, "SerialNumber")), path, mkAnd(bnot(mkIsNil(pk)), bnot(eq)), bnot(extOK), bnot(signOK)},
		[]string{"a template without serial number", "a path length for a certificate that is not a CA", "a key that is not the parent's", "extensions that cannot be built", "a failure to sign"}
}

func (k *issue) kinds() []*signerKind {
	r := []*signerKind{{name: "RSA", key: "RSA", def: "SHA256WithRSA", t: k.c.pubType("RSA")}, {name: "Ed25519", key: "Ed25519", def: "PureEd25519", t: k.c.pubType("Ed25519")}}
	def := map[string]string{"P224": "ECDSAWithSHA256", "P256": "ECDSAWithSHA256", "P384": "ECDSAWithSHA384", "P521": "ECDSAWithSHA512"}
	for i := range namedCurves {
		nc := &namedCurves[i]
		if nc.sm2 {
			r = append(r, &signerKind{name: "SM2", key: "SM2", def: "SM2WithSM3", curve: nc, t: k.c.pubType("SM2")})
		} else {
			r = append(r, &signerKind{name: nc.name, key: "ECDSA", def: def[nc.name], curve: nc, t: k.c.pubType("ECDSA")})
		}
	}
	return append(r, &signerKind{name: "ECDSA on another curve", key: "ECDSA", t: k.c.pubType("ECDSA")},
		&signerKind{name: "SM2 on another curve", key: "SM2", t: k.c.pubType("SM2")}, &signerKind{name: "another type"})
}

// each analyses fn for every kind of key and requested algorithm.
func (k *issue) each(fn *ssa.Function, iTemplate, iKey int, prep func(st *State, args []*Term), f func(name string, outs []Outcome, entry *State, args []*Term, allowed bool)) {
	var vals []int64
	for _, a := range sigAlgs {
		vals = append(vals, k.c.constVal("x509", a.name))
	}
	for _, kd := range k.kinds() {
		for i := -2; i < len(sigAlgs); i++ {
			req, name, allowed := int64(0), kd.name+" by default", kd.def != ""
			if allowed {
				k.a = sigAlgByName(kd.def)
			}
			if iTemplate < 0 && i != -1 {
				continue
			}
			if i >= 0 {
				req, name = vals[i], kd.name+" with "+sigAlgs[i].name
				k.a = sigAlgs[i]
				allowed = allowed && sigAlgs[i].key == kd.key
			} else if i == -2 {
				name, allowed = kd.name+" with another algorithm", false
			}
			if kd.def == "" && i != -1 {
				continue
			}
			entry, args, outs, ok := k.c.analyseWith(k.e, fn, func(st *State, args []*Term) []*Term {
				k.kd = kd
				k.pub = k.boxedKey(st, "signer", kd)
				k.e.pinned = append(k.e.pinned, k.pub)
				if iTemplate >= 0 {
					t := deref(fn.Params[iTemplate].Type())
					v := sym("template", t)
					j := fieldIndex(t, "SignatureAlgorithm")
					alg := ci(req)
					if i == -2 {
						alg = fld(v, t, j)
						st.assume(bnot(mkEq0(alg)))
						for _, x := range vals {
							st.assume(bnot(mkEqInt(alg, ci(x))))
						}
					}
					args[iTemplate] = k.e.newPtr(st, "template", setFld(v, t, j, alg))
				}
				for i, p := range fn.Params {
					if deref(p.Type()) != nil {
						st.assume(bnot(mkIsNil(args[i])))
					}
				}
				if iKey >= 0 {
					if types.IsInterface(fn.Params[iKey].Type()) && fn.Params[iKey].Type().Underlying().(*types.Interface).NumMethods() == 0 {
						st.assume(typeIs(args[iKey], k.c.libType("crypto", "Signer")))
					}
					st.assume(bnot(mkIsNil(args[iKey])))
				}
				prep(st, args)
				return args
			})
			if !ok {
				continue
			}
			k.c.noPanic(k.e, fn, outs)
			live := outs[:0:0]
			for _, o := range outs {
				if !refuted(o.st, 0) {
					live = append(live, o)
				}
			}
			f(short(fn)+" "+name, live, entry, args, allowed)
		}
	}
}

func checkIssueCert(c *Ctx) {
	fn := c.P.fn("x509", "CreateCertificate")
	if !c.oblige("anchor", "x509.CreateCertificate", 0, fn != nil && len(fn.Params) == 5, "CreateCertificate is not found") {
		return
	}
	k := newIssue(c)
	k.certT = fn.Params[1].Type()
	kinds := k.kinds()
	pks := kinds[:7]
	n := 0
	var pk *signerKind
	k.each(fn, 1, 4, func(st *State, args []*Term) {
		pk = pks[n%len(pks)]
		n++
		args[3] = k.boxedKey(st, "subject", pk)
	}, func(name string, outs []Outcome, entry *State, args []*Term, allowed bool) {
		c.oblige("analysed", name, fn.Pos(), len(outs) > 0, "no outcome")
		k.entry = entry
		some := false
		var conds []*Term
		var names []string
		if allowed {
			conds, names = k.refusal(args)
		}
		for _, b := range splitBool(outs, errNil) {
			if !b.val {
				if allowed {
					m := &matcher{e: k.e, st: b.st}
					why := k.verifiable() && k.verified(m, false)
					for _, x := range conds {
						why = why || b.st.eval2(x) == tTrue
					}
					c.oblige("refused only for a stated reason", name, atPos(b.o), why, "refused: %s", pathFacts(b.st))
				}
				continue
			}
			if !c.oblige("only with an algorithm of the key", name, atPos(b.o), allowed, "a certificate is issued: %s", pathFacts(b.st)) {
				continue
			}
			some = true
			for i, x := range conds {
				c.oblige("not issued with "+names[i], name, atPos(b.o), b.st.eval2(x) == tFalse, "issued: %s", pathFacts(b.st))
			}
			m := &matcher{e: k.e, st: b.st}
			k.certificate(m, b.o, args, pk)
			c.oblige("the certificate is the specified one, signed", name, atPos(b.o), m.why == "", "%s", m.why)
		}
		c.oblige("certificates can be issued", name, fn.Pos(), some == allowed, "none is issued")
	})
}

// extension: x is an extension that is not critical with this object identifier; its value.
func (k *issue) extension(m *matcher, x, oid *Term, what string) *Term {
	f := m.fields(x, 3, what)
	if m.why != "" {
		return nil
	}
	m.same(f[0], oid, "the identifier of "+what)
	if m.why == "" && f[1] != tFalse {
		m.fail(what+" is critical", "")
	}
	return f[2]
}

var (
	oidAKI    = oidTerm(2, 5, 29, 35)
	oidCRLNum = oidTerm(2, 5, 29, 20)
)

const schemaAKI = "{[]byte optional,tag:0}"

func (k *issue) aki(m *matcher, x, id *Term) {
	v := k.extension(m, x, oidAKI, "the authority key identifier")
	f := m.fields(m.enc(v, schemaAKI, "the authority key identifier"), 1, "the authority key identifier")
	if m.why == "" {
		m.same(f[0], id, "the authority key identifier")
	}
}

// crl: the parts common to both kinds of lists; the extensions.
func (k *issue) crl(m *matcher, o Outcome, rand *Term, issuer, revoked *Term, revT types.Type) (f []*Term) {
	e, st := k.e, o.st
	lt := k.c.libType("crypto/x509/pkix", "CertificateList")
	tt := structType(lt).Field(0).Type()
	f = k.envelope(m, o, asn1Schema(lt), asn1Schema(tt), false, 8, rand)
	if m.why != "" {
		return nil
	}
	m.num(f[1], 1, "the version")
	k.sigID(m, f[2], "the algorithm inside")
	if m.why == "" && !k.isRDN(f[3], issuer) {
		m.fail("the issuer is not that given", f[3].str(4))
	}
	if m.why != "" {
		return nil
	}
	// revoked certificates, in order, with their times in UTC
	rs := specSeq(revoked)
	got := asMap(e.snap(st, e.seqOf(st, f[6])))
	if st.eval2(mkEq0(seqLen(got))) == tTrue {
		got = tEmpty
	}
	if st.eval2(mkEqInt(seqLen(got), seqLen(rs))) != tTrue {
		m.fail("not all revoked certificates are listed", got.str(4))
		return nil
	}
	if got == tEmpty {
		return f
	}
	if got.op != "map" {
		m.fail("the revoked certificates are not known one by one", got.str(4))
		return nil
	}
	b := bvar(rs)
	x := m.fields(substOne(got.a[1], got.a[0], b), structType(revT).NumFields(), "a revoked certificate")
	for i := range x {
		w := fld(seqSel(rs, b), revT, i)
		if structType(revT).Field(i).Name() == "RevocationTime" {
			k.isUTC(m, x[i], w, structType(revT).Field(i).Type(), "the time of revocation")
		} else if m.why == "" && st.norm(e.snap(st, x[i])) != st.norm(e.snap(k.entry, w)) {
			m.fail("a revoked certificate is not the one given", x[i].str(4))
		}
	}
	return f
}

// time: t is the argument, in UTC.
func (k *issue) time(m *matcher, t, arg *Term, what string) {
	if m.why == "" {
		k.isUTC(m, t, arg, k.c.libType("time", "Time"), what)
	}
}

// judge: what each function emits, and when it refuses.
func (k *issue) judge(fn *ssa.Function, refusal func(args []*Term) []*Term, emitted func(m *matcher, o Outcome, args []*Term)) func(string, []Outcome, *State, []*Term, bool) {
	c := k.c
	return func(name string, outs []Outcome, entry *State, args []*Term, allowed bool) {
		c.oblige("analysed", name, fn.Pos(), len(outs) > 0, "no outcome")
		k.entry = entry
		some := false
		var conds []*Term
		if allowed {
			conds = refusal(args)
		}
		for _, b := range splitBool(outs, errNil) {
			if !b.val {
				why := !allowed
				for _, x := range conds {
					why = why || b.st.eval2(x) == tTrue
				}
				c.oblige("refused only for a stated reason", name, atPos(b.o), why, "refused: %s", pathFacts(b.st))
				continue
			}
			if !c.oblige("only with an algorithm of the key", name, atPos(b.o), allowed, "it is issued: %s", pathFacts(b.st)) {
				continue
			}
			some = true
			for _, x := range conds {
				c.oblige("not issued when refused", name, atPos(b.o), b.st.eval2(x) == tFalse, "issued though %s", x.str(4))
			}
			m := &matcher{e: k.e, st: b.st}
			emitted(m, b.o, args)
			c.oblige("the result is the specified one, signed", name, atPos(b.o), m.why == "", "%s", m.why)
		}
		c.oblige("it can be issued", name, fn.Pos(), some == allowed, "never issued")
	}
}

func checkIssueCRL(c *Ctx) {
	fn, fn2 := c.P.fn("x509", "Certificate.CreateCRL"), c.P.fn("x509", "CreateRevocationList")
	if !c.oblige("anchor", "x509.CreateRevocationList", 0, fn != nil && fn2 != nil && len(fn.Params) == 6 && len(fn2.Params) == 4, "CreateCRL or CreateRevocationList is not found") {
		return
	}
	k := newIssue(c)
	k.certT = fn.Params[0].Type()
	revT := c.libType("crypto/x509/pkix", "RevokedCertificate")
	cert := func(args []*Term, i int, n string) *Term {
		f, _ := k.e.field(k.entry, args[i], k.certT, n)
		return f
	}
	k.each(fn, -1, 2, func(st *State, args []*Term) {}, k.judge(fn,
		func(args []*Term) []*Term { return []*Term{bnot(signOK)} },
		func(m *matcher, o Outcome, args []*Term) {
			f := k.crl(m, o, args[1], cert(args, 0, "Subject"), args[3], revT)
			if m.why != "" {
				return
			}
			k.time(m, f[4], args[4], "the time of this update")
			k.time(m, f[5], args[5], "the time of the next update")
			id := specSeq(cert(args, 0, "SubjectKeyId"))
			switch o.st.eval2(mkEq0(seqLen(id))) {
			case tTrue:
				m.same(f[7], tEmpty, "the list of extensions")
			case tFalse:
				if x := m.list(f[7], 1, "the list of extensions"); m.why == "" {
					k.aki(m, x[0], id)
				}
			default:
				m.fail("the extensions do not depend on the key identifier", "")
			}
		}))
	lt := fn2.Params[1].Type()
	tmpl := func(args []*Term, n string) *Term {
		f, _ := k.e.field(k.entry, args[1], lt, n)
		return f
	}
	k.each(fn2, 1, 3, func(st *State, args []*Term) {}, k.judge(fn2,
		func(args []*Term) []*Term {
			crlSign := c.constVal("x509", "KeyUsageCRLSign")
			return []*Term{bnot(signOK), mkIsNil(tmpl(args, "Number")), mkEq0(seqLen(specSeq(cert(args, 2, "SubjectKeyId")))),
				mkEq0(bAnd(cert(args, 2, "KeyUsage"), ci(crlSign), 63)),
				mkTyped("app", "(time.Time).Before", types.Typ[types.Bool], tmpl(args, "NextUpdate"), tmpl(args, "ThisUpdate"))}
		},
		func(m *matcher, o Outcome, args []*Term) {
			f := k.crl(m, o, args[0], cert(args, 2, "Subject"), tmpl(args, "RevokedCertificates"), revT)
			if m.why != "" {
				return
			}
			k.time(m, f[4], tmpl(args, "ThisUpdate"), "the time of this update")
			k.time(m, f[5], tmpl(args, "NextUpdate"), "the time of the next update")
			ext := m.seq(f[7])
			extra := specSeq(tmpl(args, "ExtraExtensions"))
			if ext.op == "cat" && len(ext.a) == 2 {
				m.same(ext.a[1], extra, "the list of additional extensions")
				ext = ext.a[0]
			} else if m.st.eval2(mkEq0(seqLen(extra))) != tTrue {
				m.fail("the additional extensions are missing", ext.str(4))
			}
			x := m.list(ext, 2, "the list of extensions")
			if m.why != "" {
				return
			}
			k.aki(m, x[0], specSeq(cert(args, 2, "SubjectKeyId")))
			v := m.enc(k.extension(m, x[1], oidCRLNum, "the CRL number"), "*Int", "the CRL number")
			if m.why == "" && m.st.norm(k.e.snap(m.st, v)) != m.st.norm(k.e.snap(k.entry, tmpl(args, "Number"))) {
				m.fail("the CRL number is not that given", v.str(3))
			}
		}))
}

const (
	schemaTBSReq = "{RawContent;int;RawValue;" + schemaPKInfo + ";[]RawValue tag:0}"
	schemaReq    = "{RawContent;" + schemaTBSReq + ";" + schemaAlg + ";BitString}"
)

func checkIssueReq(c *Ctx) {
	fn := c.P.fn("x509", "CreateCertificateRequest")
	if !c.oblige("anchor", "x509.CreateCertificateRequest", 0, fn != nil && len(fn.Params) == 3, "CreateCertificateRequest is not found") {
		return
	}
	k := newIssue(c)
	T := fn.Params[1].Type()
	for _, bare := range []bool{false, true} {
		k.each(fn, 1, 2, func(st *State, args []*Term) {
			if f, _ := k.e.field(st, args[1], T, "Attributes"); bare {
				st.assume(mkEq0(seqLen(specSeq(f))))
			}
		}, k.judge(fn,
			func(args []*Term) []*Term { return []*Term{bnot(signOK), bnot(extOK)} },
			func(m *matcher, o Outcome, args []*Term) {
				f := k.envelope(m, o, schemaReq, schemaTBSReq, true, 5, args[0])
				if m.why != "" {
					return
				}
				m.num(f[1], 0, "the version")
				if r := m.fields(f[2], 5, "the subject"); m.why == "" {
					k.name(m, r[4], args[1], T, "the subject")
				}
				oid, params, key := k.pubInfo(o.st, k.pub, k.kd)
				k.keyInfo(m, f[3], oid, params, key)
				if bare && m.why == "" {
					k.requested(m, f[4], args[1])
				}
			}))
	}
}

const schemaExtReq = "{ObjectIdentifier;[][]" + schemaExt + " set}"

// requested: without other attributes, a request has the requested extensions, if any, as its only one.
func (k *issue) requested(m *matcher, t, tmpl *Term) {
	as := m.seq(t)
	if m.st.eval2(mkEq0(seqLen(as))) == tTrue {
		for f, v := range m.st.facts {
			// the built extensions are known to be none
			if x := extTerm(f); v && x != nil && m.st.eval2(mkEq0(seqLen(specSeq(x)))) == tTrue {
				return
			}
		}
		m.fail("the requested extensions are missing", "")
		return
	}
	x := m.list(as, 1, "the list of attributes")
	if m.why != "" {
		return
	}
	f := m.fields(x[0], 5, "the attribute")
	if m.why != "" {
		return
	}
	v := m.fields(m.enc(f[4], schemaExtReq, "the attribute"), 2, "the attribute")
	if m.why != "" {
		return
	}
	m.same(v[0], oidTerm(1, 2, 840, 113549, 1, 9, 14), "the type of the attribute")
	vs := m.list(v[1], 1, "the values of the attribute")
	if m.why != "" {
		return
	}
	e := extTerm(m.seq(vs[0]))
	if e == nil || m.seq(vs[0]) != specSeq(e) || len(e.a) != 1 || e.a[0] != k.e.snap(k.entry, tmpl) {
		m.fail("the value of the attribute is not the list of extensions of the template", m.seq(vs[0]).str(3))
	}
}

func extTerm(t *Term) (r *Term) {
	subterms(t, func(x *Term) {
		if x.op == "ext" {
			r = x
		}
	})
	return
}

func init() {
	tr := []string{"the standard library and golang.org/x/crypto behave as documented", "golang.org/x/tools/go/ssa"}
	addCheck(&Check{id: "C23", rule: "abstract interpretation of issuing functions per key type and algorithm: the signature is over the encoding of the emitted contents", run: func(c *Ctx) { checkIssueCert(c); checkIssueCRL(c); checkIssueReq(c) }, trusted: tr})
}
