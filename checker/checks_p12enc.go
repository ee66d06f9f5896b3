package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C13: building PKCS #12 files.

// keyHook leaves the PKCS #8 encoder uninterpreted.
func keyHook(c *Ctx, e *Engine, next func(fn *ssa.Function, st *State, args []*Term) []Outcome) func(fn *ssa.Function, st *State, args []*Term) []Outcome {
	marshal := c.P.fn("x509", "MarshalPKCS8PrivateKey")
	return func(fn *ssa.Function, st *State, args []*Term) []Outcome {
		if fn == marshal && fn != nil {
			cc := &callCtx{st: st, name: "MarshalPKCS8PrivateKey"}
			k := args[0]
			return forkOK(cc, mk("pkcs8ok", "", KBool, 0, k), func(st *State) *Term {
				return e.newSlice(st, "pkcs8", mk("pkcs8", "", KSeq, 0, k))
			})
		}
		return next(fn, st, args)
	}
}

// bmpTerm is the zero-terminated big-endian UCS-2 encoding of a string (C16).
func bmpTerm(s *Term) *Term {
	rs := mkRunes(s)
	b := bvar(rs)
	return seqCat(mkRep(b, mkBE(2, seqSel(rs, b)), seqLen(rs)), cbytes("\x00\x00"))
}

// matcher takes a value apart and records what does not fit.
type matcher struct {
	e     *Engine
	st    *State
	why   string
	salts []*Term
}

func (m *matcher) fail(w, got string) {
	if m.why == "" {
		m.why = w
		if got != "" {
			m.why += ": " + clip(got, 160)
		}
	}
}

func (m *matcher) seq(t *Term) *Term {
	if t == nil {
		return tEmpty
	}
	if t.k == KSeq {
		return t
	}
	if t == tNil {
		return tEmpty
	}
	return m.e.seqOf(m.st, t)
}

// enc: t is the encoding of one value with this schema; its value.
func (m *matcher) enc(t *Term, schema, what string) *Term {
	if m.why != "" {
		return nil
	}
	t = m.seq(t)
	if t.op != "asn1enc" || t.s != schema {
		m.fail(what+" is not the encoding of "+schema, t.str(2))
		return nil
	}
	return t.a[0]
}

func (m *matcher) fields(t *Term, n int, what string) []*Term {
	if m.why != "" || t == nil {
		m.fail(what+" is unknown", "")
		return make([]*Term, n)
	}
	if t.op != "struct" || len(t.a) != n {
		m.fail(what+" is not known field by field", t.str(3))
		return make([]*Term, n)
	}
	return t.a
}

func (m *matcher) num(t *Term, n int64, what string) {
	if m.why == "" && t != ci(n) {
		m.fail(what+" is not as expected", t.str(3))
	}
}

func (m *matcher) same(t, want *Term, what string) {
	if m.why == "" {
		if t = m.seq(t); !sameSeq(m.st, t, want) {
			m.fail(what+" differs", firstDiff(t, want))
		}
	}
}

// raw: a RawValue with this class and tag, constructed, whose body is given; the body.
func (m *matcher) raw(t *Term, class, tag int64, what string) *Term {
	f := m.fields(t, 5, what)
	if m.why != "" {
		return nil
	}
	m.num(f[0], class, "the class of "+what)
	m.num(f[1], tag, "the tag of "+what)
	if m.why == "" && f[2] != tTrue {
		m.fail(what+" is not constructed", f[2].str(3))
	}
	m.same(f[4], tEmpty, "the full encoding of "+what)
	return f[3]
}

// list: the sequence has exactly these many known elements.
func (m *matcher) list(t *Term, n int, what string) []*Term {
	if m.why != "" {
		return make([]*Term, n)
	}
	t = m.seq(t)
	if t.op != "list" || len(t.a) != n {
		m.fail(what+" does not have the expected elements", t.str(3))
		return make([]*Term, n)
	}
	return t.a
}

// pbeParams: the algorithm identifier names the algorithm, with fresh salt and an iteration count; the salt and
// count as the encryption may see them.
func (m *matcher) pbe(t *Term, oid *Term, pbeT types.Type, what string) (pairs [][2]*Term) {
	f := m.fields(t, 2, "the algorithm of "+what)
	if m.why != "" {
		return
	}
	m.same(f[0], oid, "the algorithm of "+what)
	p := m.fields(f[1], 5, "the parameters of "+what)
	if m.why != "" {
		return
	}
	full := m.seq(p[4])
	v := m.fields(m.enc(full, schemaPBE, "the parameters of "+what), 2, "the parameters of "+what)
	if m.why != "" {
		return
	}
	salt := m.seq(v[0])
	m.salt(salt, what)
	if n, ok := constInt(v[1]); !ok || n < 1000 {
		m.fail("the iteration count of "+what+" is not a constant of at least 1000", v[1].str(3))
		return
	}
	_, again := strictDER(pbeT, full)
	return [][2]*Term{{salt, v[1]}, {fp(again, pbeT, 0), fp(again, pbeT, 1)}, {salt, fp(again, pbeT, 1)}, {fp(again, pbeT, 0), v[1]}}
}

// salt: at least eight bytes straight from the random source, read without error and used nowhere else.
func (m *matcher) salt(t *Term, what string) {
	if m.why != "" {
		return
	}
	r := t
	if r.op == "fixed" && len(r.a) == 2 {
		r = r.a[1]
	}
	if r.op != "rand" || !holds(m.st, mkGe0(iSub(seqLen(t), ci(8)))) {
		m.fail("the salt of "+what+" is not at least eight random bytes", t.str(4))
		return
	}
	for _, s := range m.salts {
		if s == r {
			m.fail("the salt of "+what+" is used twice", t.str(4))
			return
		}
	}
	m.salts = append(m.salts, r)
}

func (m *matcher) encrypted(t *Term, alg string, size int64, pairs [][2]*Term, msg, pw *Term, what string) {
	if m.why != "" {
		return
	}
	t = m.seq(t)
	var want *Term
	for _, p := range pairs {
		w := pbeEncrypt(alg, size, p[0], p[1], msg, pw)
		if want == nil {
			want = w
		}
		if sameSeq(m.st, t, w) {
			return
		}
	}
	m.fail(what+" is not the encryption under the password", firstDiff(t, want))
}

func checkEncode(c *Ctx) {
	fn := c.P.fn("pkcs12", "Encode")
	pfxT := bySchema(c, "pkcs12", "pfxPdu", schemaPfx)
	pbeT := bySchema(c, "pkcs12", "pbeParams", schemaPBE)
	if !c.oblige("anchor", "pkcs12.Encode", 0, fn != nil && fn.Signature.Params().Len() == 4, "Encode is not found") || pfxT == nil || pbeT == nil {
		return
	}
	e := p12Engine(c, true)
	e.freezeElems = true
	e.callHook = keyHook(c, e, e.callHook)
	entry, args, outs, ok := c.analyseWith(e, fn, nil)
	if !ok {
		return
	}
	certT := deref(fn.Signature.Params().At(1).Type())
	rawOf := func(v *Term) *Term {
		r, _ := e.field(entry, v, certT, "Raw")
		return e.seqOf(entry, r)
	}
	raw := rawOf(e.load(entry, args[1]))
	cas := e.seqOf(entry, args[2])
	caT := deref(fn.Signature.Params().At(2).Type().Underlying().(*types.Slice).Elem())
	pw := bmpTerm(args[3])
	key := args[0]
	bmpOK := func() *Term {
		rs := mkRunes(args[3])
		b := bvar(rs)
		return mkForall(b, mkGe0(iSub(ci(65535), seqSel(rs, b))), seqLen(rs))
	}()
	const (
		sAlgo = "{ObjectIdentifier;RawValue optional}"
		sAttr = "{ObjectIdentifier;RawValue set}"
		sEPKI = "{" + sAlgo + ";[]byte}"
		sCB   = "{ObjectIdentifier;[]byte tag:0,explicit}"
	)
	oidCertBagT, oidX509 := oidTerm(1, 2, 840, 113549, 1, 12, 10, 1, 3), oidTerm(1, 2, 840, 113549, 1, 9, 22, 1)
	oidKeyBag, oidLocal := oidTerm(1, 2, 840, 113549, 1, 12, 10, 1, 2), oidTerm(1, 2, 840, 113549, 1, 9, 21)
	good := 0
	for _, b := range splitBool(outs, errNil) {
		o := b.o
		o.st = b.st
		if b.val {
			good++
		} else {
			c.oblige("a failure returns no data", short(fn), atPos(o), holds(o.st, mkEq0(e.lenOf(o.st, o.r(0)))), "data are returned together with an error")
			cause := o.st.eval2(bmpOK) == tFalse
			for f, v := range o.st.facts {
				v, f := v, f
				if f.op == "not" {
					f, v = f.a[0], !v
				}
				switch {
				case f.op == "forall" && !v:
					cause = true
				case f.op == "pkcs8ok" && !v, f.op == "asn1.ok" && !v:
					cause = true
				case f.op == "isnil" && !v && (f.a[0].op == "readerr" || f.a[0].op == "app" && f.a[0].s == "asn1.merr"):
					cause = true
				case f.op == "eq0" && !v:
					subterms(f, func(t *Term) { cause = cause || t.op == "asn1.rest" })
				case f.op == "ge0" && v:
					subterms(f, func(t *Term) {
						cause = cause || t.op == "str2runes" && holds(o.st, mkGe0(ci(0))) && someWide(o.st, mkRunes(args[3]))
					})
				}
			}
			c.oblige("fails only for a password outside the BMP, a key or structure that cannot be encoded, or no randomness", short(fn), atPos(o), cause, "no such cause is on this path")
			continue
		}
		c.oblige("a password outside the BMP is refused", short(fn), atPos(o), holds(o.st, bmpOK), "no path fact excludes characters above U+FFFF")
		c.oblige("the key was encoded", short(fn), atPos(o), holds(o.st, mk("pkcs8ok", "", KBool, 0, key)), "the PKCS #8 encoder may have failed")

		part := func(rule string, f func(m *matcher)) {
			m := &matcher{e: e, st: o.st}
			f(m)
			c.oblige(rule, short(fn), atPos(o), m.why == "", "%s", m.why)
		}
		var authData, safe0, safe1 *Term
		var mac []*Term
		var salts []*Term
		part("a PFX of version 3 with two safes in one data content", func(m *matcher) {
			pfx := m.fields(m.enc(o.r(0), schemaPfx, "the result"), 3, "the PFX")
			if m.why != "" {
				return
			}
			m.num(pfx[0], 3, "the version")
			mac = m.fields(pfx[2], 3, "the MAC data")
			ci := m.fields(pfx[1], 2, "the content")
			m.same(ci[0], oidData, "the content type")
			authData = m.enc(m.raw(ci[1], 2, 0, "the content"), "[]byte", "the content")
			l := m.list(m.enc(authData, "[]"+schemaCI, "the authenticated safe"), 2, "the authenticated safe")
			safe0, safe1 = l[0], l[1]
		})
		if safe0 == nil || safe1 == nil {
			continue
		}
		localAttr := func(m *matcher, t *Term) {
			l := m.list(t, 1, "the attributes")
			a := m.fields(l[0], 2, "the attribute")
			if m.why != "" {
				return
			}
			m.same(a[0], oidLocal, "the attribute type")
			id := m.enc(m.raw(a[1], 0, 17, "the attribute"), "[]byte", "the attribute")
			m.same(id, mkHash(cbytes("sha1"), nil, raw), "the local key id")
		}
		part("the first safe holds the certificates, encrypted with RC2-40 under the password", func(m *matcher) {
			ci0 := m.fields(safe0, 2, "the first safe")
			if m.why != "" {
				return
			}
			m.same(ci0[0], oidEncrypted, "the type of the first safe")
			ed := m.fields(m.enc(m.raw(ci0[1], 2, 0, "the first safe"), schemaED, "the first safe"), 2, "the encrypted data")
			if m.why != "" {
				return
			}
			m.num(ed[0], 0, "the version of the encrypted data")
			eci := m.fields(ed[1], 3, "the encrypted content")
			if m.why != "" {
				return
			}
			m.same(eci[0], oidData, "the type of the encrypted content")
			pairs := m.pbe(eci[1], oidRC2, pbeT, "the first safe")
			if m.why != "" {
				return
			}
			// the plaintext is found inside the ciphertext term
			var plain *Term
			subterms(m.seq(eci[2]), func(t *Term) {
				if plain == nil && t.op == "asn1enc" && t.s == "[]"+schemaBag {
					plain = t
				}
			})
			if plain == nil {
				m.fail("the encrypted content holds no list of bags", m.seq(eci[2]).str(3))
				return
			}
			m.encrypted(eci[2], "rc2", 5, pairs, plain, pw, "the first safe")
			salts = append(salts, m.salts...)
			bags := m.seq(plain.a[0])
			oneBag := func(b, data *Term, what string) *Term {
				f := m.fields(b, 3, what)
				if m.why != "" {
					return nil
				}
				m.same(f[0], oidCertBagT, "the type of "+what)
				cb := m.fields(m.enc(m.raw(f[1], 2, 0, what), sCB, what), 2, what)
				if m.why != "" {
					return nil
				}
				m.same(cb[0], oidX509, "the certificate type of "+what)
				m.same(cb[1], data, "the certificate in "+what)
				return f[2]
			}
			if bags.op == "cat" && len(bags.a) == 2 && bags.a[1].op == "map" {
				x := bags.a[1]
				bags = mk("cat", "", KSeq, 0, bags.a[0], mkRep(x.a[0], mkList([]*Term{x.a[1]}, false), x.a[2]))
			}
			if bags.op != "cat" || len(bags.a) != 2 || bags.a[0].op != "list" || len(bags.a[0].a) != 1 || bags.a[1].op != "rep" {
				m.fail("the bags are not one for the certificate followed by one for each CA certificate", bags.str(3))
				return
			}
			localAttr(m, oneBag(bags.a[0].a[0], raw, "the bag of the certificate"))
			rep := bags.a[1]
			if rep.a[2] != seqLen(cas) {
				m.fail("not every CA certificate has a bag", rep.a[2].str(4))
			}
			one := m.list(rep.a[1], 1, "what is added for a CA certificate")
			if m.why != "" {
				return
			}
			caRaw, _ := e.field(entry, e.load(entry, seqSel(cas, rep.a[0])), caT, "Raw")
			m.same(oneBag(one[0], e.seqOf(entry, caRaw), "the bag of a CA certificate"), tEmpty, "the attributes of a CA certificate")
		})
		part("the second safe holds the key, encrypted with triple DES under the password", func(m *matcher) {
			m.salts = salts
			ci1 := m.fields(safe1, 2, "the second safe")
			if m.why != "" {
				return
			}
			m.same(ci1[0], oidData, "the type of the second safe")
			inner := m.enc(m.raw(ci1[1], 2, 0, "the second safe"), "[]byte", "the second safe")
			l := m.list(m.enc(inner, "[]"+schemaBag, "the second safe"), 1, "the bags of the second safe")
			b := m.fields(l[0], 3, "the key bag")
			if m.why != "" {
				return
			}
			m.same(b[0], oidKeyBag, "the type of the key bag")
			ep := m.fields(m.enc(m.raw(b[1], 2, 0, "the key bag"), sEPKI, "the key bag"), 2, "the encrypted key")
			if m.why != "" {
				return
			}
			pairs := m.pbe(ep[0], oid3DES, pbeT, "the key bag")
			m.encrypted(ep[1], "3des", 24, pairs, mk("pkcs8", "", KSeq, 0, key), pw, "the key")
			if m.why == "" {
				localAttr(m, b[2])
			}
			salts = m.salts
		})
		part("the MAC is over both safes, under the same password and a salt of its own", func(m *matcher) {
			m.salts = salts
			if len(mac) != 3 || mac[0] == nil {
				m.fail("the MAC data are unknown", "")
				return
			}
			di := m.fields(mac[0], 2, "the digest")
			if m.why != "" {
				return
			}
			alg := m.fields(di[0], 2, "the digest algorithm")
			if m.why != "" {
				return
			}
			m.same(alg[0], oidTerm(1, 3, 14, 3, 2, 26), "the digest algorithm")
			salt := m.seq(mac[1])
			m.salt(salt, "the MAC")
			if n, ok := constInt(mac[2]); !ok || n < 1 {
				m.fail("the iteration count of the MAC is not a positive constant", mac[2].str(3))
				return
			}
			k := pbkdfTerm(cbytes("sha1"), ci(20), ci(64), salt, pw, mac[2], ci(3), ci(20))
			m.same(di[1], mk("fixed", "hmac", KSeq, 0, ci(20), mk("hmac", "", KSeq, 0, cbytes("sha1"), k, m.seq(authData))), "the MAC")
			salts = m.salts
		})
		for _, s := range salts {
			okRead := false
			for f, v := range o.st.facts {
				if f.op == "isnil" && v && f.a[0].op == "readerr" && readSite(s) == f.a[0].s {
					okRead = true
				}
			}
			c.oblige("random bytes are used only when they could be read", short(fn), atPos(o), okRead, "%s", s.str(4))
		}
	}
	c.oblige("some path succeeds", short(fn), fn.Pos(), good > 0, "")
}

// readSite names the read a random string came from.
func readSite(r *Term) string {
	s := ""
	subterms(r, func(t *Term) {
		if t.op == "rand" && len(t.s) > len(s) {
			s = t.s
		}
	})
	return s
}

// someWide: the path established a character above U+FFFF.
func someWide(st *State, rs *Term) bool {
	found := false
	n := seqLen(rs)
	for f := range st.facts {
		subterms(f, func(t *Term) {
			if !found && t.op == "sel" && t.a[0] == rs {
				found = holds(st, mkGe0(iSub(t, ci(65536)))) && holds(st, mkGe0(t.a[1])) && holds(st, mkGe0(iSub(iSub(n, t.a[1]), tOne)))
			}
		})
	}
	return found
}

func init() {
	addCheck(&Check{id: "C13", rule: "abstract interpretation of the PKCS #12 encoder and field-by-field comparison with the specified structure", run: checkEncode})
}
