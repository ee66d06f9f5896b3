package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C26: building PKCS #7 signed data.

// sm2SignHook makes sm2.Sign an operation of its own (its correctness is C03): sm2sig.ok/sm2sig of key, message and identity.
func sm2SignHook(c *Ctx, e *Engine) bool {
	sign := c.P.fn("sm2", "Sign")
	if !c.oblige("anchor", "sm2.Sign", 0, sign != nil && len(sign.Params) == 4, "Sign is not found") {
		return false
	}
	next := e.callHook
	e.callHook = func(f *ssa.Function, st *State, args []*Term) []Outcome {
		if f != sign {
			if next == nil {
				return nil
			}
			return next(f, st, args)
		}
		k := []*Term{e.snap(st, args[1]), e.seqOf(st, args[2]), e.seqOf(st, args[3])}
		st.event(&Event{kind: "call", name: "sm2.Sign", args: append([]*Term{args[0]}, k...)})
		return fork2(st, "Sign", mk("sm2sig.ok", "", KBool, 0, k...), func(st *State) []*Term {
			return []*Term{e.newSlice(st, "sig", mk("sm2sig", "", KSeq, 0, k...))}
		}, 2)
	}
	return true
}

func checkP7New(c *Ctx) {
	for _, name := range []string{"NewSignedData", "NewSignedDataCallBack"} {
		fn := c.P.fn("x509", name)
		if !c.oblige("anchor", "x509."+name, 0, fn != nil && len(fn.Params) == 3, "the function is not found") {
			continue
		}
		c.p7New(fn, name == "NewSignedData")
	}
}

func (c *Ctx) p7New(fn *ssa.Function, keyed bool) {
	e := x509Engine(c)
	e.noMerge, e.freezeElems, e.maxPaths = true, true, 20000
	noMarshalErrors(e)
	if !sm2SignHook(c, e) {
		return
	}
	keyT := c.P.fn("sm2", "Sign").Signature.Params().At(1).Type()
	certT := fn.Signature.Params().At(0).Type()
	entry, args, outs, ok := c.analyseWith(e, fn, func(st *State, args []*Term) []*Term {
		st.assume(bnot(mkIsNil(args[0])))
		if sn, _ := e.field(st, args[0], certT, "SerialNumber"); sn != nil {
			st.assume(bnot(mkIsNil(sn)))
		}
		if !keyed {
			st.assume(bnot(mkIsNil(args[1])))
		}
		return args
	})
	if !ok {
		return
	}
	c.noPanic(e, fn, outs)
	certF := func(n string) *Term { f, _ := e.field(entry, args[0], certT, n); return f }
	data := e.seqOf(entry, args[2])
	raw, iss, sn := e.seqOf(entry, certF("Raw")), e.seqOf(entry, certF("RawIssuer")), certF("SerialNumber")
	isKey := mk("typeis", tstr(keyT), KBool, 0, args[1])
	success := 0
	for _, b := range splitBool(outs, errNil) {
		if !b.val {
			why := false
			for _, g := range b.st.sortedFacts() {
				if holds(b.st, bnot(g)) {
					why = why || keyed && (g.op == "sm2sig.ok" || g.op == "typeis" && g.a[0] == args[1]) || !keyed && g.op == "isnil" && g.a[0].op == "proj" && g.a[0].s == "1" && g.a[0].a[0].op == "app" && g.a[0].a[0].s == "dynamic"
				}
			}
			c.oblige("failure only if there is no signature", short(fn), atPos(b.o), why, "fails with %s", pathFacts(b.st))
			continue
		}
		success++
		part := func(rule string, f func(m *matcher)) {
			m := &matcher{e: e, st: b.st}
			f(m)
			c.oblige(rule, short(fn), atPos(b.o), m.why == "", "%s", m.why)
		}
		alg := func(m *matcher, t, oid *Term, what string) {
			f := m.fields(t, 2, what)
			m.same(f[0], oid, what)
			if g := m.fields(f[1], 5, "the parameters of "+what); m.why == "" && (g[0] != tZero || g[1] != tZero || m.seq(g[3]) != tEmpty || m.seq(g[4]) != tEmpty) {
				m.fail(what+" has parameters", "")
			}
		}
		var sd, si, list []*Term
		part("signed data of version 1 with one signer", func(m *matcher) {
			outer := m.fields(m.enc(b.o.r(0), schemaP7CI, "the message"), 2, "the message")
			m.same(outer[0], oidGMSignedT, "the content type")
			sd = m.fields(m.enc(m.raw(outer[1], 2, 0, "the content"), schemaP7Signed, "the content"), 6, "the signed data")
			m.num(sd[0], 1, "the version")
			alg(m, m.list(sd[1], 1, "the digest algorithms")[0], oidSM3Digest, "the digest algorithm")
			m.same(sd[4], tEmpty, "the list of CRLs")
			si = m.fields(m.list(sd[5], 1, "the signers")[0], 7, "the signer")
			m.num(si[0], 1, "the signer's version")
			alg(m, si[2], oidSM3Digest, "the signer's digest algorithm")
			alg(m, si[4], oidSM2Sign, "the signature algorithm")
			m.same(si[6], tEmpty, "the unsigned attributes")
		})
		if len(si) != 7 || si[6] == nil && si[5] == nil {
			continue
		}
		part("the content is the data", func(m *matcher) {
			ci := m.fields(sd[2], 2, "the encapsulated content")
			m.same(ci[0], oidGMDataT, "the type of the encapsulated content")
			m.same(m.enc(m.raw(ci[1], 2, 0, "the encapsulated content"), "[]byte", "the encapsulated content"), data, "the encapsulated data")
		})
		part("the signer's certificate is included and named as the signer's", func(m *matcher) {
			cr := m.fields(m.enc(m.fields(sd[3], 1, "the certificates")[0], "RawValue", "the certificates"), 5, "the certificates")
			m.num(cr[0], 2, "the class of the certificates")
			m.num(cr[1], 0, "the tag of the certificates")
			if m.why == "" && cr[2] != tTrue {
				m.fail("the certificates are not constructed", "")
			}
			m.same(cr[3], raw, "the certificate")
			is := m.fields(si[1], 2, "the signer's identifier")
			m.same(m.fields(is[0], 5, "the issuer")[4], iss, "the issuer")
			if m.why == "" && e.snap(b.st, is[1]) != e.snap(b.st, sn) && !(is[1].op == "ref" && (is[1].a[0] == e.bigVal(b.st, sn) || is[1].a[0] == e.snap(b.st, sn))) {
				m.fail("the serial number differs", is[1].str(5))
			}
		})
		part("the signed attributes are the content type, the digest of the data and the signing time", func(m *matcher) {
			list = m.list(si[3], 3, "the signed attributes")
			want := map[*Term]*Term{oidContentType: asn1Enc("ObjectIdentifier", "", oidGMDataT), oidMessageDigest: asn1Enc("[]byte", "", mkHash(cbytes("sm3"), nil, data)), oidSigningTime: nil}
			for _, a := range list {
				f := m.fields(a, 2, "an attribute")
				if m.why != "" {
					return
				}
				t := m.seq(f[0])
				w, ok := want[t]
				if !ok {
					m.fail("an attribute of another type or given twice", t.str(3))
					return
				}
				delete(want, t)
				v := m.raw(f[1], 0, 17, "the value of an attribute")
				if t == oidSigningTime {
					x := m.enc(v, "Time", "the signing time")
					for x != nil && x.op == "app" && len(x.a) > 0 && (x.s == "(time.Time).UTC" || x.s == "(time.Time).Truncate" || x.s == "(time.Time).In") {
						x = x.a[0]
					}
					if m.why == "" && !(x.op == "app" && x.s == "time.Now") {
						m.fail("the signing time is not the present", x.str(4))
					}
					continue
				}
				m.same(v, w, "the value of an attribute")
			}
		})
		part("the signed attributes are in the order of DER", func(m *matcher) {
			for i := 1; i < len(list) && m.why == ""; i++ {
				x, y := asn1Enc(schemaP7Attr, "", list[i-1]), asn1Enc(schemaP7Attr, "", list[i])
				if !holds(b.st, mkGe0(mk("bcmp", "", KInt, 0, y, x))) && !holds(b.st, mkGe0(iScale(mk("bcmp", "", KInt, 0, x, y), -1))) {
					m.fail(fmt.Sprint("attribute ", i, " may be smaller than the one before"), "")
				}
			}
		})
		part("the signature is over the signed attributes", func(m *matcher) {
			signed := asn1Enc("[]"+schemaP7Attr, "|set", mkListT(list, elemOf(fn, c)))
			got := m.seq(si[5])
			n := 0
			for _, ev := range b.st.events() {
				if ev.kind == "call" && (ev.name == "sm2.Sign" || ev.name == "dynamic") {
					n++
					if keyed && ev.args[0].str(3) != "deref(global:crypto/rand.Reader())" {
						m.fail("the signature's randomness is not that of crypto/rand", ev.args[0].str(3))
					}
				}
			}
			if n != 1 {
				m.fail(fmt.Sprint(n, " signatures are made"), "")
			}
			if keyed {
				key := e.snap(b.st, mkTyped("asserted", tstr(keyT), keyT, args[1]))
				if !holds(b.st, isKey) {
					m.fail("the key need not be an SM2 key", "")
				}
				m.same(got, mk("sm2sig", "", KSeq, 0, key, signed, tEmpty), "the signature")
				return
			}
			var want *Term
			for _, ev := range b.st.events() {
				if ev.kind == "call" && ev.name == "dynamic" {
					if len(ev.args) != 2 || ev.args[0] != args[1] || ev.args[1] != signed {
						m.fail("the callback is not called with the encoded attributes", ev.args[len(ev.args)-1].str(4))
						return
					}
					want = e.seqOf(b.st, ev.res[0])
					if !holds(b.st, mkIsNil(ev.res[1])) {
						m.fail("the callback may have failed", "")
					}
				}
			}
			if want == nil || want != got {
				m.fail("the signature is not the callback's", got.str(4))
			}
		})
	}
	c.oblige("the operation can succeed", short(fn), fn.Pos(), success > 0, "no path succeeds")
}

func elemOf(fn *ssa.Function, c *Ctx) types.Type {
	return bySchema(c, "x509", "attribute", schemaP7Attr)
}

func init() {
	tr := []string{"the standard library and golang.org/x/crypto behave as documented", "golang.org/x/tools/go/ssa"}
	addCheck(&Check{id: "C26", rule: "abstract interpretation of PKCS#7 construction; every result matched against the specified structure", run: checkP7New, trusted: tr})
}
