package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

var (
	oidMessageDigest = oidTerm(1, 2, 840, 113549, 1, 9, 4)
	oidContentType   = oidTerm(1, 2, 840, 113549, 1, 9, 3)
	oidSigningTime   = oidTerm(1, 2, 840, 113549, 1, 9, 5)
	oidGMDataT       = oidTerm(1, 2, 156, 10197, 6, 1, 4, 2, 1)
	oidGMSignedT     = oidTerm(1, 2, 156, 10197, 6, 1, 4, 2, 2)
	oidSM3Digest     = oidTerm(1, 2, 156, 10197, 1, 401)
	oidSM2Sign       = oidTerm(1, 2, 156, 10197, 1, 301, 1)
)

const (
	schemaP7Attr = "{ObjectIdentifier;RawValue set}"
	schemaSigner = "{int default:1;{RawValue;*Int};" + schemaAlg + ";[]" + schemaP7Attr + " optional,tag:0;" + schemaAlg + ";[]byte;[]" + schemaP7Attr + " optional,tag:1}"
	schemaP7CI   = "{ObjectIdentifier;RawValue explicit,optional,tag:0}"
)

// noMarshalErrors: DER encoding succeeds (that failures are passed on is C29).
func noMarshalErrors(e *Engine) {
	for _, n := range []string{"encoding/asn1.Marshal", "encoding/asn1.MarshalWithParams"} {
		m := e.models[n]
		e.models[n] = func(e *Engine, cc *callCtx) []Outcome {
			outs := m(e, cc)
			for i, o := range outs {
				if o.res.op == "tuple" && len(o.res.a) == 2 {
					outs[i].res = mk("tuple", "", KVal, 0, o.res.a[0], tNil)
				}
			}
			return outs
		}
	}
}

type p7check struct {
	c                  *Ctx
	e                  *Engine
	p7T, sT, attrT     types.Type
	certT              types.Type
	signers, certs     []*Term
	attrs              [][]*Term
	content            *Term
	iSigners, iContent int
}

func newP7(c *Ctx, fn *ssa.Function) *p7check {
	d := &p7check{c: c}
	d.p7T = deref(fn.Params[0].Type())
	d.sT = bySchema(c, "x509", "signerInfo", schemaSigner)
	d.attrT = bySchema(c, "x509", "attribute", schemaP7Attr)
	if d.sT == nil || d.attrT == nil {
		return nil
	}
	for _, f := range []string{"Content", "Certificates", "Signers"} {
		if !c.oblige("anchor", "x509.PKCS7."+f, 0, fieldIndex(d.p7T, f) >= 0, "no such field") {
			return nil
		}
	}
	d.certT = structType(d.p7T).Field(fieldIndex(d.p7T, "Certificates")).Type().Underlying().(*types.Slice).Elem()
	d.e = x509Engine(c)
	d.e.noMerge, d.e.maxPaths, d.e.freezeElems = true, 20000, true
	checksigHook(c, d.e)
	noMarshalErrors(d.e)
	return d
}

// shape gives the message n signers with m attributes each and k certificates.
func (d *p7check) shape(st *State, p7 *Term, n, m, k int) {
	v := expand(d.e.load(st, p7), d.p7T)
	var els, certs []*Term
	for i := 0; i < n; i++ {
		s := sym(fmt.Sprintf("signer%d", i), d.sT)
		var as []*Term
		for j := 0; j < m; j++ {
			as = append(as, sym(fmt.Sprintf("signer%d.attr%d", i, j), d.attrT))
		}
		d.signers, d.attrs = append(d.signers, s), append(d.attrs, as)
		els = append(els, setFld(expand(s, d.sT), d.sT, 3, d.e.newSlice(st, fmt.Sprintf("attrs%d", i), mkListT(as, d.attrT))))
		st.assume(bnot(mkIsNil(fp(s, d.sT, 1, 1))))
	}
	for i := 0; i < k; i++ {
		x := sym(fmt.Sprintf("cert%d", i), d.certT)
		st.assume(bnot(mkIsNil(x)))
		if sn, _ := d.e.field(st, x, d.certT, "SerialNumber"); sn != nil {
			st.assume(bnot(mkIsNil(sn)))
		}
		certs = append(certs, x)
	}
	d.certs = certs
	v = setFld(v, d.p7T, fieldIndex(d.p7T, "Signers"), d.e.newSlice(st, "signers", mkListT(els, d.sT)))
	v = setFld(v, d.p7T, fieldIndex(d.p7T, "Certificates"), d.e.newSlice(st, "certs", mkListT(certs, d.certT)))
	d.e.store(st, p7, v)
	d.content = d.e.seqOf(st, fld(v, d.p7T, fieldIndex(d.p7T, "Content")))
}

// matches: the certificate has the issuer and serial number of the signer.
func (d *p7check) matches(st *State, cert, signer *Term) *Term {
	iss, _ := d.e.field(st, cert, d.certT, "RawIssuer")
	return mkAnd(mkEqInt(d.e.bigField(st, cert, d.certT, "SerialNumber"), d.e.bigVal(st, fp(signer, d.sT, 1, 1))), mkEqSeq(d.e.seqOf(st, iss), fp(signer, d.sT, 1, 0, 4)))
}

// encoded is the DER SET OF the attributes.
func (d *p7check) encoded(as []*Term) *Term {
	return asn1Enc("[]"+schemaP7Attr, "|set", mkListT(as, d.attrT))
}

func (d *p7check) signerTree(st *State, i int) []*specAlt {
	if i == len(d.signers) {
		return []*specAlt{{name: "done"}}
	}
	s, as := d.signers[i], d.attrs[i]
	where := fmt.Sprintf("signer %d", i)
	sig := func(signed *Term) func() []*specAlt {
		return func() (r []*specAlt) {
			var before []*Term
			for k, x := range d.certs {
				m := d.matches(st, x, s)
				key, _ := d.e.field(st, x, d.certT, "PublicKey")
				r = append(r, &specAlt{name: fmt.Sprintf("%s certificate %d", where, k), disc: append(append([]*Term{}, before...), m),
					conds: []*Term{mkIsNil(checksig(ci(d.c.constVal("x509", "SM2WithSM3")), signed, specSeq(fp(s, d.sT, 5)), key))}, names: []string{"a valid SM2 signature of the matching certificate's key"},
					next: func() []*specAlt { return d.signerTree(st, i+1) }})
				before = append(before, bnot(m))
			}
			return
		}
	}
	if len(as) == 0 {
		return []*specAlt{{name: where, next: sig(d.content)}}
	}
	var r []*specAlt
	var before []*Term
	for j, a := range as {
		is := mkEqSeq(fp(a, d.attrT, 0), oidMessageDigest)
		val := fp(a, d.attrT, 1, 3)
		bt := types.NewSlice(types.Typ[types.Byte])
		r = append(r, &specAlt{name: fmt.Sprintf("%s digest in attribute %d", where, j), disc: append(append([]*Term{}, before...), is),
			conds: []*Term{asn1OK("[]byte", "", val), mkEqSeq(specSeq(asn1Val(bt, "", val)), mkHash(cbytes("sm3"), nil, d.content))}, names: []string{"a well-formed message digest", "the SM3 digest of the content"},
			next: sig(d.encoded(as))})
		before = append(before, bnot(is))
	}
	return r
}

// isList: the term is a list of signers, attributes or certificates.
func (d *p7check) isList(t *Term) bool {
	if t.typ == nil {
		return false
	}
	el := t.typ
	if s, ok := t.typ.Underlying().(*types.Slice); ok {
		el = s.Elem()
	}
	for _, x := range []types.Type{d.sT, d.attrT, d.certT} {
		if types.Identical(el, x) {
			return true
		}
	}
	return false
}

func checkP7Verify(c *Ctx) {
	fn := c.P.fn("x509", "PKCS7.Verify")
	if !c.oblige("anchor", "x509.PKCS7.Verify", 0, fn != nil, "Verify is not found") {
		return
	}
	cases := [][3]int{{0, 0, 1}, {1, 0, 0}, {1, 0, 2}, {1, 1, 1}, {1, 2, 1}, {1, 3, 1}, {1, 1, 2}, {2, 0, 1}, {2, 1, 1}}
	if c.tier == "thorough" {
		cases = append(cases, [3]int{3, 0, 1}, [3]int{1, 0, 3}, [3]int{2, 1, 2}, [3]int{1, 4, 1})
	}
	for _, cs := range cases {
		d := newP7(c, fn)
		if d == nil {
			return
		}
		entry, _, outs, ok := c.analyseWith(d.e, fn, func(st *State, args []*Term) []*Term {
			st.assume(bnot(mkIsNil(args[0])))
			d.shape(st, args[0], cs[0], cs[1], cs[2])
			return args
		})
		if !ok {
			continue
		}
		c.noPanic(d.e, fn, outs)
		name := fmt.Sprintf("%d signers, %d attributes, %d certificates", cs[0], cs[1], cs[2])
		var root []*specAlt
		if cs[0] > 0 {
			root = []*specAlt{{name: name, next: func() []*specAlt { return d.signerTree(entry, 0) }}}
		}
		if root == nil {
			for _, b := range splitBool(outs, errNil) {
				c.oblige("a message without signers is never valid", short(fn), atPos(b.o), !b.val, "success without signers")
			}
			continue
		}
		specCheck(c, fn, outs, root, errNil, func(*State, Outcome, *specAlt) (string, bool) { return "", true })
	}
	// Any number of signers, attributes and certificates.
	if d := newP7(c, fn); d != nil {
		_, _, outs, ok := c.analyseWith(d.e, fn, func(st *State, args []*Term) []*Term {
			st.assume(bnot(mkIsNil(args[0])))
			return args
		})
		if ok {
			c.uniform(d.e, fn, outs, d.isList, 1)
		}
	}
}

// checkOnlySigner: GetOnlySigner returns the first certificate with the issuer and serial number of the only signer, else nil.
func checkOnlySigner(c *Ctx) {
	fn := c.P.fn("x509", "PKCS7.GetOnlySigner")
	if !c.oblige("anchor", "x509.PKCS7.GetOnlySigner", 0, fn != nil, "GetOnlySigner is not found") {
		return
	}
	const rule = "the only signer's certificate is returned, or nil"
	for _, cs := range [][2]int{{0, 1}, {1, 0}, {1, 1}, {1, 2}, {2, 1}} {
		d := newP7(c, fn)
		if d == nil {
			return
		}
		entry, _, outs, ok := c.analyseWith(d.e, fn, func(st *State, args []*Term) []*Term {
			st.assume(bnot(mkIsNil(args[0])))
			d.shape(st, args[0], cs[0], 0, cs[1])
			return args
		})
		if !ok {
			continue
		}
		c.noPanic(d.e, fn, outs)
		where := fmt.Sprintf("%s, %d signers, %d certificates", short(fn), cs[0], cs[1])
		check := func(conds []*Term, want *Term) {
			for _, o := range outs {
				s := o.st.clone()
				if contradictory(s, conds...) {
					continue
				}
				for _, k := range conds {
					s.assume(k)
				}
				c.oblige(rule, where, atPos(o), s.norm(o.r(0)) == s.norm(want) || o.r(0) == want || want == tNil && holds(s, mkIsNil(o.r(0))), "returns %s, not %s", o.r(0).str(5), want.str(5))
			}
		}
		if cs[0] != 1 {
			check(nil, tNil)
			continue
		}
		var before []*Term
		for _, x := range d.certs {
			m := d.matches(entry, x, d.signers[0])
			check(append(append([]*Term{}, before...), m), x)
			before = append(before, bnot(m))
		}
		check(before, tNil)
	}
	if d := newP7(c, fn); d != nil {
		_, _, outs, ok := c.analyseWith(d.e, fn, func(st *State, args []*Term) []*Term {
			st.assume(bnot(mkIsNil(args[0])))
			return args
		})
		if ok {
			c.uniform(d.e, fn, outs, d.isList, 1)
		}
	}
}

const schemaP7Signed = "{int default:1;[]" + schemaAlg + " set;" + schemaP7CI + ";{RawContent} optional,tag:0;[]{{RawContent;int optional,default:0;" + schemaAlg + ";[][]SET{ObjectIdentifier;any};Time;Time optional;[]{*Int;Time;[]{ObjectIdentifier;bool optional;[]byte} optional} optional;[]{ObjectIdentifier;bool optional;[]byte} tag:0,optional,explicit};" + schemaAlg + ";BitString} optional,tag:1;[]" + schemaSigner + " set}"

// parsedCertsHook makes ParseCertificates an operation of its own: certs.ok/certs of the bytes.
func (d *p7check) parsedCertsHook() {
	fn := d.c.P.fn("x509", "ParseCertificates")
	next := d.e.callHook
	d.e.callHook = func(f *ssa.Function, st *State, args []*Term) []Outcome {
		if f == nil || f != fn {
			if next == nil {
				return nil
			}
			return next(f, st, args)
		}
		s := d.e.seqOf(st, args[0])
		return fork2(st, "ParseCertificates", mk("certs.ok", "", KBool, 0, s), func(st *State) []*Term {
			l := certsTerm("", s, f.Signature.Results().At(0).Type())
			x := d.e.seqOf(st, l)
			b := bvar(x)
			st.assume(mkForall(b, bnot(mkIsNil(seqSel(x, b))), seqLen(x)))
			return []*Term{l}
		}, 2)
	}
}

func checkP7Parse(c *Ctx) {
	fn := c.P.fn("x509", "ParsePKCS7")
	if !c.oblige("anchor", "x509.ParsePKCS7", 0, fn != nil && c.P.fn("x509", "ParseCertificates") != nil && c.P.fn("x509", "PKCS7.Verify") != nil, "ParsePKCS7, ParseCertificates or Verify is not found") {
		return
	}
	d := newP7(c, c.P.fn("x509", "PKCS7.Verify"))
	if d == nil {
		return
	}
	ciT, sdT := bySchema(c, "x509", "contentInfo", schemaP7CI), bySchema(c, "x509", "signedData", schemaP7Signed)
	if ciT == nil || sdT == nil {
		return
	}
	d.parsedCertsHook()
	e := d.e
	_, args, outs, ok := c.analyseWith(e, fn, nil)
	if !ok {
		return
	}
	c.noPanic(e, fn, outs)
	data := e.seqOf(outs[0].st, args[0])
	rvT := structType(ciT).Field(1).Type()
	outer, ov := strictDER(ciT, data)
	inner := specSeq(fp(ov, ciT, 1, 3))
	sd := asn1Val(sdT, "", inner)
	certs := specSeq(fp(sd, sdT, 3, 0))
	certVal := asn1Val(rvT, "", certs)
	certBytes := specSeq(fp(certVal, rvT, 3))
	certsT := c.P.fn("x509", "ParseCertificates").Signature.Results().At(0).Type()
	cb := specSeq(fp(sd, sdT, 2, 1, 3))
	cv := asn1Val(rvT, "", cb)
	cvb := specSeq(fp(cv, rvT, 3))
	content := func(certs *Term) func() []*specAlt {
		return func() []*specAlt {
			present := bnot(mkEq0(seqLen(cb)))
			ok, okn := asn1OK(asn1Schema(rvT), "", cb), "a well-formed content element"
			bt := types.NewSlice(types.Typ[types.Byte])
			return []*specAlt{
				{name: "no content", disc: []*Term{bnot(present)}, vals: []*Term{tEmpty, certs}},
				{name: "primitive content", disc: []*Term{present, bnot(fp(cv, rvT, 2))}, conds: []*Term{ok}, names: []string{okn}, vals: []*Term{cvb, certs}},
				{name: "constructed content", disc: []*Term{present, fp(cv, rvT, 2)}, conds: []*Term{ok, asn1OK("[]byte", "", cvb)}, names: []string{okn, "an octet string inside"}, vals: []*Term{specSeq(asn1Val(bt, "", cvb)), certs}},
			}
		}
	}
	root := []*specAlt{{name: "",
		conds: append(append([]*Term{bnot(mkEq0(seqLen(data)))}, outer...), mkEqSeq(specSeq(fp(ov, ciT, 0)), oidGMSignedT), asn1OK(asn1Schema(sdT), "", inner)),
		names: []string{"a non-empty input", "a well-formed ContentInfo", "nothing after it", "the type of signed data", "well-formed signed data"},
		next: func() []*specAlt {
			return []*specAlt{
				{name: "without certificates", disc: []*Term{mkEq0(seqLen(certs))}, next: content(tEmpty)},
				{name: "with certificates", disc: []*Term{bnot(mkEq0(seqLen(certs)))}, conds: []*Term{asn1OK(asn1Schema(rvT), "", certs), mk("certs.ok", "", KBool, 0, certBytes)}, names: []string{"a well-formed certificate element", "parsable certificates"},
					next: content(specSeq(certsTerm("", certBytes, certsT)))},
			}
		}}}
	specCheck(c, fn, outs, root, errNil, func(st *State, o Outcome, leaf *specAlt) (string, bool) {
		p := o.r(0)
		for _, f := range []struct {
			name string
			want *Term
		}{{"Content", leaf.vals[0]}, {"Certificates", leaf.vals[1]}, {"Signers", specSeq(fp(sd, sdT, 5))}, {"CRLs", specSeq(fp(sd, sdT, 4))}} {
			got, _ := e.field(st, e.load(st, p), d.p7T, f.name)
			if got == nil || !sameSeq(st, e.seqOf(st, got), f.want) {
				return fmt.Sprint(f.name, " is not that of the message: ", e.seqOf(st, got).str(5), " ", f.want.str(5)), false
			}
		}
		return "", true
	})
}

// checkSignedAttribute: UnmarshalSignedAttribute on what ParsePKCS7 returns decodes the first attribute of the type of the first signer.
func checkSignedAttribute(c *Ctx) {
	parse, fn := c.P.fn("x509", "ParsePKCS7"), c.P.fn("x509", "PKCS7.UnmarshalSignedAttribute")
	if !c.oblige("anchor", "x509.PKCS7.UnmarshalSignedAttribute", 0, parse != nil && fn != nil && c.P.fn("x509", "PKCS7.Verify") != nil, "ParsePKCS7, UnmarshalSignedAttribute or Verify is not found") {
		return
	}
	d := newP7(c, c.P.fn("x509", "PKCS7.Verify"))
	if d == nil {
		return
	}
	d.parsedCertsHook()
	e := d.e
	_, _, parsed, ok := c.analyseWith(e, parse, nil)
	if !ok {
		return
	}
	oid := fn.Signature.Params().At(0).Type()
	outTypes := []types.Type{types.NewSlice(types.Typ[types.Byte]), oid}
	if i := fieldIndex(deref(d.certT), "NotBefore"); i >= 0 {
		outTypes = append(outTypes, structType(deref(d.certT)).Field(i).Type())
	}
	cases := [][2]int{{0, 0}, {1, 0}, {1, 1}, {1, 2}, {1, 3}, {2, 1}}
	if c.tier == "thorough" {
		cases = append(cases, [2]int{2, 3}, [2]int{1, 4}, [2]int{3, 1})
	}
	// A message with n signers of whom the first has m attributes; n < 0: any message.
	call := func(b boolCase, n, m int, out types.Type) (*Term, *Term, []*Term, []Outcome, bool) {
		p7 := b.o.r(0)
		got, _ := e.field(b.st, e.load(b.st, p7), d.p7T, "Signers")
		signers := e.seqOf(b.st, got)
		first := specSeq(fp(seqSel(signers, tZero), d.sT, 3))
		var typ, cell *Term
		var as []*Term
		entry, _, outs, ok := c.analyseWith(e, fn, func(st *State, args []*Term) []*Term {
			*st = *b.st.clone()
			if n >= 0 {
				st.assume(mkEqInt(seqLen(signers), ci(int64(n))))
			}
			if n > 0 {
				st.assume(mkEqInt(seqLen(first), ci(int64(m))))
				for j := 0; j < m; j++ {
					as = append(as, seqSel(first, ci(int64(j))))
				}
			}
			typ = sym("attributeType", oid)
			pt := types.NewPointer(out)
			cell = e.newPtr(st, "out", sym("before", out))
			e.pinned = append(e.pinned, cell)
			return []*Term{p7, typ, mkT("iface", tstr(pt), KVal, 0, pt, cell)}
		})
		_ = entry
		return typ, cell, as, outs, ok
	}
	for _, b := range splitBool(parsed, errNil) {
		if !b.val {
			continue
		}
		for _, out := range outTypes {
			for _, cs := range cases {
				e.knownLists = true
				typ, cell, as, outs, ok := call(b, cs[0], cs[1], out)
				e.knownLists = false
				if !ok {
					continue
				}
				c.noPanic(e, fn, outs)
				var root []*specAlt
				var before []*Term
				for j, a := range as {
					is := mkEqSeq(fp(a, d.attrT, 0), specSeq(typ))
					val := fp(a, d.attrT, 1, 3)
					root = append(root, &specAlt{name: fmt.Sprintf("attribute %d of %d, %d signers, into %s", j, len(as), cs[0], tstr(out)), disc: append(append([]*Term{}, before...), is),
						conds: []*Term{asn1OK(asn1Schema(out), "", val)}, names: []string{"a well-formed value"}, vals: []*Term{asn1Val(out, "", val)}})
					before = append(before, bnot(is))
				}
				if root == nil {
					for _, r := range splitBool(outs, errNil) {
						c.oblige("no attribute, no success", short(fn), atPos(r.o), !r.val, "success without an attribute of that type")
					}
					continue
				}
				specCheck(c, fn, outs, root, errNil, func(st *State, o Outcome, leaf *specAlt) (string, bool) {
					now := e.load(st, cell)
					if st.norm(e.snap(st, now)) == st.norm(leaf.vals[0]) || isSliceType(out) && sameSeq(st, e.seqOf(st, now), specSeq(leaf.vals[0])) {
						return "", true
					}
					return "the value is not that of the attribute: " + clip(now.str(5), 120), false
				})
			}
		}
		if _, _, _, outs, ok := call(b, -1, 0, outTypes[0]); ok {
			c.noPanic(e, fn, outs)
			c.uniform(e, fn, outs, d.isList, 1)
		}
	}
}

func isSliceType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func init() {
	tr := []string{"the standard library and golang.org/x/crypto behave as documented", "golang.org/x/tools/go/ssa"}
	addCheck(&Check{id: "C25", rule: "abstract interpretation of PKCS#7 verification against the specified decision tree over signers, attributes and certificates", run: func(c *Ctx) { checkP7Verify(c); checkOnlySigner(c) }, trusted: tr})
	addCheck(&Check{id: "C35", rule: "abstract interpretation of signed-attribute lookup on parsed messages against the specified decision tree and result", run: checkSignedAttribute, trusted: tr})
	addCheck(&Check{id: "C36", rule: "abstract interpretation of PKCS#7 parsing against the specified decision tree and result", run: checkP7Parse, trusted: tr})
}
