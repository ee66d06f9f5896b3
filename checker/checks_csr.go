package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Certificate requests and revocation lists are parsed exactly if well-formed, into the values they encode.

const (
	schemaRawAlg  = "{ObjectIdentifier;RawValue optional}"
	schemaPubInfo = "{RawContent;" + schemaRawAlg + ";BitString}"
	schemaCSR     = "{RawContent;{RawContent;int;RawValue;" + schemaPubInfo + ";[]RawValue tag:0};" + schemaRawAlg + ";BitString}"
	schemaP10Attr = "{ObjectIdentifier;[]RawValue set}"
)

// structBySchema finds the structure of the form schema among the types the package's functions allocate.
func structBySchema(c *Ctx, pkg, schema string) types.Type {
	var found types.Type
	for _, f := range c.P.allFuncs() {
		if f.Pkg != c.P.pkgs[pkg] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && found == nil {
					if t := deref(a.Type()); structType(t) != nil && asn1Schema(t) == schema {
						found = t
					}
				}
			}
		}
	}
	c.oblige("anchor", pkg, 0, found != nil, "no type of the form %s", schema)
	return found
}

type csrLeaf struct {
	key   *specAlt
	attrs []*Term
	exts  []*Term
	eff   extEffects
}

// csrRun decides requests with len(exts) attributes; attribute i, if it requests extensions, requests exts[i] of them, each of them, if it is one of names, with names of the kinds tags.
func (k *extReader) csrRun(fn *ssa.Function, reqT, csrT, p10T types.Type, exts []int, tags []int64) {
	c, e := k.c, k.e
	attrT, rdnT := c.libType("crypto/x509/pkix", "AttributeTypeAndValueSET"), c.libType("crypto/x509/pkix", "RDNSequence")
	listT := types.NewSlice(k.extT)
	rvT := structType(p10T).Field(1).Type().(*types.Slice).Elem()
	san := sanCase(tags...)
	tbsT := structType(csrT).Field(1).Type()
	keyT := structType(tbsT).Field(3).Type()
	attrSchema, p10Schema, listSchema := asn1Schema(attrT), asn1Schema(p10T), asn1Schema(listT)

	var outer []*Term
	var v, subject *Term
	type attr struct{ der, p10, ext, list *Term }
	attrs := make([]attr, len(exts))
	entry, _, outs, ok := c.analyseWith(e, fn, func(st *State, args []*Term) []*Term {
		data := e.seqOf(st, args[0])
		outer, v = strictDER(csrT, data)
		subject = specSeq(fp(v, csrT, 1, 2, 4))
		raw := specSeq(fp(v, csrT, 1, 4))
		st.assume(mkEqInt(seqLen(raw), ci(int64(len(exts)))))
		for i, n := range exts {
			a := &attrs[i]
			a.der = specSeq(fp(seqSel(raw, ci(int64(i))), rvT, 4))
			a.p10 = asn1Val(p10T, "", a.der)
			a.ext = specSeq(fp(seqSel(specSeq(fp(a.p10, p10T, 1)), tZero), rvT, 4))
			a.list = specSeq(asn1Val(listT, "", a.ext))
			if len(tags) > 0 { // keys of all kinds are decided in the other shapes
				for _, x := range newSPKI(c, e, st, keyT, fp(v, csrT, 1, 3)).alts() {
					st.assume(bnot(mkAnd(x.disc...)))
				}
			}
			st.assume(mkEqInt(seqLen(a.list), ci(int64(n))))
			for j := 0; j < n; j++ {
				san.prep(k, st, specSeq(fp(seqSel(a.list, ci(int64(j))), k.extT, 2)))
			}
		}
		return args
	})
	if !ok {
		return
	}
	c.noPanic(e, fn, outs)
	leaves := map[*specAlt]csrLeaf{}
	// the extensions of attribute i from number j on
	var extTree func(i, j int, l csrLeaf, next func(csrLeaf) []*specAlt) []*specAlt
	extTree = func(i, j int, l csrLeaf, next func(csrLeaf) []*specAlt) []*specAlt {
		if j == exts[i] {
			return next(l)
		}
		x := seqSel(attrs[i].list, ci(int64(j)))
		id, value := specSeq(fp(x, k.extT, 0)), specSeq(fp(x, k.extT, 2))
		is := mkEqSeq(id, oid29(17))
		l.exts = append(l.exts[:len(l.exts):len(l.exts)], x)
		return []*specAlt{
			{name: fmt.Sprintf("extension %d is another", j+1), disc: []*Term{bnot(is)}, next: func() []*specAlt { return extTree(i, j+1, l, next) }},
			{name: fmt.Sprintf("extension %d has alternative names", j+1), disc: []*Term{is}, next: func() []*specAlt {
				return san.tree(k, extIn{id: id, value: value}, l.eff, func(eff extEffects, unhandled bool) []*specAlt {
					l := l
					l.eff = eff
					return extTree(i, j+1, l, next)
				})
			}},
		}
	}
	var attrTree func(i int, l csrLeaf) []*specAlt
	attrTree = func(i int, l csrLeaf) []*specAlt {
		if i == len(exts) {
			a := &specAlt{}
			leaves[a] = l
			return one(a)
		}
		a := attrs[i]
		whole := func(schema string) *Term {
			return mkAnd(asn1OK(schema, "", a.der), mkEq0(seqLen(asn1Rest(schema, "", a.der))))
		}
		request := mkAnd(whole(p10Schema), mkGe0(iSub(seqLen(specSeq(fp(a.p10, p10T, 1))), tOne)), mkEqSeq(specSeq(fp(a.p10, p10T, 0)), oidTerm(1, 2, 840, 113549, 1, 9, 14)))
		var alts []*specAlt
		for _, set := range []bool{false, true} {
			for _, req := range []bool{false, true} {
				l := l
				x := &specAlt{name: fmt.Sprintf("attribute %d", i+1)}
				if set {
					x.name += " of values"
					x.disc = append(x.disc, whole(attrSchema))
					l.attrs = append(l.attrs[:len(l.attrs):len(l.attrs)], asn1Val(attrT, "", a.der))
				} else {
					x.disc = append(x.disc, bnot(whole(attrSchema)))
				}
				if req {
					x.name += " requesting extensions"
					x.disc = append(x.disc, request)
					x.conds, x.names = []*Term{asn1OK(listSchema, "", a.ext)}, []string{"a list of extensions"}
					x.next = func() []*specAlt {
						return extTree(i, 0, l, func(l csrLeaf) []*specAlt { return attrTree(i+1, l) })
					}
				} else {
					x.disc = append(x.disc, bnot(request))
					x.next = func() []*specAlt { return attrTree(i+1, l) }
				}
				alts = append(alts, x)
			}
		}
		return alts
	}
	sp := newSPKI(c, e, entry, keyT, fp(v, csrT, 1, 3))
	outer = append(outer, asn1OK(asn1Schema(rdnT), "", subject), mkEq0(seqLen(asn1Rest(asn1Schema(rdnT), "", subject))))
	root := one(&specAlt{name: fmt.Sprintf("attributes %v, names %x", exts, tags), conds: outer, names: []string{"a well-formed request", "nothing after it", "a well-formed subject", "nothing after the subject"},
		next: func() []*specAlt {
			return sp.orOther(func(key *specAlt) []*specAlt { return attrTree(0, csrLeaf{key: key}) })
		}})
	specCheck(c, fn, outs, root, errNil, func(st *State, o Outcome, leaf *specAlt) (string, bool) {
		l := leaves[leaf]
		p := o.r(0)
		get := func(n string) *Term {
			v, _ := e.field(st, p, types.NewPointer(reqT), n)
			if v == nil {
				return mk("none", n, KVal, 0)
			}
			return v
		}
		bt := types.NewSlice(types.Typ[types.Byte])
		for n, want := range map[string]*Term{"Raw": fp(v, csrT, 0), "RawTBSCertificateRequest": fp(v, csrT, 1, 0), "RawSubjectPublicKeyInfo": fp(v, csrT, 1, 3, 0), "RawSubject": fp(v, csrT, 1, 2, 4),
			"Signature": mkTyped("app", "(encoding/asn1.BitString).RightAlign", bt, fp(v, csrT, 3))} {
			if g := e.seqOf(st, get(n)); !sameSeq(st, g, specSeq(want)) {
				return fmt.Sprintf("%s is not the one encoded: %s", n, g.str(5)), false
			}
		}
		alg := sigAlgTerm(specSeq(fp(v, csrT, 2, 0)), specSeq(fp(v, csrT, 2, 1, 4)))
		for n, want := range map[string]*Term{"Version": fp(v, csrT, 1, 1), "SignatureAlgorithm": alg} {
			if g := get(n); st.eval2(mkEqInt(g, want)) != tTrue {
				return fmt.Sprintf("%s is not the one encoded: %s", n, g.str(5)), false
			}
		}
		if g := e.snap(st, get("Subject")); g.op != "filled" || st.norm(derefs(g.a[0])) != st.norm(asn1Val(rdnT, "", subject)) && !sameSeq(st, specSeq(derefs(g.a[0])), specSeq(asn1Val(rdnT, "", subject))) {
			return "Subject is not the name encoded: " + g.str(6), false
		}
		if why, ok := sp.inFields(st, get("PublicKey"), get("PublicKeyAlgorithm"), l.key); !ok {
			return why, false
		}
		list := func(n string, want []*Term, t types.Type) (string, bool) {
			got := e.seqOf(st, get(n))
			if st.eval2(mkEqInt(seqLen(got), ci(int64(len(want))))) != tTrue {
				return fmt.Sprintf("%s has %s elements, not %d", n, st.norm(seqLen(got)).str(4), len(want)), false
			}
			for i, w := range want {
				g := st.norm(e.project(st, got, mk("idx", "", KVal, 0, ci(int64(i)))))
				if s := structType(t); g != st.norm(w) {
					for j := 0; j < s.NumFields(); j++ {
						x, y := fld(g, t, j), fld(w, t, j)
						if _, ok := s.Field(j).Type().Underlying().(*types.Slice); ok {
							if !sameSeq(st, e.seqOf(st, x), specSeq(y)) {
								return fmt.Sprintf("element %d of %s is not the one encoded: %s", i+1, n, e.snap(st, x).str(5)), false
							}
						} else if st.norm(x) != st.norm(y) {
							return fmt.Sprintf("element %d of %s is not the one encoded: %s", i+1, n, e.snap(st, x).str(5)), false
						}
					}
				}
			}
			return "", true
		}
		if why, ok := list("Attributes", l.attrs, attrT); !ok {
			return why, false
		}
		if why, ok := list("Extensions", l.exts, k.extT); !ok {
			return why, false
		}
		for _, n := range []string{"DNSNames", "EmailAddresses", "IPAddresses", "URIs", "ExtraExtensions"} {
			g := get(n)
			if f := l.eff.set[n]; f != nil {
				if !f(st, g) {
					return n + " is not what the extension says: " + e.snap(st, g).str(5), false
				}
			} else if st.eval2(mkEq0(seqLen(e.seqOf(st, g)))) != tTrue {
				return n + " is not empty: " + e.snap(st, g).str(5), false
			}
		}
		return "", true
	})
}

// derefs gives what t refers to.
func derefs(t *Term) *Term {
	if t.op == "ref" {
		return t.a[0]
	}
	return t
}

func checkRequests(c *Ctx) {
	fn := c.P.fn("x509", "ParseCertificateRequest")
	reqO := c.P.pkgs["x509"].Pkg.Scope().Lookup("CertificateRequest")
	if !c.oblige("anchor", "x509.ParseCertificateRequest", 0, fn != nil && reqO != nil, "ParseCertificateRequest is not found") {
		return
	}
	k := newExtReader(c)
	if k == nil {
		return
	}
	csrT, p10T := bySchema(c, "x509", "certificateRequest", schemaCSR), structBySchema(c, "x509", schemaP10Attr)
	if csrT == nil || p10T == nil {
		return
	}
	run := func(exts []int, tags ...int64) { k.csrRun(fn, reqO.Type(), csrT, p10T, exts, tags) }
	run(nil)
	run([]int{0})
	run([]int{1})
	for _, t := range []int64{0x81, 0x82, 0x84, 0x86, 0x87} {
		run([]int{1}, t)
	}
	run([]int{1}, 0x82, 0x81, 0x82)
	run([]int{2}, 0x82)
	run([]int{1, 1}, 0x82)
	run([]int{0, 1}, 0x81)
	run([]int{2, 0}, 0x81)
}

func init() {
	addCheck(&Check{id: "C38", rule: "abstract interpretation of the parsers of requests and revocation lists against the specified decision tree and values", run: func(c *Ctx) { checkRequests(c); checkCRLs(c) },
		assume:  []string{"lists (attributes, extensions, names) are decided per length up to the bound, with arbitrary elements"},
		trusted: []string{"encoding/asn1 as modelled in models_asn1.go, and the primitives of certificate parsing (C21, C24)"}})
}

// checkCRLs: a list is parsed from DER, or from a PEM block of type X509 CRL.
func checkCRLs(c *Ctx) {
	listT := c.libType("crypto/x509/pkix", "CertificateList")
	for _, name := range []string{"ParseCRL", "ParseDERCRL"} {
		fn := c.P.fn("x509", name)
		if !c.oblige("anchor", "x509."+name, 0, fn != nil, "%s is not found", name) {
			continue
		}
		e := keysEngine(c)
		entry, args, outs, ok := c.analyse(e, fn)
		if !ok {
			continue
		}
		c.noPanic(e, fn, outs)
		data := e.seqOf(entry, args[0])
		leaf := func(name string, data *Term, disc ...*Term) *specAlt {
			conds, v := strictDER(listT, data)
			return &specAlt{name: name, disc: disc, conds: conds, names: []string{"a well-formed list", "nothing after it"}, vals: []*Term{v}}
		}
		root := one(leaf("DER", data))
		if name == "ParseCRL" {
			prefix := mk("app", "hasprefix", KBool, 0, data, cbytes("-----BEGIN X509 CRL"))
			blockT, bytesT := types.NewPointer(c.libType("encoding/pem", "Block")), types.NewSlice(types.Typ[types.Byte])
			dec := pure("encoding/pem.Decode", types.NewTuple(types.NewVar(0, nil, "", blockT), types.NewVar(0, nil, "", bytesT)), data)
			block := dec.a[0]
			typ, _ := e.field(entry, block, blockT, "Type")
			body, _ := e.field(entry, block, blockT, "Bytes")
			is := mkAnd(bnot(mkIsNil(block)), mkEqSeq(specSeq(typ), cbytes("X509 CRL")))
			root = []*specAlt{
				leaf("DER", data, bnot(prefix)),
				{name: "PEM prefix", disc: []*Term{prefix}, next: func() []*specAlt {
					return []*specAlt{leaf("not PEM", data, bnot(is)), leaf("PEM", specSeq(body), is)}
				}},
			}
		}
		specCheck(c, fn, outs, root, errNil, func(st *State, o Outcome, leaf *specAlt) (string, bool) {
			got := st.norm(e.snap(st, o.r(0)))
			return "the list is not the one encoded: " + clip(got.str(4), 200), derefs(got) == st.norm(leaf.vals[0])
		})
	}
}
