package main

import (
	"encoding/asn1"
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- the DER form of what encoding/asn1 and cryptobyte write

type derForm struct {
	e  *Engine
	st *State
}

func derTLV(tag int64, content *Term) *Term {
	if content.op == "bytes" || content == tEmpty {
		s := ""
		if content != tEmpty {
			s = content.s
		}
		h := []byte{byte(tag)}
		switch n := len(s); {
		case n < 128:
			h = append(h, byte(n))
		case n < 256:
			h = append(h, 0x81, byte(n))
		default:
			h = append(h, 0x82, byte(n>>8), byte(n))
		}
		return cbytes(string(h) + s)
	}
	return tlv(ci(tag), content)
}

func derOpt(st *State, cond, s *Term) *Term {
	switch st.eval2(cond) {
	case tTrue:
		return s
	case tFalse:
		return tEmpty
	}
	yes := st.clone()
	yes.assume(cond)
	return mk("der.opt", "", KSeq, 0, cond, derForm{st: yes}.form(s))
}

func (d derForm) int(x *Term) *Term {
	if x = d.st.norm(x); x.op != "int" && d.st.eval2(mkEq0(x)) == tTrue {
		x = tZero
	}
	if x.op == "int" {
		b, _ := asn1.Marshal(new(big.Int).Set(x.n))
		return cbytes(string(b[2:]))
	}
	return mk("derint", "", KSeq, 0, x)
}

func (d derForm) oid(x *Term) *Term {
	x = specSeq(x)
	if x.op == "list" {
		var o asn1.ObjectIdentifier
		for _, a := range x.a {
			n, ok := constInt(a)
			if !ok {
				return mk("deroid", "", KSeq, 0, x)
			}
			o = append(o, int(n))
		}
		if b, err := asn1.Marshal(o); err == nil {
			return cbytes(string(b[2:]))
		}
	}
	return mk("deroid", "", KSeq, 0, x)
}

func (d derForm) bool(x *Term) *Term {
	switch d.st.eval2(x) {
	case tTrue:
		return cbytes("\xff")
	case tFalse:
		return cbytes("\x00")
	}
	return mk("derbool", "", KSeq, 0, x)
}

// form rewrites the encodings in t.
func (d derForm) form(t *Term) *Term {
	switch t.op {
	case "cat":
		r := tEmpty
		for _, x := range t.a {
			r = seqCat(r, d.form(x))
		}
		return r
	case "asn1enc":
		s, params := t.s, ""
		if i := strings.LastIndexByte(s, '|'); i >= 0 && !strings.ContainsAny(s[i:], "{}") {
			s, params = s[:i], s[i+1:]
		}
		return d.enc(s, params, t.a[0])
	case "tlv":
		if n, ok := constInt(t.a[0]); ok {
			return derTLV(n, d.form(t.a[1]))
		}
	case "derint":
		return d.int(t.a[0])
	case "deroid":
		return d.oid(t.a[0])
	case "derbool":
		return d.bool(t.a[0])
	}
	return t
}

// zero: v is the zero value for certain.
func (d derForm) zero(v *Term) bool {
	if v == tNil || v == tFalse || v == tZero || v == tEmpty {
		return true
	}
	if v.op == "struct" {
		for _, x := range v.a {
			if !d.zero(x) {
				return false
			}
		}
		return true
	}
	return false
}

func splitTop(s string, sep byte) (parts []string) {
	depth, from := 0, 0
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '{':
			depth++
		case s[i] == '}':
			depth--
		case s[i] == sep && depth == 0:
			parts = append(parts, s[from:i])
			from = i + 1
		}
	}
	return append(parts, s[from:])
}

// enc is the encoding of v with this schema and these field parameters.
func (d derForm) enc(schema, params string, v *Term) *Term {
	opts := map[string]string{}
	for _, p := range strings.Split(params, ",") {
		if i := strings.IndexByte(p, ':'); i >= 0 {
			opts[p[:i]] = p[i+1:]
		} else if p != "" {
			opts[p] = ""
		}
	}
	_, optional := opts["optional"]
	_, omit := opts["omitempty"]
	def, hasDef := opts["default"]
	if (optional && !hasDef || omit) && d.zero(v) {
		return tEmpty
	}
	tag, content, full := d.value(schema, opts, v)
	r := full
	if r == nil {
		if content == nil {
			return mk("der.unknown", schema+params, KSeq, 0, v)
		}
		r = derTLV(tag, content)
	}
	if n, err := strconv.ParseInt(opts["tag"], 10, 64); err == nil {
		if _, ok := opts["explicit"]; ok {
			r = derTLV(0xa0|n, r)
		} else if full == nil {
			r = derTLV(0x80|n|tag&0x20, content)
		}
	}
	if optional {
		switch {
		case hasDef:
			n, _ := strconv.ParseInt(def, 10, 64)
			return derOpt(d.st, bnot(mkEqInt(v, ci(n))), r)
		case v.k == KBool:
			return derOpt(d.st, v, r)
		case v.k == KInt:
			return derOpt(d.st, bnot(mkEq0(v)), r)
		}
	}
	return r
}

func (d derForm) value(schema string, opts map[string]string, v *Term) (tag int64, content, full *Term) {
	field := func(i int) *Term {
		if v.op == "struct" && i < len(v.a) {
			return v.a[i]
		}
		return mk("der.unknown", schema, KSeq, 0, v)
	}
	switch {
	case schema == "RawValue":
		if f := specSeq(field(4)); f != tEmpty {
			return 0, nil, d.form(f)
		}
		class, ok1 := constInt(field(0))
		t, ok2 := constInt(field(1))
		if !ok1 || !ok2 || t > 30 || field(2) != tTrue && field(2) != tFalse {
			return
		}
		if field(2) == tTrue {
			t |= 0x20
		}
		return class<<6 | t, d.form(specSeq(field(3))), nil
	case schema == "ObjectIdentifier":
		return 6, d.oid(v), nil
	case schema == "BitString":
		n, ok := constInt(d.st.norm(field(1)))
		b := specSeq(field(0))
		l, ok2 := constInt(d.st.norm(seqLen(b)))
		if ok && ok2 && n <= 8*l {
			return 3, seqCat(cbytes(string([]byte{byte((8 - n%8) % 8)})), d.form(b)), nil
		}
	case schema == "bool":
		return 1, d.bool(v), nil
	case schema == "int":
		return 2, d.int(v), nil
	case schema == "[]byte":
		return 4, d.form(specSeq(v)), nil
	case strings.HasPrefix(schema, "[]"):
		el, tg := schema[2:], int64(0x30)
		if strings.HasPrefix(el, "SET") {
			el, tg = el[3:], 0x31
		}
		if _, ok := opts["set"]; ok {
			tg = 0x31
		}
		s := specSeq(v)
		n, ok := constInt(d.st.norm(seqLen(s)))
		if !ok {
			return
		}
		r := tEmpty
		for i := int64(0); i < n; i++ {
			r = seqCat(r, d.enc(el, "", d.st.norm(seqSel(s, ci(i)))))
		}
		return tg, r, nil
	case strings.HasPrefix(schema, "{"):
		if v.op != "struct" {
			return
		}
		r := tEmpty
		fs := splitTop(schema[1:len(schema)-1], ';')
		for i, f := range fs {
			t := splitTop(f, ' ')
			r = seqCat(r, d.enc(t[0], strings.Join(t[1:], " "), field(i)))
		}
		return 0x30, r, nil
	}
	return
}

// ---- the extensions a template asks for

type extWriter struct {
	*extReader
	tmplT types.Type // Certificate or CertificateRequest
	extra []extIn
}

type wext struct{ id, critical, value *Term }

// wpart is a part of a template: set fixes its shape, tree gives its cases.
type wpart struct {
	name string
	set  func(k *extWriter, st *State, t *Term) *Term
	tree func(k *extWriter, next func(x ...wext) []*specAlt) []*specAlt
}

func (k *extWriter) setField(t *Term, name string, v *Term) *Term {
	i := fieldIndex(k.tmplT, name)
	if i < 0 {
		return t
	}
	return setFld(t, k.tmplT, i, v)
}

// given: an extension of the template replaces the one that would be built.
func (k *extWriter) given(id *Term, next func(x ...wext) []*specAlt, build func() []*specAlt) (alts []*specAlt) {
	var not []*Term
	for i, x := range k.extra {
		is := mkEqSeq(x.id, id)
		alts = append(alts, &specAlt{name: fmt.Sprintf("given as extra extension %d", i+1), disc: append(not[:len(not):len(not)], is), next: func() []*specAlt { return next() }})
		not = append(not, bnot(is))
	}
	return append(alts, &specAlt{disc: not, next: build})
}

func strSym(name string) *Term { return specSeq(mkTyped("sym", name, types.Typ[types.String])) }

func (k *extWriter) list(st *State, name string, t types.Type, els []*Term) *Term {
	if len(els) == 0 {
		return tNil
	}
	return k.e.newSlice(st, name, mkListT(els, t))
}

func strs(name string, n int) (l []*Term) {
	for i := 0; i < n; i++ {
		l = append(l, strSym(fmt.Sprint(name, i)))
	}
	return
}

func concat(l ...[]*Term) (r []*Term) {
	for _, x := range l {
		r = append(r, x...)
	}
	return
}

func ia5All(l ...[]*Term) (conds []*Term, names []string) {
	for _, s := range concat(l...) {
		conds, names = append(conds, ia5OK(s)), append(names, "an IA5String")
	}
	return
}

func derSeq(l []*Term) *Term {
	r := tEmpty
	for _, x := range l {
		r = seqCat(r, x)
	}
	return derTLV(0x30, r)
}

func mapTerms(l []*Term, f func(*Term) *Term) (r []*Term) {
	for _, x := range l {
		r = append(r, f(x))
	}
	return
}

// plain is a part with one extension that is built whenever conds hold.
func plain(name string, set func(k *extWriter, st *State, t *Term) *Term, id *Term, x func(k *extWriter) (conds []*Term, names []string, ext wext)) wpart {
	return wpart{name: name, set: set, tree: func(k *extWriter, next func(x ...wext) []*specAlt) []*specAlt {
		return k.given(id, next, func() []*specAlt {
			conds, names, ext := x(k)
			ext.id = id
			return one(&specAlt{conds: conds, names: names, next: func() []*specAlt { return next(ext) }})
		})
	}}
}

func keyUsagePart(c *Ctx, bits int64) wpart {
	b := []byte{0, 0}
	n := int64(0)
	for i := int64(0); i < 9; i++ {
		if bits>>i&1 != 0 {
			b[i/8] |= 0x80 >> (i % 8)
			n = i + 1
		}
	}
	return plain(fmt.Sprintf("key usage %#x", bits), func(k *extWriter, st *State, t *Term) *Term { return k.setField(t, "KeyUsage", ci(bits)) }, oid29(15),
		func(k *extWriter) ([]*Term, []string, wext) {
			l := (n + 7) / 8
			return nil, nil, wext{critical: tTrue, value: derTLV(3, cbytes(string([]byte{byte(8*l - n)})+string(b[:l])))}
		})
}

// extKeyUsagePart: the usages given (by name; "": an unknown one) and n other identifiers.
func extKeyUsagePart(usages []string, n int) wpart {
	oidT := func(k *extWriter) types.Type { return k.c.libType("encoding/asn1", "ObjectIdentifier") }
	unknown := func(k *extWriter) (l []*Term) {
		for i := 0; i < n; i++ {
			l = append(l, specSeq(mkTyped("sym", fmt.Sprint("usage", i), oidT(k))))
		}
		return
	}
	return plain(fmt.Sprint("extended key usage ", usages, " and ", n, " others"), func(k *extWriter, st *State, t *Term) *Term {
		var us, os []*Term
		for _, u := range usages {
			v := ci(-1)
			if u == "" {
				v = sym("unknownUsage", types.Typ[types.Int])
				for name := range extUsageOIDs() {
					st.assume(bnot(mkEqInt(v, ci(k.c.constVal("x509", name)))))
				}
			} else {
				v = ci(k.c.constVal("x509", u))
			}
			us = append(us, v)
		}
		for i, o := range unknown(k) {
			os = append(os, k.e.newSlice(st, fmt.Sprint("usage", i), o))
		}
		t = k.setField(t, "ExtKeyUsage", k.list(st, "usages", types.Typ[types.Int], us))
		return k.setField(t, "UnknownExtKeyUsage", k.list(st, "others", oidT(k), os))
	}, oid29(37), func(k *extWriter) (conds []*Term, names []string, ext wext) {
		var l []*Term
		d := derForm{k.e, newState()}
		for _, u := range usages {
			if u == "" {
				conds, names = append(conds, tFalse), append(names, "a known usage")
				continue
			}
			l = append(l, derTLV(6, d.oid(extUsageOIDs()[u])))
		}
		for _, o := range unknown(k) {
			l = append(l, derTLV(6, d.oid(o)))
		}
		return conds, names, wext{critical: tFalse, value: derSeq(l)}
	})
}

func basicConstraintsPart() wpart {
	ca, zero, n := sym("isCA", types.Typ[types.Bool]), sym("pathZero", types.Typ[types.Bool]), sym("pathLen", types.Typ[types.Int])
	valid := sym("basicValid", types.Typ[types.Bool])
	return wpart{name: "basic constraints", set: func(k *extWriter, st *State, t *Term) *Term {
		t = k.setField(k.setField(t, "IsCA", ca), "BasicConstraintsValid", valid)
		return k.setField(k.setField(t, "MaxPathLen", n), "MaxPathLenZero", zero)
	}, tree: func(k *extWriter, next func(x ...wext) []*specAlt) []*specAlt {
		is0 := mkEq0(n)
		with := func(n *Term) func() []*specAlt {
			return func() []*specAlt {
				flag := mk("der.opt", "", KSeq, 0, ca, derTLV(1, cbytes("\xff")))
				v := tEmpty
				if n != ci(-1) {
					v = mk("der.opt", "", KSeq, 0, bnot(mkEqInt(n, ci(-1))), tlv(ci(2), mk("derint", "", KSeq, 0, n)))
				}
				return next(wext{oid29(19), tTrue, tlv(ci(0x30), seqCat(flag, v))})
			}
		}
		return []*specAlt{
			{name: "no basic constraints", disc: []*Term{bnot(valid)}, next: func() []*specAlt { return next() }},
			{name: "basic constraints", disc: []*Term{valid}, next: func() []*specAlt {
				return k.given(oid29(19), next, func() []*specAlt {
					return []*specAlt{
						{name: "no limit", disc: []*Term{is0, bnot(zero)}, next: with(ci(-1))},
						{name: "limit 0", disc: []*Term{is0, zero}, next: with(tZero)},
						{name: "limit", disc: []*Term{bnot(is0)}, next: with(n)},
					}
				})
			}},
		}
	}}
}

// keyIDPart: the key identifiers are arguments of the function.
func keyIDPart(subject bool) wpart {
	name, id := "authority key identifier", oid29(35)
	if subject {
		name, id = "subject key identifier", oid29(14)
	}
	return wpart{name: name, tree: func(k *extWriter, next func(x ...wext) []*specAlt) []*specAlt {
		s := specSeq(mkTyped("sym", name, types.NewSlice(types.Typ[types.Byte])))
		v := tlv(ci(4), s)
		if !subject {
			v = tlv(ci(0x30), tlv(ci(0x80), s))
		}
		return []*specAlt{
			{name: "no " + name, disc: []*Term{empty(s)}, next: func() []*specAlt { return next() }},
			{name: name, disc: []*Term{bnot(empty(s))}, next: func() []*specAlt {
				return k.given(id, next, func() []*specAlt { return next(wext{id, tFalse, v}) })
			}},
		}
	}}
}

func aiaPart(ocsp, issuers int) wpart {
	o, i := strs("ocsp", ocsp), strs("issuerURL", issuers)
	return plain(fmt.Sprint("authority information access ", ocsp, " ", issuers), func(k *extWriter, st *State, t *Term) *Term {
		t = k.setField(t, "OCSPServer", k.list(st, "ocsps", types.Typ[types.String], o))
		return k.setField(t, "IssuingCertificateURL", k.list(st, "issuerURLs", types.Typ[types.String], i))
	}, oidTerm(1, 3, 6, 1, 5, 5, 7, 1, 1), func(k *extWriter) ([]*Term, []string, wext) {
		d := derForm{k.e, newState()}
		of := func(n int64) func(s *Term) *Term {
			return func(s *Term) *Term {
				return derSeq([]*Term{derTLV(6, d.oid(oidTerm(1, 3, 6, 1, 5, 5, 7, 48, n))), tlv(ci(0x86), s)})
			}
		}
		return nil, nil, wext{critical: tFalse, value: derSeq(concat(mapTerms(o, of(1)), mapTerms(i, of(2))))}
	})
}

func (k *extWriter) ptrs(st *State, name string, t types.Type, n int) (ps []*Term) {
	for i := 0; i < n; i++ {
		ps = append(ps, k.e.newPtr(st, fmt.Sprint(name, i), expand(mkTyped("sym", fmt.Sprint(name, i), t), t)))
	}
	return
}

func sanPart(dns, mail, ip, uri int) wpart {
	ds, ms := strs("dns", dns), strs("mail", mail)
	var ips []*Term
	for i := 0; i < ip; i++ {
		ips = append(ips, specSeq(mkTyped("sym", fmt.Sprint("ip", i), types.NewSlice(types.Typ[types.Byte]))))
	}
	urlT := func(k *extWriter) types.Type { return k.c.libType("net/url", "URL") }
	uris := func(k *extWriter) (l []*Term) {
		for i := 0; i < uri; i++ {
			u := expand(mkTyped("sym", fmt.Sprint("uri", i), urlT(k)), urlT(k))
			l = append(l, specSeq(pure("(*net/url.URL).String", types.Typ[types.String], mk("ref", "", KVal, 0, k.e.snap(newState(), u)))))
		}
		return
	}
	return wpart{name: fmt.Sprint("alternative names ", dns, " ", mail, " ", ip, " ", uri), set: func(k *extWriter, st *State, t *Term) *Term {
		ipT := k.c.libType("net", "IP")
		var is []*Term
		for i, x := range ips {
			is = append(is, k.e.newSlice(st, fmt.Sprint("ip", i), x))
		}
		t = k.setField(t, "DNSNames", k.list(st, "dnss", types.Typ[types.String], ds))
		t = k.setField(t, "EmailAddresses", k.list(st, "mails", types.Typ[types.String], ms))
		t = k.setField(t, "IPAddresses", k.list(st, "ips", ipT, is))
		return k.setField(t, "URIs", k.list(st, "uris", types.NewPointer(urlT(k)), k.ptrs(st, "uri", urlT(k), uri)))
	}, tree: func(k *extWriter, next func(x ...wext) []*specAlt) []*specAlt {
		return k.given(oid29(17), next, func() []*specAlt {
			us := uris(k)
			conds, names := ia5All(ds, ms, us)
			var addr func(i int, l []*Term) []*specAlt
			of := func(tag int64) func(s *Term) *Term { return func(s *Term) *Term { return tlv(ci(tag), s) } }
			addr = func(i int, l []*Term) []*specAlt {
				if i < len(ips) {
					v4 := pure("(net.IP).To4", k.c.libType("net", "IP"), ips[i])
					return []*specAlt{
						{name: "IPv4", disc: []*Term{bnot(mkIsNil(v4))}, next: func() []*specAlt { return addr(i+1, append(l[:i:i], specSeq(v4))) }},
						{name: "no IPv4", disc: []*Term{mkIsNil(v4)}, next: func() []*specAlt { return addr(i+1, append(l[:i:i], ips[i])) }},
					}
				}
				critical := tFalse
				if i := fieldIndex(k.tmplT, "BasicConstraintsValid"); i >= 0 {
					critical = sym("subjectIsEmpty", types.Typ[types.Bool])
				}
				return next(wext{oid29(17), critical, derSeq(concat(mapTerms(ds, of(0x82)), mapTerms(ms, of(0x81)), mapTerms(l, of(0x87)), mapTerms(us, of(0x86))))})
			}
			return one(&specAlt{conds: conds, names: names, next: func() []*specAlt { return addr(0, nil) }})
		})
	}}
}

func policiesPart(n int) wpart {
	var ids []*Term
	for i := 0; i < n; i++ {
		ids = append(ids, specSeq(mkTyped("sym", fmt.Sprint("policy", i), types.NewSlice(types.Typ[types.Int]))))
	}
	return plain(fmt.Sprint("policies ", n), func(k *extWriter, st *State, t *Term) *Term {
		var ps []*Term
		for i, x := range ids {
			ps = append(ps, k.e.newSlice(st, fmt.Sprint("policy", i), x))
		}
		return k.setField(t, "PolicyIdentifiers", k.list(st, "policies", k.c.libType("encoding/asn1", "ObjectIdentifier"), ps))
	}, oid29(32), func(k *extWriter) ([]*Term, []string, wext) {
		return nil, nil, wext{critical: tFalse, value: derSeq(mapTerms(ids, func(s *Term) *Term { return derSeq([]*Term{derTLV(6, mk("deroid", "", KSeq, 0, s))}) }))}
	})
}

// constraintsPart: the numbers of DNS, address, mail and URI constraints, permitted and excluded.
func constraintsPart(n [8]int) wpart {
	which := []string{"Permitted", "Excluded"}
	var l [8][]*Term
	for i := range n {
		if i%4 != 1 {
			l[i] = strs(fmt.Sprint("constraint", i, "."), n[i])
		}
	}
	netT := func(k *extWriter) types.Type { return k.c.libType("net", "IPNet") }
	critical := sym("constraintsCritical", types.Typ[types.Bool])
	return plain(fmt.Sprint("name constraints ", n), func(k *extWriter, st *State, t *Term) *Term {
		for w, p := range which {
			for i, f := range []string{"DNSDomains", "IPRanges", "EmailAddresses", "URIDomains"} {
				j := 4*w + i
				name := fmt.Sprint("constraints", j)
				if i == 1 {
					t = k.setField(t, p+f, k.list(st, name, types.NewPointer(netT(k)), k.ptrs(st, fmt.Sprint("net", j, "."), netT(k), n[j])))
					continue
				}
				t = k.setField(t, p+f, k.list(st, name, types.Typ[types.String], l[j]))
			}
		}
		return k.setField(t, "PermittedDNSDomainsCritical", critical)
	}, oid29(30), func(k *extWriter) (conds []*Term, names []string, ext wext) {
		var out []*Term
		for w := range which {
			var trees []*Term
			for i, tag := range []int64{0x82, 0x87, 0x81, 0x86} {
				j := 4*w + i
				for m := 0; m < n[j]; m++ {
					var v *Term
					if i == 1 {
						x := expand(mkTyped("sym", fmt.Sprint("net", j, ".", m), netT(k)), netT(k))
						ip, mask := specSeq(fld(x, netT(k), 0)), specSeq(fld(x, netT(k), 1))
						v = seqCat(specSeq(pure("(net.IP).Mask", k.c.libType("net", "IP"), ip, mask)), mask)
					} else {
						v = l[j][m]
						conds, names = append(conds, ia5OK(v)), append(names, "an IA5String")
					}
					trees = append(trees, tlv(ci(0x30), tlv(ci(tag), v)))
				}
			}
			if len(trees) > 0 {
				s := tEmpty
				for _, x := range trees {
					s = seqCat(s, x)
				}
				out = append(out, tlv(ci(0xa0+int64(w)), s))
			}
		}
		return conds, names, wext{critical: critical, value: derSeq(out)}
	})
}

func crlPart(n int) wpart {
	l := strs("crl", n)
	return plain(fmt.Sprint("CRL distribution points ", n), func(k *extWriter, st *State, t *Term) *Term {
		return k.setField(t, "CRLDistributionPoints", k.list(st, "crls", types.Typ[types.String], l))
	}, oid29(31), func(k *extWriter) ([]*Term, []string, wext) {
		return nil, nil, wext{critical: tFalse, value: derSeq(mapTerms(l, func(s *Term) *Term {
			return tlv(ci(0x30), tlv(ci(0xa0), tlv(ci(0xa0), tlv(ci(0x86), s))))
		}))}
	})
}

// run checks fn on a template with these parts and this many extra extensions.
func (k *extWriter) run(fn *ssa.Function, extra int, parts ...wpart) {
	c, e := k.c, k.e
	k.self = fn
	defer func() { k.self = nil }()
	name := ""
	for _, p := range parts {
		name += "[" + p.name + "]"
	}
	if extra > 0 {
		name += fmt.Sprintf("[%d extra extensions]", extra)
	}
	_, args, outs, ok := c.analyseWith(e, fn, func(st *State, args []*Term) []*Term {
		t := expand(mkTyped("sym", "template", k.tmplT), k.tmplT)
		s := structType(k.tmplT)
		for i := 0; i < s.NumFields(); i++ {
			switch n := s.Field(i).Name(); n {
			case "KeyUsage", "ExtKeyUsage", "UnknownExtKeyUsage", "BasicConstraintsValid", "OCSPServer", "IssuingCertificateURL", "DNSNames", "EmailAddresses", "IPAddresses", "URIs", "PolicyIdentifiers",
				"PermittedDNSDomains", "ExcludedDNSDomains", "PermittedIPRanges", "ExcludedIPRanges", "PermittedEmailAddresses", "ExcludedEmailAddresses", "PermittedURIDomains", "ExcludedURIDomains", "CRLDistributionPoints":
				t = setFld(t, k.tmplT, i, zeroValue(s.Field(i).Type()))
			}
		}
		k.extra = nil
		var els []*Term
		for i := 0; i < extra; i++ {
			x := extIn{id: specSeq(mkTyped("sym", fmt.Sprint("extraId", i), c.libType("encoding/asn1", "ObjectIdentifier"))), critical: mkTyped("sym", fmt.Sprint("extraCritical", i), types.Typ[types.Bool]),
				value: specSeq(mkTyped("sym", fmt.Sprint("extraValue", i), types.NewSlice(types.Typ[types.Byte])))}
			v := zeroValue(k.extT)
			v = setFld(v, k.extT, 0, e.newSlice(st, fmt.Sprint("extraId", i), x.id))
			v = setFld(v, k.extT, 1, x.critical)
			v = setFld(v, k.extT, 2, e.newSlice(st, fmt.Sprint("extraValue", i), x.value))
			els = append(els, v)
			k.extra = append(k.extra, x)
		}
		t = k.setField(t, "ExtraExtensions", k.list(st, "extra", k.extT, els))
		ids := map[string]bool{}
		for _, p := range parts {
			if p.set != nil {
				t = p.set(k, st, t)
			}
			ids[p.name] = true
		}
		nb := 0
		for i, p := range fn.Params {
			switch pt := tstr(p.Type()); {
			case pt == "*"+tstr(k.tmplT):
				args[i] = e.newPtr(st, "template", t)
			case pt == "bool":
				args[i] = sym("subjectIsEmpty", types.Typ[types.Bool])
			case pt == "[]byte":
				n := []string{"authority key identifier", "subject key identifier"}[nb%2]
				nb++
				args[i] = tNil
				if ids[n] {
					args[i] = e.newSlice(st, n, specSeq(mkTyped("sym", n, types.NewSlice(types.Typ[types.Byte]))))
				}
			}
		}
		return args
	})
	_ = args
	if !ok {
		return
	}
	c.noPanic(e, fn, outs)
	leaves := map[*specAlt][]wext{}
	var tree func(i int, l []wext) []*specAlt
	tree = func(i int, l []wext) []*specAlt {
		if i == len(parts) {
			a := &specAlt{}
			leaves[a] = l
			return one(a)
		}
		return parts[i].tree(k, func(x ...wext) []*specAlt { return tree(i+1, append(l[:len(l):len(l)], x...)) })
	}
	root := one(&specAlt{name: name, next: func() []*specAlt { return tree(0, nil) }})
	specCheck(c, fn, outs, root, func(o Outcome) *Term { return errNil(o) }, func(st *State, o Outcome, leaf *specAlt) (string, bool) {
		want := leaves[leaf]
		got := e.seqOf(st, o.r(0))
		n, ok := constInt(st.norm(seqLen(got)))
		if !ok || n != int64(len(want)+extra) {
			return fmt.Sprintf("%d extensions are wanted: %s", len(want)+extra, e.snap(st, got).str(4)), false
		}
		at := func(i int64) wext {
			x := st.norm(seqSel(got, ci(i)))
			return wext{e.seqOf(st, fld(x, k.extT, 0)), fld(x, k.extT, 1), e.seqOf(st, fld(x, k.extT, 2))}
		}
		d := derForm{e, st}
		same := func(what string, g wext, w wext) (string, bool) {
			if st.eval2(g.critical) != st.eval2(w.critical) && st.norm(g.critical) != st.norm(w.critical) {
				return what + " has the wrong critical flag", false
			}
			gv, wv := d.form(e.snap(st, g.value)), d.resolve(w.value)
			if !sameSeq(st, gv, wv) {
				return fmt.Sprintf("%s differs: %s", what, firstDiff(gv, wv)), false
			}
			return "", true
		}
		for i, x := range k.extra {
			g := at(int64(len(want) + i))
			if !sameSeq(st, g.id, x.id) {
				return fmt.Sprintf("extra extension %d is not emitted", i+1), false
			}
			if why, ok := same(fmt.Sprint("extra extension ", i+1), g, wext{x.id, x.critical, x.value}); !ok {
				return why, false
			}
		}
		for _, w := range want {
			found := false
			for i := range want {
				g := at(int64(i))
				if !sameSeq(st, g.id, w.id) {
					continue
				}
				found = true
				if why, ok := same("extension "+w.id.str(8), g, w); !ok {
					return why, false
				}
			}
			if !found {
				return "extension " + w.id.str(8) + " is missing", false
			}
		}
		return "", true
	})
}

// resolve decides the optional parts of an expected encoding.
func (d derForm) resolve(t *Term) *Term {
	switch t.op {
	case "cat":
		r := tEmpty
		for _, x := range t.a {
			r = seqCat(r, d.resolve(x))
		}
		return r
	case "der.opt":
		return derOpt(d.st, t.a[0], d.resolve(t.a[1]))
	case "tlv":
		n, _ := constInt(t.a[0])
		return derTLV(n, d.resolve(t.a[1]))
	}
	return d.form(t)
}

// extBuilders are the functions that build extensions from a template and what else is given, in any order (from the template at least, if there is none).
func (c *Ctx) extBuilders(template string, others ...string) map[*ssa.Function]bool {
	exact, all := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for _, f := range c.P.allFuncs() {
		if f.Pkg != c.P.pkgs["x509"] || f.Parent() != nil {
			continue
		}
		rs := f.Signature.Results()
		if rs.Len() != 2 || tstr(rs.At(0).Type()) != "[]crypto/x509/pkix.Extension" || tstr(rs.At(1).Type()) != "error" {
			continue
		}
		var ps []string
		has := false
		for _, p := range f.Params {
			if t := tstr(p.Type()); t == "*"+modPath+"/x509."+template {
				has = true
			} else {
				ps = append(ps, t)
			}
		}
		sort.Strings(ps)
		want := append([]string{}, others...)
		sort.Strings(want)
		if has {
			all[f] = true
			if strings.Join(ps, ",") == strings.Join(want, ",") {
				exact[f] = true
			}
		}
	}
	if len(exact) > 0 {
		return innermost(exact)
	}
	return innermost(all)
}

func checkExtWriters(c *Ctx) {
	r := newExtReader(c)
	if r == nil {
		return
	}
	k := &extWriter{extReader: r}
	noMarshalErrors(k.e)
	k.e.models["(*golang.org/x/crypto/cryptobyte.Builder).Bytes"] = func(e *Engine, cc *callCtx) []Outcome {
		return ret(cc, e.newSlice(cc.st, siteOf(cc.in()), e.cbbContent(cc, cc.args[0])), tNil)
	}
	reqT := c.P.pkgs["x509"].Pkg.Scope().Lookup("CertificateRequest")
	certFn, reqFn := sortFuncs(c.extBuilders("Certificate", "bool", "[]byte", "[]byte")), sortFuncs(c.extBuilders("CertificateRequest"))
	c.oblige("anchor", "x509", 0, len(certFn) > 0 && len(reqFn) > 0, "no function builds the extensions of certificates or requests")
	var singles []wpart
	singles = append(singles, basicConstraintsPart(), keyIDPart(true), keyIDPart(false), aiaPart(1, 0), aiaPart(0, 1), aiaPart(2, 2), sanPart(1, 0, 0, 0), sanPart(0, 1, 0, 0), sanPart(0, 0, 1, 0), sanPart(0, 0, 0, 1),
		sanPart(2, 2, 1, 2), sanPart(0, 0, 2, 0), policiesPart(1), policiesPart(2), crlPart(1), crlPart(2), extKeyUsagePart(nil, 1), extKeyUsagePart(nil, 2), extKeyUsagePart([]string{""}, 0),
		extKeyUsagePart([]string{"ExtKeyUsageClientAuth", ""}, 1), extKeyUsagePart([]string{"ExtKeyUsageClientAuth", "ExtKeyUsageServerAuth"}, 2))
	for n := range extUsageOIDs() {
		singles = append(singles, extKeyUsagePart([]string{n}, 0))
	}
	for i := 0; i < 8; i++ {
		var n [8]int
		n[i] = 1
		singles = append(singles, constraintsPart(n))
		n[i] = 2
		singles = append(singles, constraintsPart(n))
	}
	singles = append(singles, constraintsPart([8]int{1, 1, 1, 1, 1, 1, 1, 1}))
	for _, f := range certFn {
		k.tmplT = k.certT
		for n := 0; n <= 2; n++ {
			k.run(f, n)
		}
		for u := int64(1); u < 512; u++ {
			k.run(f, 0, keyUsagePart(c, u))
		}
		k.run(f, 1, keyUsagePart(c, 5))
		for _, p := range singles {
			for n := 0; n <= 1; n++ {
				k.run(f, n, p)
			}
		}
		all := []wpart{keyUsagePart(c, 6), extKeyUsagePart([]string{"ExtKeyUsageServerAuth"}, 1), basicConstraintsPart(), keyIDPart(true), keyIDPart(false), aiaPart(1, 1), sanPart(1, 1, 1, 1), policiesPart(1), constraintsPart([8]int{1, 0, 0, 0, 0, 1, 0, 0}), crlPart(1)}
		k.run(f, 0, all...)
	}
	if reqT == nil {
		return
	}
	for _, f := range reqFn {
		k.tmplT = reqT.Type()
		for n := 0; n <= 2; n++ {
			k.run(f, n)
			for _, p := range []wpart{sanPart(1, 0, 0, 0), sanPart(0, 1, 0, 0), sanPart(0, 0, 1, 0), sanPart(0, 0, 0, 1), sanPart(2, 2, 1, 2), sanPart(0, 0, 2, 0)} {
				k.run(f, n, p)
			}
		}
	}
	for _, f := range sortFuncs(k.ia5) {
		k.checkIA5(f)
	}
}

func init() {
	addCheck(&Check{id: "C37", rule: "abstract interpretation of the extension builders: every combination of requested extensions compared, identifier by identifier, with the expected DER terms", run: checkExtWriters,
		assume:  []string{"lists in the template are decided per length up to the bound, with arbitrary elements"},
		trusted: []string{"encoding/asn1.Marshal and cryptobyte.Builder encode the values given under their schema (models_asn1.go, models_cb.go); (*url.URL).String, (net.IP).To4 and (net.IP).Mask as given functions"}})
}
