package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// certReader analyses the parser of certificates.
type certReader struct {
	c                *Ctx
	e                *Engine
	certT, extT, aiT types.Type
	names, times     map[*ssa.Function]bool
	exts, strs       map[*ssa.Function]bool
	top, str         *ssa.Function // the function analysed itself
	sp               *spki
	s                *certSpec
	accepted         map[*ssa.Function]bool // nil: any function of the types
}

// use: does f, which has the types of the set, stand for what it computes?
func (k *certReader) use(set map[*ssa.Function]bool, f *ssa.Function) bool {
	if k.accepted == nil {
		set[f] = true
	}
	return k.accepted == nil || k.accepted[f]
}

// anchors finds the functions recognised by their types.
func (k *certReader) anchors() {
	k.accepted = nil
	for _, f := range k.c.P.allFuncs() {
		if f.Pkg == k.c.P.pkgs["x509"] && f.Parent() == nil {
			var args []*Term
			for _, p := range f.Params {
				args = append(args, sym("x", p.Type()))
			}
			k.e.callHook(f, newState(), args)
		}
	}
	k.accepted = map[*ssa.Function]bool{}
	for f := range k.exts { // it reads the extensions
		if !k.readsField(f, "Extensions") || !k.readsField(f, "UnhandledCriticalExtensions") {
			delete(k.exts, f)
		}
	}
	for _, s := range []*map[*ssa.Function]bool{&k.names, &k.times, &k.strs, &k.exts} {
		*s = innermost(*s)
		for f := range *s {
			k.accepted[f] = true
		}
	}
}

// readsField: f, or what it calls, names the field of a certificate.
func (k *certReader) readsField(f *ssa.Function, name string) bool {
	seen := map[*ssa.Function]bool{}
	reachable(f, seen)
	i := fieldIndex(k.certT, name)
	for g := range seen {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.FieldAddr); ok && a.Field == i && tstr(deref(a.X.Type())) == tstr(k.certT) {
					return true
				}
			}
		}
	}
	return false
}

func tag(n int64) *Term { return ci(n) }

var cbOID = types.Typ[types.Byte]

func (k *certReader) oid(s *Term) *Term {
	return specSeq(mkTyped("cb.get", "ReadASN1ObjectIdentifier", k.c.libType("encoding/asn1", "ObjectIdentifier"), s))
}

func (k *certReader) bits(s *Term) *Term {
	return specSeq(mkTyped("app", "(encoding/asn1.BitString).RightAlign", types.NewSlice(types.Typ[types.Byte]), mkTyped("cb.get", "ReadASN1BitString", k.c.libType("encoding/asn1", "BitString"), s)))
}

func okASN1(s *Term, tag int64) *Term { return cbOK("ASN1", s, ci(tag)) }
func okOID(s *Term) *Term             { return cbOK("ASN1ObjectIdentifier", s) }
func empty(s *Term) *Term             { return mkEq0(seqLen(s)) }
func after(s *Term) *Term             { return cbRest("ASN1", s) }
func present(s *Term, tag int64) *Term {
	return mk("cb.present", "", KBool, 0, s, ci(tag))
}

// newCertReader sets up the analysis: names, validity periods, algorithm identifiers and the contents of extensions are
// interpreted by functions recognised by their result types, each of them a function of the bytes it is given.
func newCertReader(c *Ctx) *certReader {
	sc := c.P.pkgs["x509"].Pkg.Scope()
	lookup := func(n string) types.Type {
		o := sc.Lookup(n)
		if !c.oblige("anchor", "x509."+n, 0, o != nil, "x509.%s is not found", n) {
			return nil
		}
		return o.Type()
	}
	k := &certReader{c: c, e: keysEngine(c), certT: lookup("Certificate"), extT: c.libType("crypto/x509/pkix", "Extension"), aiT: c.libType("crypto/x509/pkix", "AlgorithmIdentifier"),
		names: map[*ssa.Function]bool{}, times: map[*ssa.Function]bool{}, exts: map[*ssa.Function]bool{}, strs: map[*ssa.Function]bool{}}
	sigT := lookup("SignatureAlgorithm")
	if k.certT == nil || sigT == nil {
		return nil
	}
	e := k.e
	e.hook(func(f *ssa.Function, st *State, args []*Term) []Outcome {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != modPath+"/x509" {
			return nil
		}
		p, r := f.Signature.Params(), f.Signature.Results()
		bytesArg := func() *Term {
			if p.Len() == 1 && len(args) == 1 {
				if isByteSlice(p.At(0).Type()) && k.top != f {
					return e.seqOf(st, args[0])
				}
			}
			return nil
		}
		res := func(i int) string { return tstr(r.At(i).Type()) }
		switch {
		case r.Len() == 2 && (res(0) == "*crypto/x509/pkix.RDNSequence" || res(0) == "crypto/x509/pkix.RDNSequence") && res(1) == "error":
			if s := bytesArg(); s != nil && k.use(k.names, f) {
				return fork2(st, "name", nameOK(s), func(st *State) []*Term {
					v := mkTyped("name", "", deref(r.At(0).Type()), s)
					if _, ok := r.At(0).Type().(*types.Pointer); ok {
						return []*Term{e.newPtr(st, "name", v)}
					}
					return []*Term{v}
				}, 2)
			}
		case r.Len() == 3 && res(0) == "time.Time" && res(1) == "time.Time" && res(2) == "error":
			if s := bytesArg(); s != nil && k.use(k.times, f) {
				return fork2(st, "validity", mk("validity.ok", "", KBool, 0, s), func(st *State) []*Term {
					return []*Term{mkTyped("validity", "from", r.At(0).Type(), s), mkTyped("validity", "to", r.At(1).Type(), s)}
				}, 3)
			}
		case r.Len() == 1 && res(0) == tstr(sigT) && p.Len() == 1 && tstr(p.At(0).Type()) == tstr(k.aiT):
			ai := e.snap(st, args[0])
			return []Outcome{{st: st, res: sigAlgTerm(specSeq(fp(ai, k.aiT, 0)), specSeq(fp(ai, k.aiT, 1, 4)))}}
		case r.Len() == 1 && res(0) == "error" && len(args) == 1 && tstr(f.Params[0].Type()) == "*"+tstr(k.certT) && k.use(k.exts, f):
			cert := e.load(st, args[0])
			ext := e.seqOf(st, fld(cert, k.certT, fieldIndex(k.certT, "Extensions")))
			return fork2(st, "extensions", k.extsOK(st, ext), func(st *State) []*Term { return nil }, 1)
		case r.Len() == 2 && res(0) == "string" && res(1) == "error" && p.Len() == 2 && k.str != f && tstr(p.At(0).Type()) == "golang.org/x/crypto/cryptobyte/asn1.Tag" && isByteSlice(p.At(1).Type()) && k.use(k.strs, f):
			tg, s := args[0], e.seqOf(st, args[1])
			return fork2(st, "string", mk("str.ok", "", KBool, 0, tg, s), func(st *State) []*Term { return []*Term{mkTyped("str", "", r.At(0).Type(), tg, s)} }, 2)
		}
		return nil
	})
	k.anchors()
	return k
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && tstr(s.Elem()) == "byte"
}

func nameOK(s *Term) *Term { return mk("name.ok", "", KBool, 0, s) }
func sigAlgTerm(oid, params *Term) *Term {
	return mk("sigalg", "", KInt, 0, oid, params)
}

// extsOK: the extensions in the list are acceptable.
func (k *certReader) extsOK(st *State, list *Term) *Term {
	n, ok := constInt(seqLen(list))
	if !ok {
		return mk("exts.ok", "", KBool, 0, list)
	}
	var a []*Term
	for i := int64(0); i < n; i++ {
		x := seqSel(list, ci(i))
		a = append(a, k.e.seqOf(st, fld(x, k.extT, 0)), fld(x, k.extT, 1), k.e.seqOf(st, fld(x, k.extT, 2)))
	}
	return mk("exts.ok", "", KBool, 0, a...)
}

// certSpec is the grammar of a certificate over the bytes given.
type certSpec struct {
	k                                          *certReader
	der, body, tbs                             *Term
	version                                    *Term
	serial, sigAI, issuer, times, subject, key *Term
	tail                                       *Term // after the public key
	next                                       int
}

func (k *certReader) spec(der *Term) *certSpec {
	s := &certSpec{k: k, der: der}
	s.body = cbVal(der)
	s.tbs = cbVal(s.body)
	key := []*Term{cbInt, ci(0xa0), k.zero()}
	s.version = mk("cb.optint", "*int", KInt, 0, s.tbs, ci(0xa0), key[2])
	s.serial = cbRest("OptionalInteger", s.tbs, key...)
	s.sigAI = cbRest("Integer", s.serial)
	s.issuer = after(s.sigAI)
	s.times = after(s.issuer)
	s.subject = after(s.times)
	s.key = after(s.subject)
	s.tail = after(s.key)
	return s
}

// zero is the default of the version as it reaches the reader.
func (k *certReader) zero() *Term {
	return mk("iface", "int", KVal, 0, tZero)
}

// conds are the conditions on the structure, apart from the parameters of algorithm identifiers, the key and the extensions.
func (s *certSpec) conds() (conds []*Term, names []string) {
	add := func(n string, c *Term) { conds, names = append(conds, c), append(names, n) }
	sig := after(s.body)
	add("a SEQUENCE", okASN1(s.der, 48))
	add("a TBSCertificate", okASN1(s.body, 48))
	add("a well-formed version", cbOK("OptionalInteger", s.tbs, cbInt, ci(0xa0), s.k.zero()))
	add("version 1 to 3", mkGe0(s.version))
	add("version 1 to 3", mkGe0(iSub(ci(2), s.version)))
	add("a serial number", cbOK("Integer", s.serial, cbBig))
	add("a signature algorithm", okASN1(s.sigAI, 48))
	add("an outer signature algorithm", okASN1(sig, 48))
	add("equal inner and outer signature algorithms", mkEqSeq(cbVal(sig), cbVal(s.sigAI)))
	add("an object identifier of the signature algorithm", okOID(cbVal(s.sigAI)))
	add("an issuer", okASN1(s.issuer, 48))
	add("a well-formed issuer", nameOK(cbElem(s.issuer)))
	add("a validity period", okASN1(s.times, 48))
	add("well-formed times", mk("validity.ok", "", KBool, 0, cbVal(s.times)))
	add("a subject", okASN1(s.subject, 48))
	add("a well-formed subject", nameOK(cbElem(s.subject)))
	add("a subjectPublicKeyInfo", okASN1(s.key, 48))
	info := cbVal(s.key)
	add("a key algorithm", okASN1(info, 48))
	add("an object identifier of the key algorithm", okOID(cbVal(info)))
	add("a subjectPublicKey", cbOK("ASN1BitString", after(info)))
	add("a signature", cbOK("ASN1BitString", after(sig)))
	return
}

// params gives the two forms of an algorithm identifier's contents.
func params(ai *Term, name string, next func(params *Term) []*specAlt) []*specAlt {
	rest := after(ai)
	return []*specAlt{
		{name: "no parameters of the " + name, disc: []*Term{empty(rest)}, next: func() []*specAlt { return next(tEmpty) }},
		{name: "parameters of the " + name, disc: []*Term{bnot(empty(rest))}, conds: []*Term{cbOK("Any", rest)}, names: []string{"well-formed parameters of the " + name},
			next: func() []*specAlt { return next(cbElem(rest)) }},
	}
}

// certLeaf is a way to a complete certificate.
type certLeaf struct {
	sigParams, keyParams *Term
	key                  *specAlt // nil: a key of an unknown algorithm
	sp                   *spki
	exts                 []certExt
}

type certExt struct{ id, critical, value *Term }

// optional gives the two cases of an optional element that is skipped.
func optional(s *Term, tg int64, name string, next func(s *Term) []*specAlt) []*specAlt {
	return []*specAlt{
		{name: "no " + name, disc: []*Term{bnot(present(s, tg))}, next: func() []*specAlt { return next(s) }},
		{name: name, disc: []*Term{present(s, tg)}, conds: []*Term{okASN1(s, tg)}, names: []string{"a well-formed " + name}, next: func() []*specAlt { return next(after(s)) }},
	}
}

func (s *certSpec) tree(trailing *Term, n int, st *State, leaves map[*specAlt]*certLeaf) []*specAlt {
	k := s.k
	conds, names := s.conds()
	if trailing != nil {
		conds, names = append(conds, trailing), append(names, "nothing after the certificate")
	}
	leaf := func(a *specAlt, l certLeaf) *specAlt { leaves[a] = &l; return a }
	var extTree func(rest *Term, i int, l certLeaf) []*specAlt
	extTree = func(rest *Term, i int, l certLeaf) []*specAlt {
		if i == n {
			var a []*Term
			for _, x := range l.exts {
				a = append(a, x.id, x.critical, x.value)
			}
			return []*specAlt{leaf(&specAlt{conds: []*Term{mk("exts.ok", "", KBool, 0, a...)}, names: []string{"acceptable extensions"}}, l)}
		}
		x := cbVal(rest)
		r1 := after(x)
		var alts []*specAlt
		for _, crit := range []bool{false, true} {
			l := l
			v, conds, names, disc := r1, []*Term{okASN1(rest, 48), okOID(x)}, []string{"a SEQUENCE", "an object identifier"}, bnot(present(r1, 1))
			et := certExt{id: k.oid(x), critical: tFalse}
			if crit {
				disc = present(r1, 1)
				conds, names = append(conds, cbOK("ASN1Boolean", r1)), append(names, "a well-formed critical flag")
				et.critical = mkTyped("cb.get", "ReadASN1Boolean", types.Typ[types.Bool], r1)
				v = after(r1)
			}
			conds, names = append(conds, okASN1(v, 4)), append(names, "an OCTET STRING")
			et.value = cbVal(v)
			l.exts = append(l.exts[:len(l.exts):len(l.exts)], et)
			alts = append(alts, &specAlt{name: fmt.Sprintf("extension %d%s", i+1, map[bool]string{true: " with critical flag"}[crit]), disc: []*Term{disc}, conds: conds, names: names,
				next: func() []*specAlt { return extTree(after(rest), i+1, l) }})
		}
		return alts
	}
	version := func(l certLeaf) (alts []*specAlt) {
		ids := func(next func(s *Term) []*specAlt) func() []*specAlt {
			return func() []*specAlt {
				return optional(s.tail, 0xa1, "issuerUniqueID", func(t *Term) []*specAlt { return optional(t, 0xa2, "subjectUniqueID", next) })
			}
		}
		is := func(v int64) []*Term { return []*Term{mkEqInt(s.version, ci(v))} }
		alts = append(alts, leaf(&specAlt{name: "version 1", disc: is(0)}, l))
		alts = append(alts, &specAlt{name: "version 2", disc: is(1), next: ids(func(t *Term) []*specAlt { return []*specAlt{leaf(&specAlt{}, l)} })})
		alts = append(alts, &specAlt{name: "version 3", disc: is(2), next: ids(func(t *Term) []*specAlt {
			x := cbVal(t)
			return []*specAlt{
				leaf(&specAlt{name: "no extensions", disc: []*Term{bnot(present(t, 0xa3))}}, l),
				{name: "extensions", disc: []*Term{present(t, 0xa3)}, conds: []*Term{okASN1(t, 0xa3), okASN1(x, 48)}, names: []string{"well-formed extensions", "a SEQUENCE of extensions"},
					next: func() []*specAlt { return extTree(cbVal(x), 0, l) }},
			}
		})})
		return
	}
	info := cbVal(s.key)
	return []*specAlt{{conds: conds, names: names, next: func() []*specAlt {
		return params(cbVal(s.sigAI), "signature algorithm", func(sigParams *Term) []*specAlt {
			return params(cbVal(info), "key algorithm", func(keyParams *Term) []*specAlt {
				sp := &spki{c: k.c, e: k.e, st: st, alg: k.oid(cbVal(info)), params: keyParams, key: k.bits(after(info)), ec: map[*specAlt]namedCurve{}, u: map[string]*Term{}}
				l := certLeaf{sigParams: sigParams, keyParams: keyParams, sp: sp}
				return sp.orOther(func(key *specAlt) []*specAlt {
					l := l
					l.key = key
					return version(l)
				})
			})
		})
	}}}
}

// orOther gives the cases of the key, each followed by next; key is nil for a key of an unknown algorithm.
func (sp *spki) orOther(next func(key *specAlt) []*specAlt) []*specAlt {
	alts := sp.alts()
	other := &specAlt{name: "another key"}
	for _, a := range alts {
		other.disc = append(other.disc, bnot(mkAnd(a.disc...)))
	}
	other.next = func() []*specAlt { return next(nil) }
	var chain func(as []*specAlt)
	chain = func(as []*specAlt) {
		for _, a := range as {
			if f := a.next; f != nil {
				a.next = func() []*specAlt { r := f(); chain(r); return r }
				continue
			}
			a.next = func() []*specAlt { return next(a) }
		}
	}
	chain(alts)
	return append(alts, other)
}

// inFields: the fields PublicKey and PublicKeyAlgorithm hold the key of case key; none for an unknown algorithm.
func (sp *spki) inFields(st *State, pk, alg *Term, key *specAlt) (string, bool) {
	if key == nil {
		if st.eval2(mkIsNil(pk)) != tTrue || st.eval2(mkEq0(alg)) != tTrue {
			return "a key of an unknown algorithm is not left out: " + pk.str(4), false
		}
		return "", true
	}
	name := "ECDSA"
	switch key {
	case sp.rsa:
		name = "RSA"
	case sp.dsa:
		name = "DSA"
	case sp.ed:
		name = "Ed25519"
	}
	if st.eval2(mkEqInt(alg, ci(sp.c.constVal("x509", name)))) != tTrue {
		return "PublicKeyAlgorithm is not " + name + ": " + alg.str(4), false
	}
	if d, ok := sp.same(st, pk, key); !ok {
		return "PublicKey: " + d, false
	}
	return "", true
}

// same compares the certificate at p with what was encoded.
func (s *certSpec) same(st *State, p *Term, l *certLeaf) (string, bool) {
	k, e := s.k, s.k.e
	get := func(n string) *Term {
		v, _ := e.field(st, p, types.NewPointer(k.certT), n)
		if v == nil {
			return mk("none", n, KVal, 0)
		}
		return v
	}
	for n, want := range map[string]*Term{"Raw": cbElem(s.der), "RawTBSCertificate": cbElem(s.body), "RawIssuer": cbElem(s.issuer), "RawSubject": cbElem(s.subject),
		"RawSubjectPublicKeyInfo": cbElem(s.key), "Signature": k.bits(after(after(s.body)))} {
		if g := e.seqOf(st, get(n)); !sameSeq(st, g, want) {
			return fmt.Sprintf("%s is not the one encoded: %s", n, g.str(5)), false
		}
	}
	info := cbVal(s.key)
	_ = info
	for n, want := range map[string]*Term{"Version": iAdd(s.version, tOne), "SignatureAlgorithm": sigAlgTerm(k.oid(cbVal(s.sigAI)), l.sigParams)} {
		if g := get(n); st.eval2(mkEqInt(g, want)) != tTrue {
			return fmt.Sprintf("%s is not the one encoded: %s", n, g.str(5)), false
		}
	}
	if g := e.bigField(st, p, types.NewPointer(k.certT), "SerialNumber"); st.eval2(mkEqInt(g, mk("cb.int", "*math/big.Int", KInt, 0, s.serial))) != tTrue {
		return "SerialNumber is not the one encoded: " + g.str(5), false
	}
	for n, want := range map[string]*Term{"NotBefore": mkTyped("validity", "from", k.c.libType("time", "Time"), cbVal(s.times)), "NotAfter": mkTyped("validity", "to", k.c.libType("time", "Time"), cbVal(s.times))} {
		if g := get(n); st.norm(e.snap(st, g)) != st.norm(want) {
			return fmt.Sprintf("%s is not the one encoded: %s", n, g.str(5)), false
		}
	}
	for n, src := range map[string]*Term{"Issuer": s.issuer, "Subject": s.subject} {
		g := e.snap(st, get(n))
		ok := false
		if g.op == "filled" {
			subterms(g.a[0], func(x *Term) {
				if x.op == "name" {
					ok = st.norm(x.a[0]) == st.norm(cbElem(src))
				}
			})
		}
		if !ok {
			return fmt.Sprintf("%s is not the name encoded: %s", n, g.str(5)), false
		}
	}
	pk := get("PublicKey")
	alg := get("PublicKeyAlgorithm")
	if why, ok := l.sp.inFields(st, pk, alg, l.key); !ok {
		return why, false
	}
	list := e.seqOf(st, get("Extensions"))
	if n, ok := constInt(st.norm(seqLen(list))); !ok || n != int64(len(l.exts)) {
		return fmt.Sprintf("%s extensions instead of %d", seqLen(list).str(4), len(l.exts)), false
	}
	for i, x := range l.exts {
		v := seqSel(list, ci(int64(i)))
		if !sameSeq(st, e.seqOf(st, fld(v, k.extT, 0)), x.id) {
			return fmt.Sprintf("the identifier of extension %d is not the one encoded: %s", i+1, fp(v, k.extT, 0).str(4)), false
		}
		if st.eval2(mkAnd(x.critical)) != st.eval2(mkAnd(fp(v, k.extT, 1))) && st.norm(x.critical) != st.norm(fp(v, k.extT, 1)) {
			return fmt.Sprintf("the critical flag of extension %d is not the one encoded: %s", i+1, fp(v, k.extT, 1).str(4)), false
		}
		if !sameSeq(st, e.seqOf(st, fld(v, k.extT, 2)), x.value) {
			return fmt.Sprintf("the value of extension %d is not the one encoded: %s", i+1, fp(v, k.extT, 2).str(4)), false
		}
	}
	return "", true
}

// extensions fixes the number of extensions wherever they may start.
func (s *certSpec) extensions(st *State, n int) {
	t := s.tail
	for i := 0; i < 3; i++ {
		e := cbVal(cbVal(t))
		for j := 0; j < n; j++ {
			st.assume(bnot(empty(e)))
			e = after(e)
		}
		st.assume(empty(e))
		t = after(t)
	}
}

// readsOne: f parses the certificate at the start of its argument.
func (k *certReader) readsOne(f *ssa.Function) bool {
	p, r := f.Signature.Params(), f.Signature.Results()
	return f.Pkg == k.c.P.pkgs["x509"] && p.Len() == 1 && isByteSlice(p.At(0).Type()) && r.Len() == 2 && tstr(r.At(0).Type()) == "*"+tstr(k.certT) && tstr(r.At(1).Type()) == "error"
}

func checkParseCert(c *Ctx) {
	one, many := c.P.fn("x509", "ParseCertificate"), c.P.fn("x509", "ParseCertificates")
	if !c.oblige("anchor", "x509.ParseCertificate", 0, one != nil && many != nil, "ParseCertificate or ParseCertificates is not found") {
		return
	}
	k := newCertReader(c)
	if k == nil {
		return
	}
	// the functions that parse one certificate on behalf of the two
	inner := map[*ssa.Function]bool{}
	seen := map[*ssa.Function]bool{}
	reachable(one, seen)
	reachable(many, seen)
	for g := range seen {
		if g != one && g != many && g.Pkg == one.Pkg && k.readsOne(g) {
			inner[g] = true
		}
	}
	if len(inner) > 0 {
		inner = innermost(inner)
	}
	okCert := func(s *Term) *Term { return mk("cert.ok", "", KBool, 0, s) }
	k.e.hook(func(f *ssa.Function, st *State, args []*Term) []Outcome {
		if !inner[f] {
			return nil
		}
		s := k.e.seqOf(st, args[0])
		return fork2(st, "certificate", okCert(s), func(st *State) []*Term {
			st.assume(okASN1(s, 48))
			st.assume(mkEqInt(seqLen(s), iAdd(seqLen(cbElem(s)), seqLen(after(s)))))
			st.assume(mkGe0(iSub(seqLen(cbElem(s)), ci(2))))
			v := expand(mkTyped("cert", "", k.certT, s), k.certT)
			i := fieldIndex(k.certT, "Raw")
			v = setFld(v, k.certT, i, k.e.newSlice(st, "raw", cbElem(s)))
			return []*Term{k.e.newPtr(st, "cert", v)}
		}, 2)
	})
	k.e.knownLists = true
	isCert := func(st *State, p, s *Term) bool {
		got := k.e.load(st, p)
		same := true
		for i := 0; same && i < structType(k.certT).NumFields(); i++ {
			x := st.norm(k.e.snap(st, fld(got, k.certT, i)))
			if i == fieldIndex(k.certT, "Raw") {
				same = sameSeq(st, k.e.seqOf(st, fld(got, k.certT, i)), cbElem(s))
			} else {
				same = x == st.norm(k.e.snap(st, fld(mkTyped("cert", "", k.certT, s), k.certT, i)))
			}
		}
		return same
	}
	if len(inner) == 0 {
		c.readCert(one, true)
	} else {
		for _, f := range sortFuncs(inner) {
			c.readCert(f, false)
		}
		entry, args, outs, ok := c.analyseWith(k.e, one, nil)
		if ok {
			c.noPanic(k.e, one, outs)
			s := k.e.seqOf(entry, args[0])
			specCheck(c, one, outs, []*specAlt{{conds: []*Term{okCert(s), empty(after(s))}, names: []string{"a certificate", "nothing after it"}}}, errNil, func(st *State, o Outcome, _ *specAlt) (string, bool) {
				return "the certificate is not the one parsed: " + o.r(0).str(4), isCert(st, o.r(0), s)
			})
		}
	}
	maxN := 3
	if c.tier == "thorough" {
		maxN = 5
	}
	for n := 0; n <= maxN; n++ {
		var certs []*Term
		_, _, outs, ok := c.analyseWith(k.e, many, func(st *State, args []*Term) []*Term {
			s := k.e.seqOf(st, args[0])
			certs = nil
			for i := 0; i < n; i++ {
				st.assume(mkGe0(iSub(seqLen(s), tOne)))
				certs = append(certs, s)
				s = seqSub(s, seqLen(cbElem(s)), seqLen(s))
			}
			st.assume(empty(s))
			return args
		})
		if !ok {
			continue
		}
		c.noPanic(k.e, many, outs)
		a := &specAlt{name: fmt.Sprint(n, " certificates")}
		for i, s := range certs {
			a.conds, a.names = append(a.conds, okCert(s)), append(a.names, fmt.Sprintf("a well-formed certificate %d", i+1))
		}
		specCheck(c, many, outs, []*specAlt{a}, errNil, func(st *State, o Outcome, _ *specAlt) (string, bool) {
			list := k.e.seqOf(st, o.r(0))
			if m, ok := constInt(st.norm(seqLen(list))); !ok || m != int64(n) {
				return fmt.Sprintf("%s certificates instead of %d", seqLen(list).str(4), n), false
			}
			for i, s := range certs {
				if !isCert(st, seqSel(list, ci(int64(i))), s) {
					return fmt.Sprintf("certificate %d is not the one at its place", i+1), false
				}
			}
			return "", true
		})
	}
	checkCertParts(c)
}

// readCert checks fn, which parses the certificate at the start of its argument (or the certificate that is all of it).
func (c *Ctx) readCert(fn *ssa.Function, whole bool) {
	maxN := 2
	if c.tier == "thorough" {
		maxN = 3
	}
	for n := 0; n <= maxN; n++ {
		if os.Getenv("MCHECK_N") != "" && os.Getenv("MCHECK_N") != fmt.Sprint(n) {
			continue
		}
		k := newCertReader(c)
		if k == nil {
			return
		}
		k.e.knownLists, k.e.freezeElems = true, true
		var s *certSpec
		entry, _, outs, ok := c.analyseWith(k.e, fn, func(st *State, args []*Term) []*Term {
			s = k.spec(k.e.seqOf(st, args[0]))
			s.extensions(st, n)
			if n > 0 { // any number of extensions is combined with one kind of key; without extensions all are
				st.assume(mkEqSeq(k.oid(cbVal(cbVal(s.key))), []*Term{oidRSAKey, oidEd25519Key, oidDSAKey}[n-1]))
			}
			return args
		})
		if !ok {
			return
		}
		c.noPanic(k.e, fn, outs)
		leaves := map[*specAlt]*certLeaf{}
		var trailing *Term
		if whole {
			trailing = empty(after(s.der))
		}
		root := s.tree(trailing, n, entry, leaves)
		specCheck(c, fn, outs, root, errNil, func(st *State, o Outcome, leaf *specAlt) (string, bool) {
			return s.same(st, o.r(0), leaves[leaf])
		})
	}
}

func pure(name string, t types.Type, args ...*Term) *Term { return mkTyped("app", name, t, args...) }

// timeAlts are the forms of one time at the start of s; next gets its value.
func (k *certReader) timeAlts(name string, s *Term, next func(v *Term) []*specAlt) []*specAlt {
	tT, errT := k.c.libType("time", "Time"), types.Universe.Lookup("error").Type()
	pair := types.NewTuple(types.NewVar(0, nil, "", tT), types.NewVar(0, nil, "", errT))
	var parsed, fails []*Term
	layouts := []*Term{cbytes("0601021504Z0700"), cbytes("060102150405Z0700")}
	for _, l := range layouts {
		p := pure("time.Parse", pair, l, cbVal(s))
		parsed = append(parsed, p.a[0])
		fails = append(fails, bnot(mkIsNil(p.a[1])))
	}
	century := func(i int) func() []*specAlt {
		y := pure("(time.Time).Year", types.Typ[types.Int], parsed[i])
		late := mkGe0(iSub(y, ci(2050)))
		return func() []*specAlt {
			return []*specAlt{
				{name: "before 2050", disc: []*Term{bnot(late)}, next: func() []*specAlt { return next(parsed[i]) }},
				{name: "read as 2050 or later", disc: []*Term{late}, next: func() []*specAlt {
					return next(pure("(time.Time).AddDate", tT, parsed[i], ci(-100), tZero, tZero))
				}},
			}
		}
	}
	canonical := func(i int) []*Term {
		return []*Term{mkEqSeq(specSeq(pure("(time.Time).Format", types.Typ[types.String], parsed[i], layouts[i])), cbVal(s))}
	}
	return []*specAlt{
		{name: name + ": UTCTime", disc: []*Term{present(s, 23)}, conds: []*Term{okASN1(s, 23)}, names: []string{"a well-formed UTCTime"}, next: func() []*specAlt {
			return []*specAlt{
				{name: "minutes", disc: []*Term{bnot(fails[0])}, conds: canonical(0), names: []string{"the canonical form"}, next: century(0)},
				{name: "seconds", disc: []*Term{fails[0]}, conds: append([]*Term{bnot(fails[1])}, canonical(1)...), names: []string{"a time with seconds", "the canonical form"}, next: century(1)},
			}
		}},
		{name: name + ": GeneralizedTime", disc: []*Term{bnot(present(s, 23)), present(s, 24)}, conds: []*Term{cbOK("ASN1GeneralizedTime", s)}, names: []string{"a well-formed GeneralizedTime"},
			next: func() []*specAlt { return next(mkTyped("cb.get", "ReadASN1GeneralizedTime", tT, s)) }},
		{name: name + ": another element", disc: []*Term{bnot(present(s, 23)), bnot(present(s, 24))}, conds: []*Term{tFalse}, names: []string{"a UTCTime or a GeneralizedTime"}},
	}
}

func (k *certReader) checkValidity(fn *ssa.Function) {
	c, e := k.c, k.e
	k.top = fn
	defer func() { k.top = nil }()
	entry, args, outs, ok := c.analyseWith(e, fn, nil)
	if !ok {
		return
	}
	c.noPanic(e, fn, outs)
	s := e.seqOf(entry, args[0])
	vals := map[*specAlt][2]*Term{}
	root := k.timeAlts("notBefore", s, func(v *Term) []*specAlt {
		return k.timeAlts("notAfter", after(s), func(w *Term) []*specAlt {
			a := &specAlt{}
			vals[a] = [2]*Term{v, w}
			return []*specAlt{a}
		})
	})
	specCheck(c, fn, outs, root, errNil, func(st *State, o Outcome, leaf *specAlt) (string, bool) {
		for i, n := range []string{"notBefore", "notAfter"} {
			if g := e.snap(st, o.r(i)); st.norm(g) != st.norm(vals[leaf][i]) {
				return fmt.Sprintf("%s is not the time encoded: %s", n, g.str(5)), false
			}
		}
		return "", true
	})
}

// checkName: a name is a SEQUENCE of SETs of attributes; shape gives the numbers of attributes.
func (k *certReader) checkName(fn *ssa.Function, shape []int) {
	c, e := k.c, k.e
	k.top = fn
	defer func() { k.top = nil }()
	var raw *Term
	rdns := func() (r []*Term) {
		s := cbVal(raw)
		for range shape {
			r = append(r, s)
			s = after(s)
		}
		return append(r, s)
	}
	_, _, outs, ok := c.analyseWith(e, fn, func(st *State, args []*Term) []*Term {
		raw = e.seqOf(st, args[0])
		rs := rdns()
		for i, n := range shape {
			st.assume(bnot(empty(rs[i])))
			a := cbVal(rs[i])
			for j := 0; j < n; j++ {
				st.assume(bnot(empty(a)))
				a = after(a)
			}
			st.assume(empty(a))
		}
		st.assume(empty(rs[len(shape)]))
		return args
	})
	if !ok {
		return
	}
	c.noPanic(e, fn, outs)
	type attr struct{ oid, val *Term }
	var want [][]attr
	a := &specAlt{name: fmt.Sprint("attributes ", shape), conds: []*Term{okASN1(raw, 48)}, names: []string{"a SEQUENCE"}}
	add := func(n string, t *Term) { a.conds, a.names = append(a.conds, t), append(a.names, n) }
	rs := rdns()
	for i, n := range shape {
		add("a SET", okASN1(rs[i], 49))
		s := cbVal(rs[i])
		var as []attr
		for j := 0; j < n; j++ {
			add("an attribute", okASN1(s, 48))
			x := cbVal(s)
			v := after(x)
			add("the type of an attribute", okOID(x))
			add("the value of an attribute", cbOK("Any", v))
			tg := mk("cb.tag", "", KInt, 8, v)
			add("a string as the value", mk("str.ok", "", KBool, 0, tg, cbVal(v)))
			as = append(as, attr{k.oid(x), specSeq(mkTyped("str", "", types.Typ[types.String], tg, cbVal(v)))})
			s = after(s)
		}
		want = append(want, as)
	}
	atvT := c.libType("crypto/x509/pkix", "AttributeTypeAndValue")
	specCheck(c, fn, outs, []*specAlt{a}, errNil, func(st *State, o Outcome, leaf *specAlt) (string, bool) {
		v := o.r(0)
		if _, ok := fn.Signature.Results().At(0).Type().(*types.Pointer); ok {
			v = e.load(st, v)
		}
		list := e.seqOf(st, v)
		if n, ok := constInt(st.norm(seqLen(list))); !ok || n != int64(len(want)) {
			return fmt.Sprintf("%s sets instead of %d", seqLen(list).str(4), len(want)), false
		}
		for i, as := range want {
			set := e.seqOf(st, seqSel(list, ci(int64(i))))
			if n, ok := constInt(st.norm(seqLen(set))); !ok || n != int64(len(as)) {
				return fmt.Sprintf("%s attributes in set %d instead of %d", seqLen(set).str(4), i+1, len(as)), false
			}
			for j, x := range as {
				y := seqSel(set, ci(int64(j)))
				if !sameSeq(st, e.seqOf(st, fld(y, atvT, 0)), x.oid) {
					return fmt.Sprintf("the type of attribute %d of set %d is not the one encoded: %s", j+1, i+1, fld(y, atvT, 0).str(5)), false
				}
				v := e.snap(st, fld(y, atvT, 1))
				if v.op != "iface" || v.s != "string" || !sameSeq(st, specSeq(v.a[0]), x.val) {
					return fmt.Sprintf("the value of attribute %d of set %d is not the one encoded: %s", j+1, i+1, v.str(5)), false
				}
			}
		}
		return "", true
	})
}

// checkString: the strings of an attribute, by tag.
func (k *certReader) checkString(fn *ssa.Function) {
	c, e := k.c, k.e
	k.str = fn
	defer func() { k.str = nil }()
	set := func(s string, more ...[2]rune) (r map[int64]bool) {
		r = map[int64]bool{}
		for _, x := range s {
			r[int64(x)] = true
		}
		for _, m := range more {
			for x := m[0]; x <= m[1]; x++ {
				r[int64(x)] = true
			}
		}
		return
	}
	digits, letters := [2]rune{'0', '9'}, [][2]rune{{'0', '9'}, {'A', 'Z'}, {'a', 'z'}}
	kinds := []struct {
		tag  int64
		name string
		set  map[int64]bool // the characters allowed
	}{{20, "T61String", nil}, {19, "PrintableString", set(" '()*+,-./:=?&", letters...)}, {12, "UTF8String", nil}, {30, "BMPString", nil}, {22, "IA5String", set("", [2]rune{0, 127})}, {18, "NumericString", set(" ", digits)}}
	run := func(prep func(st *State, args []*Term) []*Term, f func(entry *State, in *Term, outs []Outcome)) {
		var in *Term
		entry, _, outs, ok := c.analyseWith(e, fn, func(st *State, args []*Term) []*Term {
			in = e.seqOf(st, args[1])
			return prep(st, args)
		})
		if ok {
			c.noPanic(e, fn, outs)
			f(entry, in, outs)
		}
	}
	for _, kd := range kinds {
		run(func(st *State, args []*Term) []*Term { return []*Term{ci(kd.tag), args[1]} }, func(entry *State, in *Term, outs []Outcome) {
			var conds []*Term
			switch kd.tag {
			case 30:
				c.bmpDecoder(e, fn, in, outs)
				return
			case 12:
				conds = []*Term{pure("unicode/utf8.Valid", types.Typ[types.Bool], in)}
			}
			if kd.set != nil {
				c.characters(e, fn, kd.name, in, outs, kd.set)
				return
			}
			specCheck(c, fn, outs, []*specAlt{{name: kd.name, conds: conds, names: []string{"valid UTF-8"}}}, errNil, func(st *State, o Outcome, _ *specAlt) (string, bool) {
				return "the string is not the one encoded: " + o.r(0).str(4), sameSeq(st, specSeq(o.r(0)), in)
			})
		})
	}
	run(func(st *State, args []*Term) []*Term {
		for _, kd := range kinds {
			st.assume(bnot(mkEqInt(args[0], ci(kd.tag))))
		}
		return args
	}, func(entry *State, in *Term, outs []Outcome) {
		for _, o := range outs {
			c.oblige("other types are refused", short(fn), atPos(o), errNil(o) == tFalse, "a string of another type may be accepted")
		}
	})
}

// characters: fn succeeds, returning in unchanged, exactly when all characters of in are in the set.
func (c *Ctx) characters(e *Engine, fn *ssa.Function, name string, in *Term, outs []Outcome, set map[int64]bool) {
	good := 0
	for _, o := range outs {
		if o.panic {
			continue
		}
		// what the path says about the characters: sets that all belong to, and sets one is outside of
		var all, one []map[int64]bool
		for f, v := range o.st.facts {
			if f.op == "forall" && v {
				if s, ok := charSet(f.a[1], in); ok {
					all = append(all, s)
				}
			} else if s, ok := charSet(f, in); ok && f.op != "forall" {
				if !v {
					for x := int64(0); x < 256; x++ {
						s[x] = !s[x]
					}
				}
				one = append(one, s)
			} else if f.op == "forall" {
				if s, ok := charSet(f.a[1], in); ok { // one character violates it
					for x := int64(0); x < 256; x++ {
						s[x] = !s[x]
					}
					one = append(one, s)
				}
			}
		}
		inter := func(ms []map[int64]bool) func(x int64) bool {
			return func(x int64) bool {
				for _, m := range ms {
					if !m[x] {
						return false
					}
				}
				return true
			}
		}
		switch errNil(o) {
		case tTrue:
			good++
			bad, in1 := int64(-1), inter(all)
			for x := int64(0); x < 256; x++ {
				if in1(x) != set[x] {
					bad = x
				}
			}
			emptyOK := len(all) == 0 && o.st.entails(mkEq0(seqLen(in)))
			c.oblige("exactly the characters of the type are accepted", short(fn)+" ["+name+"]", atPos(o), bad < 0 || emptyOK, "character %d: accepted %v, of the type %v (%s)", bad, !set[bad], set[bad], pathFacts(o.st))
			c.oblige("success returns the specified result", short(fn)+" ["+name+"]", atPos(o), sameSeq(o.st, specSeq(o.r(0)), in), "the string is not the one encoded: %s", o.r(0).str(4))
		case tFalse:
			bad, in1 := int64(-1), inter(one)
			for x := int64(0); x < 256; x++ {
				if in1(x) && set[x] {
					bad = x
				}
			}
			c.oblige("failure only for another character", short(fn)+" ["+name+"]", atPos(o), len(one) > 0 && bad < 0, "a string with only characters of the type may be refused, such as %d", bad)
		default:
			c.oblige("the outcome is decided", short(fn)+" ["+name+"]", atPos(o), false, "error may or may not be nil")
		}
	}
	c.oblige("some path succeeds", short(fn)+" ["+name+"]", fn.Pos(), good > 0, "")
}

// charSet evaluates a condition on one element of s for every byte. A condition on the characters of the string s counts for
// bytes when it is false above 127.
func charSet(f, s *Term) (map[int64]bool, bool) {
	var el *Term
	ok := true
	subterms(f, func(t *Term) {
		if t.op == "sel" && (t.a[0] == s || t.a[0] == mkRunes(s)) {
			ok = ok && (el == nil || el == t)
			el = t
		}
	})
	if el == nil || !ok {
		return nil, false
	}
	r := map[int64]bool{}
	st := newState()
	for x := int64(0); x < 256; x++ {
		v := st.eval(substOne(f, el, ci(x)))
		if v != tTrue && v != tFalse {
			return nil, false
		}
		r[x] = v == tTrue
	}
	if el.a[0] != s {
		for _, x := range []int64{128, 255, 256, 0x7ff, 0xfffd, 0x10ffff} {
			if st.eval(substOne(f, el, ci(x))) == tTrue && st.eval(substOne(f, el, ci(128))) != tTrue {
				return nil, false
			}
		}
	}
	return r, true
}

func checkCertParts(c *Ctx) {
	k := newCertReader(c)
	if k == nil {
		return
	}
	k.e.knownLists = true
	c.oblige("anchor", "x509", 0, len(k.names) > 0 && len(k.times) > 0 && len(k.strs) > 0, "no function parses names, validity periods or strings")
	for _, f := range sortFuncs(k.times) {
		k.checkValidity(f)
	}
	for _, f := range sortFuncs(k.strs) {
		k.checkString(f)
	}
	shapes := [][]int{{}, {0}, {1}, {2, 1}}
	if c.tier == "thorough" {
		shapes = append(shapes, []int{3}, []int{1, 1, 2})
	}
	for _, f := range sortFuncs(k.names) {
		for _, s := range shapes {
			k.checkName(f, s)
		}
	}
}

func sortFuncs(m map[*ssa.Function]bool) (r []*ssa.Function) {
	for f := range m {
		r = append(r, f)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return
}

func init() {
	addCheck(&Check{id: "C21", rule: "abstract interpretation of the certificate parser: its accept condition and every field compared with the specified grammar of RFC 5280", run: checkParseCert,
		assume:  []string{"lists (name parts, extensions, concatenated certificates) are decided per length up to the bound, with arbitrary elements"},
		trusted: []string{"the DER primitives of cryptobyte and encoding/asn1, math/big, time, crypto/elliptic and crypto/rsa as modelled in models_cb.go and models_asn1.go"}})
}
