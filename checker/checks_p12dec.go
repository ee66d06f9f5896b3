package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C14: reading PKCS #12 files. getSafeContents (C12) and the parsers of keys and certificates are uninterpreted; files with every
// number of bags up to a bound are taken apart symbolically, and the loops over bags may depend on nothing but the bag
// at hand and what was found before.

type p12dec struct {
	c                      *Ctx
	e                      *Engine
	bagT, cbT, epkiT, pbeT types.Type
	attrT                  types.Type
	safes, bmpDec, pkcs8   *ssa.Function
	parseX                 *ssa.Function
	n, nattr               int
	bags                   []*Term
	anyBags                *Term
	updated                *Term
	plain                  bool
}

func newP12dec(c *Ctx, n, nattr int) *p12dec {
	d := &p12dec{c: c, n: n, nattr: nattr}
	d.bagT = bySchema(c, "pkcs12", "safeBag", schemaBag)
	d.cbT = bySchema(c, "pkcs12", "certBag", schemaCBag)
	d.epkiT = bySchema(c, "pkcs12", "encryptedPrivateKeyInfo", schemaEPKI)
	d.pbeT = bySchema(c, "pkcs12", "pbeParams", schemaPBE)
	d.attrT = bySchema(c, "pkcs12", "pkcs12Attribute", schemaAttr)
	d.safes = fnBySig(c, "pkcs12", "getSafeContents", "func([]byte, []byte) ([]safeBag, []byte, error)")
	d.bmpDec = fnBySig(c, "pkcs12", "decodeBMPString", "func([]byte) (string, error)")
	d.pkcs8 = c.P.fn("x509", "ParsePKCS8PrivateKey")
	d.parseX = c.P.fn("x509", "ParseCertificates")
	if d.bagT == nil || d.cbT == nil || d.epkiT == nil || d.pbeT == nil || d.attrT == nil {
		return nil
	}
	if !c.oblige("anchor", "pkcs12.getSafeContents", 0, d.safes != nil && d.bmpDec != nil && d.pkcs8 != nil && d.parseX != nil, "a function the property is anchored at is not found") {
		return nil
	}
	d.e = p12Engine(c, true)
	d.e.freezeElems, d.e.noMerge, d.e.maxPaths = true, true, 20000
	d.updated = mkT("sym", "verifiedPassword", KSeq, 0, types.Typ[types.Byte])
	d.anyBags = specSeq(mkTyped("sym", "bags", types.NewSlice(d.bagT)))
	for i := 0; i < n; i++ {
		d.bags = append(d.bags, sym(fmt.Sprintf("bag%d", i), d.bagT))
	}
	next := d.e.callHook
	d.e.callHook = func(fn *ssa.Function, st *State, args []*Term) []Outcome {
		switch fn {
		case d.safes:
			in, pw := d.e.seqOf(st, args[0]), d.e.seqOf(st, args[1])
			return fork2(st, "getSafeContents", d.safesOK(in, pw), func(st *State) []*Term {
				if n < 0 {
					return []*Term{mkTyped("sym", "bags", types.NewSlice(d.bagT)), d.e.newSlice(st, "pw", d.updated)}
				}
				if d.plain {
					for i, b := range d.bags {
						st.assume(mkEqSeq(fp(b, d.bagT, 0), oidCertBagID))
						for _, a := range d.attrs(i) {
							st.assume(mkEqSeq(fp(a, d.attrT, 0), oidFriendly))
						}
					}
				}
				els := make([]*Term, n)
				for i, b := range d.bags {
					els[i] = b
					if nattr >= 0 {
						at := d.e.newSlice(st, "attrs", mkListT(d.attrs(i), d.attrT))
						els[i] = setFld(expand(b, d.bagT), d.bagT, 2, at)
					}
				}
				return []*Term{d.e.newSlice(st, "bags", mkListT(els, d.bagT)), d.e.newSlice(st, "pw", d.updated)}
			}, 3)
		case d.bmpDec:
			s := d.e.seqOf(st, args[0])
			return fork2(st, "decodeBMPString", mk("bmpdec.ok", "", KBool, 0, s), func(st *State) []*Term {
				return []*Term{mkT("bmpdec", "", KSeq, 0, types.Typ[types.Byte], s)}
			}, 2)
		case d.pkcs8:
			s := d.e.seqOf(st, args[0])
			return fork2(st, "ParsePKCS8PrivateKey", mk("pkcs8key.ok", "", KBool, 0, s), func(st *State) []*Term {
				k := keyTerm(s)
				st.assume(bnot(mkIsNil(k)))
				return []*Term{k}
			}, 2)
		case d.parseX:
			return d.parsed(st, "mcrypto", d.e.seqOf(st, args[0]), fn.Signature.Results().At(0).Type())
		}
		return next(fn, st, args)
	}
	models := map[string]Model{}
	for k, v := range d.e.models {
		models[k] = v
	}
	models["crypto/x509.ParseCertificates"] = func(e *Engine, cc *callCtx) []Outcome {
		return d.parsed(cc.st, "std", e.seqOf(cc.st, cc.args[0]), cc.rtype(0))
	}
	d.e.models = models
	return d
}

func keyTerm(s *Term) *Term { return mk("pkcs8key", "", KVal, 0, s) }

func certsTerm(which string, s *Term, t types.Type) *Term {
	return mkTyped("certs", which, t, s)
}

func (d *p12dec) parsed(st *State, which string, s *Term, t types.Type) []Outcome {
	return fork2(st, "ParseCertificates", mk("certs.ok", which, KBool, 0, s), func(st *State) []*Term {
		l := certsTerm(which, s, t)
		// a successful parse returns no nil certificates
		x := d.e.seqOf(st, l)
		b := bvar(x)
		st.assume(mkForall(b, bnot(mkIsNil(seqSel(x, b))), seqLen(x)))
		st.assume(bnot(mkIsNil(seqSel(x, tZero))))
		return []*Term{l}
	}, 2)
}

func (d *p12dec) safesOK(in, pw *Term) *Term { return mk("safes.ok", "", KBool, 0, in, pw) }

func (d *p12dec) attrs(i int) (r []*Term) {
	for j := 0; j < d.nattr; j++ {
		r = append(r, sym(fmt.Sprintf("bag%d.attr%d", i, j), d.attrT))
	}
	return
}

func mkListT(el []*Term, t types.Type) *Term {
	l := mkList(el, false)
	if l.op == "list" && l.typ == nil {
		l = mkT(l.op, l.s, l.k, l.w, t, l.a...)
	}
	return l
}

// expand writes a struct value as its fields.
func expand(v *Term, T types.Type) *Term {
	st := structType(T)
	a := make([]*Term, st.NumFields())
	for i := range a {
		a[i] = fld(v, T, i)
	}
	return mkT("struct", tstr(T), KVal, 0, T, a...)
}

// fork2 is forkOK for a function with n results.
func fork2(st *State, name string, ok *Term, val func(st *State) []*Term, n int) []Outcome {
	cc := &callCtx{st: st, name: name}
	outs := forkOK(cc, ok, func(st *State) *Term { return mk("tuple", "", KVal, 0, val(st)...) })
	for i, o := range outs {
		if n == 1 {
			outs[i].res = o.res.a[1]
			continue
		}
		if o.res.a[0].op == "tuple" {
			outs[i].res = mk("tuple", "", KVal, 0, append(append([]*Term{}, o.res.a[0].a...), tNil)...)
			continue
		}
		r := []*Term{}
		for j := 0; j < n-1; j++ {
			r = append(r, tNil)
		}
		if name == "decodeBMPString" {
			r[0] = tEmpty
		}
		outs[i].res = mk("tuple", "", KVal, 0, append(r, o.res.a[1])...)
	}
	return outs
}

// input: the root conditions common to all readers.
func (d *p12dec) input(entry *State, args []*Term) (conds []*Term, names []string) {
	rs := mkRunes(args[1])
	b := bvar(rs)
	bmp := mkForall(b, mkGe0(iSub(ci(65535), seqSel(rs, b))), seqLen(rs))
	return []*Term{bmp, d.safesOK(d.e.seqOf(entry, args[0]), bmpTerm(args[1]))},
		[]string{"a password in the Basic Multilingual Plane", "intact safes under that password"}
}

var (
	oidCertBagID = oidTerm(1, 2, 840, 113549, 1, 12, 10, 1, 3)
	oidKeyBagID  = oidTerm(1, 2, 840, 113549, 1, 12, 10, 1, 2)
	oidX509Cert  = oidTerm(1, 2, 840, 113549, 1, 9, 22, 1)
)

// certBag: conditions under which a bag holds DER certificates, and the data.
func (d *p12dec) certData(val *Term) (conds []*Term, names []string, data *Term) {
	cs, cb := strictDER(d.cbT, val)
	return append(cs, mkEqSeq(fp(cb, d.cbT, 0), oidX509Cert)), []string{"a well-formed certificate bag", "nothing after it", "the X.509 certificate type"}, fp(cb, d.cbT, 1)
}

// keyBag: the alternatives of a shrouded key bag; f continues with the PKCS #8 data.
func (d *p12dec) keyAlts(val *Term, f func(pkcs8 *Term) []*specAlt) func() []*specAlt {
	return func() []*specAlt {
		_, ep := strictDER(d.epkiT, val)
		algT := structType(d.epkiT).Field(0).Type()
		alg := fp(ep, d.epkiT, 0)
		rawT := structType(d.attrT).Field(1).Type()
		var r []*specAlt
		for _, p := range pbeDecrypt(d.pbeT, fp(alg, algT, 0), fp(alg, algT, 1, 4), fp(ep, d.epkiT, 1), d.updated) {
			p := p
			rc, _ := strictDER(rawT, p.val)
			r = append(r, &specAlt{name: "key encrypted with " + p.name, disc: []*Term{p.conds[0]},
				conds: append(append(append([]*Term{}, p.conds...), rc...), mk("pkcs8key.ok", "", KBool, 0, p.val)),
				names: append(append([]string{}, p.names...), "one DER value", "nothing after it", "a PKCS #8 key"),
				next:  func() []*specAlt { return f(p.val) }})
		}
		return r
	}
}

// bagTree specifies Decode and DecodeAll.
func (d *p12dec) bagTree(which string, certsT types.Type, single bool, i int, certs []*Term, key *Term) []*specAlt {
	if i == d.n {
		a := &specAlt{conds: []*Term{cbool(len(certs) > 0), cbool(key != nil)}, names: []string{"a certificate", "a key"}}
		a.vals = append([]*Term{key}, certs...)
		return []*specAlt{a}
	}
	bag := d.bags[i]
	id, val := fp(bag, d.bagT, 0), fp(bag, d.bagT, 1, 3)
	isCert, isKey := mkEqSeq(id, oidCertBagID), mkEqSeq(id, oidKeyBagID)
	cc, cn, data := d.certData(val)
	list := specSeq(certsTerm(which, data, certsT))
	cc = append(append(cc, mk("certs.ok", which, KBool, 0, data), mkEq0(iSub(seqLen(list), tOne))), cbool(!single || len(certs) == 0))
	cn = append(cn, "parsable certificates", "exactly one certificate in the bag", "no certificate before")
	kc, _ := strictDER(d.epkiT, val)
	return []*specAlt{
		{name: fmt.Sprintf("bag %d: certificate", i), disc: []*Term{isCert}, conds: cc, names: cn, next: func() []*specAlt {
			return d.bagTree(which, certsT, single, i+1, append(certs[:len(certs):len(certs)], seqSel(list, tZero)), key)
		}},
		{name: fmt.Sprintf("bag %d: key", i), disc: []*Term{bnot(isCert), isKey}, conds: append([]*Term{cbool(key == nil)}, kc...), names: []string{"no key before", "a well-formed key bag", "nothing after it"},
			next: d.keyAlts(val, func(p8 *Term) []*specAlt {
				return d.bagTree(which, certsT, single, i+1, certs, keyTerm(p8))
			})},
		{name: fmt.Sprintf("bag %d: other", i), disc: []*Term{bnot(isCert), bnot(isKey)}, next: func() []*specAlt {
			return d.bagTree(which, certsT, single, i+1, certs, key)
		}},
	}
}

// uniform: for any number of bags, no decision compares the number of bags, the position or a count kept by a loop with anything
// but the length of the list and numbers below those of the files taken apart above.
func (c *Ctx) uniform(e *Engine, fn *ssa.Function, outs []Outcome, isList func(*Term) bool, bound int64) {
	bad := func(st *State) string {
		for _, f := range st.sortedFacts() {
			counted := false
			var scan func(t *Term, top bool) bool
			scan = func(t *Term, top bool) bool { // false: something else than a comparison
				switch {
				case t.op == "sel":
					return true
				case t.op == "phi" && t.k == KInt, t.op == "len" && (isList(t.a[0]) || t.a[0].op == "phi"):
					counted = true
					return top
				}
				for _, x := range t.a {
					if !scan(x, top && t.op == "poly") {
						return false
					}
				}
				return true
			}
			g := f
			if g.op == "not" {
				g = g.a[0]
			}
			if g.op != "ge0" && g.op != "eq0" {
				if (g.op == "forall" || g.op == "or" || g.op == "and") || hasCount(g, isList) == nil {
					continue
				}
				return f.str(6)
			}
			if !scan(g.a[0], true) {
				return f.str(6)
			}
			if !counted || g.a[0].op != "poly" {
				continue
			}
			for i, m := range g.a[0].a {
				if m == tOne && (!g.a[0].co[i].IsInt64() || g.a[0].co[i].Int64() > bound || g.a[0].co[i].Int64() < -bound) {
					return f.str(6)
				}
			}
		}
		return ""
	}
	seen := map[string]bool{}
	report := func(st *State, o Outcome) {
		if w := bad(st); w != "" && !seen[w] {
			seen[w] = true
			c.oblige("decisions depend on the elements, not on their number or position", short(fn), atPos(o), false, "a decision on %s", w)
		}
	}
	for _, o := range outs {
		report(o.st, o)
	}
	for _, li := range e.loopLog {
		for _, b := range li.backs {
			report(b.st, Outcome{st: b.st})
		}
	}
	c.oblige("decisions depend on the elements, not on their number or position", short(fn), fn.Pos(), len(seen) == 0, "see the other reports")
}

func is(l *Term) func(*Term) bool { return func(t *Term) bool { return t == l } }

// hasCount finds a count or position outside the elements of the list.
func hasCount(t *Term, isList func(*Term) bool) *Term {
	if t.op == "sel" {
		return nil
	}
	if t.op == "phi" && t.k == KInt || t.op == "len" && isList(t.a[0]) {
		return t
	}
	for _, x := range t.a {
		if r := hasCount(x, isList); r != nil {
			return r
		}
	}
	return nil
}

func checkReaders(c *Ctx) {
	maxN := 3
	if c.tier == "thorough" {
		maxN = 4
	}
	for _, name := range []string{"DecodeAll", "Decode"} {
		fn := c.P.fn("pkcs12", name)
		d := newP12dec(c, -1, -1)
		if fn == nil || d == nil {
			continue
		}
		d.e.noMerge, d.e.maxPaths = false, 160
		_, _, outs, ok := c.analyse(d.e, fn)
		if ok {
			c.uniform(d.e, fn, outs, is(d.anyBags), 2)
		}
	}
	for n := 0; n <= maxN; n++ {
		for _, f := range []struct {
			name, which string
			single      bool
		}{{"DecodeAll", "mcrypto", false}, {"Decode", "std", true}} {
			fn := c.P.fn("pkcs12", f.name)
			if !c.oblige("anchor", "pkcs12."+f.name, 0, fn != nil, "%s is not found", f.name) {
				continue
			}
			d := newP12dec(c, n, -1)
			if d == nil {
				return
			}
			entry, args, outs, ok := c.analyse(d.e, fn)
			if !ok {
				continue
			}
			c.noPanic(d.e, fn, outs)
			conds, names := d.input(entry, args)
			certsT := fn.Signature.Results().At(1).Type()
			if f.single {
				certsT = types.NewSlice(certsT)
			}
			root := []*specAlt{{name: fmt.Sprintf("%d bags", n), conds: conds, names: names, next: func() []*specAlt {
				return d.bagTree(f.which, certsT, f.single, 0, nil, nil)
			}}}
			specCheck(c, fn, outs, root, errNil, func(st *State, o Outcome, leaf *specAlt) (string, bool) {
				if o.r(0) != leaf.vals[0] {
					return "the key is not that of the key bag: " + clip(o.r(0).str(4), 200), false
				}
				if f.single {
					return "the certificate is not that of the certificate bag: " + clip(o.r(1).str(4), 200), o.r(1) == leaf.vals[1]
				}
				got := d.e.seqOf(o.st, o.r(1))
				if got.op != "list" || len(got.a) != len(leaf.vals)-1 {
					return "the certificates are not those of the bags: " + clip(got.str(4), 200), false
				}
				for i, x := range leaf.vals[1:] {
					if got.a[i] != x {
						return "the certificates are not those of the bags in order: " + clip(got.str(4), 200), false
					}
				}
				return "", true
			})
			for _, b := range splitBool(outs, errNil) {
				if !b.val {
					c.oblige("a failure releases nothing", short(fn), atPos(b.o), b.o.r(0) == tNil && (b.o.r(1) == tNil || holds(b.st, mkEq0(d.e.lenOf(b.o.st, b.o.r(1))))), "a key or certificate is returned together with an error")
				}
			}
		}
	}
}

var (
	oidFriendly = oidTerm(1, 2, 840, 113549, 1, 9, 20)
	oidLocalID  = oidTerm(1, 2, 840, 113549, 1, 9, 21)
	oidCSP      = oidTerm(1, 3, 6, 1, 4, 1, 311, 17, 1)
)

// pemBlock is what one bag becomes.
type pemBlock struct {
	typ   string
	heads [][2]*Term
	data  *Term
}

// pemTree specifies ToPEM; done collects the blocks so far.
func (d *p12dec) pemTree(i int, done []pemBlock, leaf map[*specAlt][]pemBlock) []*specAlt {
	if i == d.n {
		a := &specAlt{}
		leaf[a] = done
		return []*specAlt{a}
	}
	bag := d.bags[i]
	id, val := fp(bag, d.bagT, 0), fp(bag, d.bagT, 1, 3)
	rawT := structType(d.attrT).Field(1).Type()
	attrs := d.attrs(i)
	body := func(heads [][2]*Term) []*specAlt {
		isCert, isKey := mkEqSeq(id, oidCertBagID), mkEqSeq(id, oidKeyBagID)
		cc, cn, data := d.certData(val)
		kc, _ := strictDER(d.epkiT, val)
		next := func(b pemBlock) func() []*specAlt {
			return func() []*specAlt { return d.pemTree(i+1, append(done[:len(done):len(done)], b), leaf) }
		}
		return []*specAlt{
			{name: fmt.Sprintf("bag %d: certificate", i), disc: []*Term{isCert}, conds: cc, names: cn, next: next(pemBlock{"CERTIFICATE", heads, data})},
			{name: fmt.Sprintf("bag %d: key", i), disc: []*Term{bnot(isCert), isKey}, conds: kc, names: []string{"a well-formed key bag", "nothing after it"},
				next: d.keyAlts(val, func(p8 *Term) []*specAlt {
					k := keyTerm(p8)
					rsaT, ecT := d.keyType("crypto/rsa"), d.keyType("crypto/ecdsa")
					if rsaT == nil || ecT == nil {
						return nil
					}
					ec := mkTyped("asserted", tstr(ecT), ecT, k)
					return []*specAlt{
						{name: "RSA", disc: []*Term{typeIs(k, rsaT)}, next: next(pemBlock{"PRIVATE KEY", heads, mk("pkcs1der", "", KSeq, 0, mkTyped("asserted", tstr(rsaT), rsaT, k))})},
						{name: "ECDSA", disc: []*Term{bnot(typeIs(k, rsaT)), typeIs(k, ecT)}, conds: []*Term{mk("ecder.ok", "", KBool, 0, ec)}, names: []string{"an encodable EC key"}, next: next(pemBlock{"PRIVATE KEY", heads, mk("ecder", "", KSeq, 0, ec)})},
					}
				})},
		}
	}
	var attr func(j int, heads [][2]*Term) []*specAlt
	attr = func(j int, heads [][2]*Term) []*specAlt {
		if j >= len(attrs) {
			return body(heads)
		}
		aid, raw := fp(attrs[j], d.attrT, 0), fp(attrs[j], d.attrT, 1, 3)
		var none []*Term
		str := func(oid *Term, name string) *specAlt {
			cs, v := strictDER(rawT, raw)
			s := fp(v, rawT, 3)
			a := &specAlt{name: name, disc: append(append([]*Term{}, none...), mkEqSeq(aid, oid)), conds: append(cs, mk("bmpdec.ok", "", KBool, 0, s)), names: []string{"a well-formed value", "nothing after it", "a BMP string"},
				next: func() []*specAlt {
					return attr(j+1, append(heads[:len(heads):len(heads)], [2]*Term{cbytes(name), mkT("bmpdec", "", KSeq, 0, types.Typ[types.Byte], s)}))
				}}
			none = append(none, bnot(mkEqSeq(aid, oid)))
			return a
		}
		fr := str(oidFriendly, "friendlyName")
		octT := types.NewSlice(types.Typ[types.Byte])
		cs, v := strictDER(octT, raw)
		loc := &specAlt{name: "localKeyId", disc: append(append([]*Term{}, none...), mkEqSeq(aid, oidLocalID)), conds: cs, names: []string{"an octet string", "nothing after it"},
			next: func() []*specAlt {
				return attr(j+1, append(heads[:len(heads):len(heads)], [2]*Term{cbytes("localKeyId"), mk("hexstr", "", KSeq, 0, v)}))
			}}
		none = append(none, bnot(mkEqSeq(aid, oidLocalID)))
		return []*specAlt{fr, loc, str(oidCSP, "Microsoft CSP Name")}
	}
	return attr(0, nil)
}

// keyType is *PrivateKey of a standard library package.
func (d *p12dec) keyType(path string) types.Type {
	for _, p := range d.c.P.prog.AllPackages() {
		if p.Pkg.Path() == path {
			if o, ok := p.Pkg.Scope().Lookup("PrivateKey").(*types.TypeName); ok {
				return types.NewPointer(o.Type())
			}
		}
	}
	d.c.oblige("anchor", path, 0, false, "%s.PrivateKey is not found", path)
	return nil
}

// sameBlock compares a *pem.Block with what is specified.
func (d *p12dec) sameBlock(o Outcome, p *Term, want pemBlock) (string, bool) {
	b := d.e.load(o.st, p)
	if b.op != "struct" || len(b.a) != 3 {
		return "a block is not known field by field: " + clip(b.str(4), 200), false
	}
	if t := d.e.seqOf(o.st, b.a[0]); t != cbytes(want.typ) {
		return "the type of a block is " + clip(t.str(4), 80), false
	}
	if t := d.e.seqOf(o.st, b.a[2]); !sameSeq(o.st, t, want.data) {
		return "the data of a block differ: " + firstDiff(t, want.data), false
	}
	got, exp := map[*Term]*Term{}, map[*Term]*Term{}
	for _, h := range want.heads {
		exp[h[0]] = h[1]
	}
	if b.a[1] != tNil {
		m := d.e.load(o.st, b.a[1])
		for m.op == "mapset" {
			if _, ok := got[m.a[1]]; !ok {
				got[m.a[1]] = d.e.seqOf(o.st, m.a[2])
			}
			m = m.a[0]
		}
		if m.op != "map0" {
			return "the headers of a block are unknown: " + clip(m.str(4), 200), false
		}
	}
	if len(got) != len(exp) {
		return fmt.Sprintf("a block has %d headers instead of %d", len(got), len(exp)), false
	}
	for k, v := range exp {
		if got[k] == nil || !sameSeq(o.st, got[k], v) {
			return "header " + k.s + " differs: " + clip(got[k].str(5), 200), false
		}
	}
	return "", true
}

func checkToPEM(c *Ctx) {
	fn := c.P.fn("pkcs12", "ToPEM")
	if !c.oblige("anchor", "pkcs12.ToPEM", 0, fn != nil, "ToPEM is not found") {
		return
	}
	cases := [][2]int{{0, 0}, {1, 0}, {1, 1}, {1, 2}, {2, 0}, {-2, 2}}
	if c.tier == "thorough" {
		cases = append(cases, [2]int{3, 0}, [2]int{1, 3}, [2]int{2, 1})
	}
	run := func(n, nattr int) (d *p12dec, entry *State, args []*Term, outs []Outcome, ok bool) {
		plain := n < 0
		if plain {
			n = -n
		}
		if d = newP12dec(c, n, nattr); d == nil {
			return
		}
		d.plain = plain
		d.e.models["crypto/x509.MarshalPKCS1PrivateKey"] = func(e *Engine, cc *callCtx) []Outcome {
			return []Outcome{{st: cc.st, res: e.newSlice(cc.st, "pkcs1", mk("pkcs1der", "", KSeq, 0, cc.args[0]))}}
		}
		d.e.models["crypto/x509.MarshalECPrivateKey"] = func(e *Engine, cc *callCtx) []Outcome {
			k := cc.args[0]
			return fork2(cc.st, "MarshalECPrivateKey", mk("ecder.ok", "", KBool, 0, k), func(st *State) []*Term { return []*Term{e.newSlice(st, "ecder", mk("ecder", "", KSeq, 0, k))} }, 2)
		}
		d.e.models["encoding/hex.EncodeToString"] = func(e *Engine, cc *callCtx) []Outcome {
			return []Outcome{{st: cc.st, res: mkT("hexstr", "", KSeq, 0, nil, e.seqOf(cc.st, cc.args[0]))}}
		}
		entry, args, outs, ok = c.analyse(d.e, fn)
		return
	}
	if d, _, _, outs, ok := func() (*p12dec, *State, []*Term, []Outcome, bool) {
		d := newP12dec(c, -1, -1)
		if d == nil {
			return nil, nil, nil, nil, false
		}
		d.e.noMerge, d.e.maxPaths = false, 160
		_, _, outs, ok := c.analyse(d.e, fn)
		return d, nil, nil, outs, ok
	}(); ok {
		c.uniform(d.e, fn, outs, is(d.anyBags), 1)
	}
	for _, cs := range cases {
		d, entry, args, outs, ok := run(cs[0], cs[1])
		if !ok {
			continue
		}
		c.noPanic(d.e, fn, outs)
		conds, names := d.input(entry, args)
		leaves := map[*specAlt][]pemBlock{}
		root := []*specAlt{{name: fmt.Sprintf("%d bags with %d attributes", d.n, cs[1]), conds: conds, names: names, next: func() []*specAlt { return d.pemTree(0, nil, leaves) }}}
		specCheck(c, fn, outs, root, errNil, func(st *State, o Outcome, leaf *specAlt) (string, bool) {
			want := leaves[leaf]
			got := d.e.seqOf(o.st, o.r(0))
			if len(want) == 0 {
				return "blocks without bags: " + clip(got.str(4), 100), holds(o.st, mkEq0(seqLen(got)))
			}
			if got.op != "list" || len(got.a) != len(want) {
				return "the blocks are not those of the bags: " + clip(got.str(4), 200), false
			}
			for i, w := range want {
				if d, ok := d.sameBlock(o, got.a[i], w); !ok {
					return d, false
				}
			}
			return "", true
		})
		for _, b := range splitBool(outs, errNil) {
			if !b.val {
				c.oblige("a failure releases nothing", short(fn), atPos(b.o), b.o.r(0) == tNil || holds(b.st, mkEq0(d.e.lenOf(b.o.st, b.o.r(0)))), "blocks are returned together with an error")
			}
		}
	}
}

func init() {
	addCheck(&Check{id: "C17", rule: "abstract interpretation of the PEM conversion against the specified decision tree over bags and attributes", run: checkToPEM})
	addCheck(&Check{id: "C14", rule: "abstract interpretation against the specified decision tree over the bags of a file", run: checkReaders})
}
