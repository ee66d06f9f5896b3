package main

import (
	"fmt"
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// x509Engine analyses x509 with SM2 verification as an uninterpreted predicate (decided by C02).
func x509Engine(c *Ctx) *Engine {
	e := p12Engine(c, false)
	e.useSM2Curve()
	models := map[string]Model{}
	for k, v := range e.models {
		models[k] = v
	}
	e.models = models
	verify := c.P.fn("sm2", "Verify")
	e.callHook = func(fn *ssa.Function, st *State, args []*Term) []Outcome {
		if fn == verify && verify != nil {
			return []Outcome{{st: st, res: sm2Verify(e.snap(st, args[0]), e.seqOf(st, args[1]), e.seqOf(st, args[2]), e.seqOf(st, args[3]))}}
		}
		return nil
	}
	return e
}

// hook adds a summary in front of the present ones; f returns nil to decline.
func (e *Engine) hook(f func(fn *ssa.Function, st *State, args []*Term) []Outcome) {
	next := e.callHook
	e.callHook = func(fn *ssa.Function, st *State, args []*Term) []Outcome {
		if r := f(fn, st, args); r != nil {
			return r
		}
		if next != nil {
			return next(fn, st, args)
		}
		return nil
	}
}

func sm2Verify(pub, msg, uid, sig *Term) *Term {
	if uid == sm2DefaultID {
		uid = tEmpty
	}
	return mk("sm2.verify", "", KBool, 0, pub, msg, uid, sig)
}

// constVal is the value of a package-level constant; -1 and a failed obligation if there is none.
func (c *Ctx) constVal(pkg, name string) int64 {
	if p := c.P.pkgs[pkg]; p != nil {
		if k, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok {
			if v, exact := constant.Int64Val(k.Val()); exact {
				return v
			}
		}
	}
	c.oblige("anchor", pkg+"."+name, 0, false, "no constant %s", name)
	return -1
}

// libConst is the value of a constant of an imported package.
func (c *Ctx) libConst(path, name string) (int64, bool) {
	for _, p := range c.P.prog.AllPackages() {
		if p.Pkg.Path() == path {
			if k, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok {
				return constant.Int64Val(k.Val())
			}
		}
	}
	return 0, false
}

// libType is a type of an imported package.
func (c *Ctx) libType(path, name string) types.Type {
	for _, p := range c.P.prog.AllPackages() {
		if p.Pkg.Path() == path {
			if k, ok := p.Pkg.Scope().Lookup(name).(*types.TypeName); ok {
				return k.Type()
			}
		}
	}
	c.oblige("anchor", path, 0, false, "%s.%s is not found", path, name)
	return nil
}

// ---- hash identifiers

var hashNames = []struct {
	name, alg string
	size      int64
}{
	{"MD4", "", 16}, {"MD5", "md5", 16}, {"SHA1", "sha1", 20}, {"SHA224", "sha224", 28}, {"SHA256", "sha256", 32}, {"SHA384", "sha384", 48}, {"SHA512", "sha512", 64}, {"MD5SHA1", "", 36},
	{"RIPEMD160", "ripemd160", 20}, {"SHA3_224", "sha3-224", 28}, {"SHA3_256", "sha3-256", 32}, {"SHA3_384", "sha3-384", 48}, {"SHA3_512", "sha3-512", 64}, {"SHA512_224", "sha512/224", 28}, {"SHA512_256", "sha512/256", 32},
	{"BLAKE2s_256", "", 32}, {"BLAKE2b_256", "", 32}, {"BLAKE2b_384", "", 48}, {"BLAKE2b_512", "", 64}, {"SM3", "sm3", 32},
}

func checkHashes(c *Ctx) {
	e := x509Engine(c)
	size, newFn, avail, hf := c.P.fn("x509", "Hash.Size"), c.P.fn("x509", "Hash.New"), c.P.fn("x509", "Hash.Available"), c.P.fn("x509", "Hash.HashFunc")
	if !c.oblige("anchor", "x509.Hash", 0, size != nil && newFn != nil && avail != nil && hf != nil, "a method of Hash is not found") {
		return
	}
	at := func(f *ssa.Function, v int64) []Outcome {
		_, _, outs, ok := c.analyseWith(e, f, func(st *State, args []*Term) []*Term { return []*Term{ci(v)} })
		if !ok {
			return nil
		}
		return outs
	}
	seen := map[int64]string{}
	for _, h := range hashNames {
		v := c.constVal("x509", h.name)
		w := "x509.Hash " + h.name
		if seen[v] != "" {
			c.oblige("identifiers are distinct", w, 0, false, "%s has the value of %s", h.name, seen[v])
		}
		seen[v] = h.name
		if std, ok := c.libConst("crypto", h.name); ok {
			c.oblige("value of crypto.Hash", w, 0, v == std, "%s is %d, crypto.%s is %d", h.name, v, h.name, std)
		}
		one := func(f *ssa.Function, what string, want *Term) {
			outs := at(f, v)
			ok := len(outs) == 1 && !outs[0].panic && outs[0].res == want
			got := "not one result"
			if len(outs) == 1 {
				got = "a panic"
				if !outs[0].panic {
					got = clip(outs[0].res.str(3), 80)
				}
			}
			c.oblige(what, w, f.Pos(), ok, "%s of %s is %s, not %s", what, h.name, got, want.str(3))
		}
		one(size, "digest size", ci(h.size))
		one(hf, "HashFunc", ci(v))
		if h.alg == "" {
			continue
		}
		one(avail, "availability", tTrue)
		outs := at(newFn, v)
		if !c.oblige("constructor", w, newFn.Pos(), len(outs) == 1 && !outs[0].panic, "New of %s has not one result", h.name) {
			continue
		}
		st := outs[0].st.clone()
		alg, ok := hashAlg(e, st, outs[0].res)
		c.oblige("constructor", w, newFn.Pos(), ok && alg == h.alg, "New of %s computes %s", h.name, alg)
	}
	c.oblige("identifiers are distinct", "x509.Hash", 0, seen[0] == "", "%s is 0, which means no hash", seen[0])
	// available means that New returns, also for identifiers that name nothing
	max := int64(0)
	for v := range seen {
		if v > max {
			max = v
		}
	}
	agree := func(st *State, v int64, when string) {
		made, says := e.call(st.clone(), newFn, []*Term{ci(v)}, nil), e.call(st.clone(), avail, []*Term{ci(v)}, nil)
		ok := len(made) == 1 && len(says) == 1 && !says[0].panic && says[0].res == cbool(!made[0].panic)
		c.oblige("availability", fmt.Sprintf("x509.Hash %d", v), avail.Pos(), ok, "Available of %d does not say whether New returns%s", v, when)
	}
	entry, _, _, ok := c.analyseWith(e, avail, func(st *State, args []*Term) []*Term { return []*Term{tZero} })
	if !ok {
		return
	}
	for v := int64(0); v <= max+2; v++ {
		agree(entry, v, "")
	}
	agree(entry, 1<<40, "")
	// registration replaces one entry and nothing else
	reg, f := c.P.fn("x509", "RegisterHash"), c.P.fn("sm3", "New")
	if !c.oblige("anchor", "x509.RegisterHash", 0, reg != nil && f != nil, "RegisterHash is not found") {
		return
	}
	for v := range seen {
		outs := e.call(entry.clone(), reg, []*Term{ci(v), fnTerm(f)}, nil)
		if !c.oblige("registration", fmt.Sprintf("x509.Hash %s", seen[v]), reg.Pos(), len(outs) == 1 && !outs[0].panic, "RegisterHash of %s does not return", seen[v]) {
			continue
		}
		for u := range seen {
			before, after := e.call(entry.clone(), newFn, []*Term{ci(u)}, nil), e.call(outs[0].st.clone(), newFn, []*Term{ci(u)}, nil)
			name := func(o []Outcome) string {
				if len(o) != 1 || o[0].panic {
					return "none"
				}
				n, _ := hashAlg(e, o[0].st, o[0].res)
				return n
			}
			want := name(before)
			if u == v {
				want = "sm3"
			}
			c.oblige("registration", fmt.Sprintf("x509.Hash %s", seen[u]), reg.Pos(), name(after) == want, "after RegisterHash of %s, New of %s computes %s, not %s", seen[v], seen[u], name(after), want)
			if u == v {
				agree(outs[0].st, u, " after registration")
			}
		}
	}
	outs := e.call(entry.clone(), reg, []*Term{ci(max + 1), fnTerm(f)}, nil)
	c.oblige("registration", "x509.RegisterHash", reg.Pos(), len(outs) == 1 && outs[0].panic, "RegisterHash of an unknown identifier does not panic")
}

// hashAlg says which algorithm a fresh hash object computes, inlined ones (SM3) included.
func hashAlg(e *Engine, st *State, h *Term) (string, bool) {
	if h.op == "iface" {
		h = h.a[0]
	}
	if h.op == "hashobj" {
		cur := e.load(st, h.a[0])
		if cur.op == "hashst" && cur.a[0].op == "bytes" && cur.a[1] == tEmpty && len(cur.a) == 2 {
			return cur.a[0].s, true
		}
	}
	return clip(h.str(3), 60), false
}

// ---- signature algorithms

type sigAlg struct {
	name, key, hash string
	oid             *Term
	pss             bool
}

var sigAlgs = []sigAlg{
	{"MD5WithRSA", "RSA", "md5", oidTerm(1, 2, 840, 113549, 1, 1, 4), false},
	{"SHA1WithRSA", "RSA", "sha1", oidTerm(1, 2, 840, 113549, 1, 1, 5), false},
	{"SHA256WithRSA", "RSA", "sha256", oidTerm(1, 2, 840, 113549, 1, 1, 11), false},
	{"SHA384WithRSA", "RSA", "sha384", oidTerm(1, 2, 840, 113549, 1, 1, 12), false},
	{"SHA512WithRSA", "RSA", "sha512", oidTerm(1, 2, 840, 113549, 1, 1, 13), false},
	{"SHA256WithRSAPSS", "RSA", "sha256", oidTerm(1, 2, 840, 113549, 1, 1, 10), true},
	{"SHA384WithRSAPSS", "RSA", "sha384", oidTerm(1, 2, 840, 113549, 1, 1, 10), true},
	{"SHA512WithRSAPSS", "RSA", "sha512", oidTerm(1, 2, 840, 113549, 1, 1, 10), true},
	{"DSAWithSHA1", "DSA", "sha1", oidTerm(1, 2, 840, 10040, 4, 3), false},
	{"DSAWithSHA256", "DSA", "sha256", oidTerm(2, 16, 840, 1, 101, 3, 4, 3, 2), false},
	{"ECDSAWithSHA1", "ECDSA", "sha1", oidTerm(1, 2, 840, 10045, 4, 1), false},
	{"ECDSAWithSHA256", "ECDSA", "sha256", oidTerm(1, 2, 840, 10045, 4, 3, 2), false},
	{"ECDSAWithSHA384", "ECDSA", "sha384", oidTerm(1, 2, 840, 10045, 4, 3, 3), false},
	{"ECDSAWithSHA512", "ECDSA", "sha512", oidTerm(1, 2, 840, 10045, 4, 3, 4), false},
	{"PureEd25519", "Ed25519", "", oidTerm(1, 3, 101, 112), false},
	{"SM2WithSM3", "SM2", "sm3", oidTerm(1, 2, 156, 10197, 1, 501), false},
}

var hashOIDs = map[string]*Term{
	"sha256": oidTerm(2, 16, 840, 1, 101, 3, 4, 2, 1), "sha384": oidTerm(2, 16, 840, 1, 101, 3, 4, 2, 2), "sha512": oidTerm(2, 16, 840, 1, 101, 3, 4, 2, 3),
	"sm3": oidTerm(1, 2, 156, 10197, 1, 401, 1), "sha1": oidTerm(1, 3, 14, 3, 2, 26),
}

var keyTypeNames = []struct{ alg, path, name string }{
	{"RSA", "crypto/rsa", "PublicKey"}, {"ECDSA", "crypto/ecdsa", "PublicKey"}, {"SM2", modPath + "/sm2", "PublicKey"}, {"Ed25519", "crypto/ed25519", "PublicKey"},
}

// pubType is the dynamic type of public keys of an algorithm.
func (c *Ctx) pubType(alg string) types.Type {
	for _, k := range keyTypeNames {
		if k.alg == alg {
			t := c.libType(k.path, k.name)
			if t != nil && alg != "Ed25519" {
				t = types.NewPointer(t)
			}
			return t
		}
	}
	return nil
}

func (c *Ctx) cryptoHash(alg string) *Term {
	n := map[string]string{"sha256": "SHA256", "sha384": "SHA384", "sha512": "SHA512"}[alg]
	v, _ := c.libConst("crypto", n)
	return ci(v)
}

// sigConds: what makes a signature by algorithm a of key over msg valid; nil if it never is.
func (c *Ctx) sigConds(e *Engine, st *State, a sigAlg, key, msg, sig *Term) (conds []*Term, names []string) {
	t := c.pubType(a.key)
	if a.hash == "md5" || a.hash == "sha1" || t == nil {
		return nil, nil
	}
	p := mkTyped("asserted", tstr(t), t, key)
	k := e.snap(st, p)
	conds, names = []*Term{typeIs(key, t)}, []string{"a key of algorithm " + a.key}
	dig := msg
	if a.hash != "" {
		dig = mkHash(cbytes(a.hash), nil, msg)
	}
	switch a.key {
	case "RSA":
		errT := types.Universe.Lookup("error").Type()
		if a.pss {
			opt := c.libType("crypto/rsa", "PSSOptions")
			if opt == nil {
				return nil, nil
			}
			o := mk("ref", "", KVal, 0, mkT("struct", tstr(opt), KVal, 0, opt, ci(-1), ci(0)))
			conds = append(conds, mkIsNil(mkTyped("app", "crypto/rsa.VerifyPSS", errT, k, c.cryptoHash(a.hash), dig, sig, o)))
		} else {
			conds = append(conds, mkIsNil(mkTyped("app", "crypto/rsa.VerifyPKCS1v15", errT, k, c.cryptoHash(a.hash), dig, sig)))
		}
	case "ECDSA":
		conds = append(conds, mkTyped("app", "crypto/ecdsa.VerifyASN1", types.Typ[types.Bool], k, dig, sig))
	case "Ed25519":
		conds = append(conds, mkTyped("app", "crypto/ed25519.Verify", types.Typ[types.Bool], k, msg, sig))
	case "SM2":
		cv, _ := e.field(st, p, t, "Curve")
		conds = append(conds, mkEq(cv, e.curve), sm2Verify(k, msg, tEmpty, sig))
		names = append(names, "the SM2 curve")
	}
	return conds, append(names, "a valid signature")
}

// wellFormedKeys assumes that a pointer to a key in an interface is not nil.
func (c *Ctx) wellFormedKeys(st *State, key *Term) {
	for _, k := range keyTypeNames {
		if t := c.pubType(k.alg); t != nil && k.alg != "Ed25519" {
			st.assume(bnot(mkIsNil(mkTyped("asserted", tstr(t), t, key))))
		}
	}
}

func checkSignatures(c *Ctx) {
	fn := c.P.fn("x509", "Certificate.CheckSignature")
	if !c.oblige("anchor", "x509.Certificate.CheckSignature", 0, fn != nil && fn.Signature.Params().Len() == 3, "CheckSignature is not found") {
		return
	}
	e := x509Engine(c)
	e.noMerge, e.maxPaths = true, 4000
	run := func(name string, a *sigAlg, algo func(st *State, x *Term) *Term) {
		entry, args, outs, ok := c.analyseWith(e, fn, func(st *State, args []*Term) []*Term {
			args[1] = algo(st, args[1])
			key, _ := e.field(st, args[0], fn.Params[0].Type(), "PublicKey")
			c.wellFormedKeys(st, key)
			return args
		})
		if !ok {
			return
		}
		c.noPanic(e, fn, outs)
		key, _ := e.field(entry, args[0], fn.Params[0].Type(), "PublicKey")
		var root []*specAlt
		if a != nil {
			if conds, names := c.sigConds(e, entry, *a, key, e.seqOf(entry, args[2]), e.seqOf(entry, args[3])); conds != nil {
				root = []*specAlt{{name: name, conds: conds, names: names}}
			}
		}
		if root == nil {
			for _, b := range splitBool(outs, errNil) {
				c.oblige("never valid", short(fn)+" "+name, atPos(b.o), !b.val, "a signature is accepted: %s", clip(pathFacts(b.st), 300))
			}
			return
		}
		specCheck(c, fn, outs, root, errNil, func(*State, Outcome, *specAlt) (string, bool) { return "", true })
	}
	vals := map[int64]bool{}
	for i := range sigAlgs {
		a := sigAlgs[i]
		v := c.constVal("x509", a.name)
		c.oblige("identifiers are distinct", "x509."+a.name, 0, !vals[v] && v != 0, "two signature algorithms have the value %d", v)
		vals[v] = true
		run(a.name, &a, func(st *State, x *Term) *Term { return ci(v) })
	}
	run("other algorithms", nil, func(st *State, x *Term) *Term {
		for v := range vals {
			st.assume(bnot(mkEqInt(x, ci(v))))
		}
		return x
	})
}

func init() {
	tr := []string{"the standard library and golang.org/x/crypto behave as documented", "golang.org/x/tools/go/ssa"}
	addCheck(&Check{id: "C22", rule: "constant evaluation of the hash table by abstract interpretation", run: checkHashes, trusted: tr})
	addCheck(&Check{id: "C19", rule: "abstract interpretation of signature verification per algorithm against the specified conditions", run: checkSignatures, trusted: tr})
}

var _ = fmt.Sprint

// checksigHook makes signature verification an uninterpreted operation, decided by C19.
func checksigHook(c *Ctx, e *Engine) {
	method := c.P.fn("x509", "Certificate.CheckSignature")
	inner := c.P.fn("x509", "checkSignature")
	if inner != nil && (inner.Signature.Params().Len() != 4 || inner.Signature.Results().Len() != 1) {
		inner = nil
	}
	usable := map[int64]bool{}
	for _, a := range sigAlgs {
		if a.key != "DSA" && a.hash != "md5" && a.hash != "sha1" {
			usable[c.constVal("x509", a.name)] = true
		}
	}
	e.hook(func(fn *ssa.Function, st *State, args []*Term) []Outcome {
		var algo, msg, sig, key *Term
		switch {
		case fn == method && fn != nil:
			algo, msg, sig = args[1], args[2], args[3]
			key, _ = e.field(st, args[0], fn.Params[0].Type(), "PublicKey")
		case fn == inner && fn != nil:
			algo, msg, sig, key = args[0], args[1], args[2], args[3]
		default:
			return nil
		}
		r := checksig(algo, e.seqOf(st, msg), e.seqOf(st, sig), key)
		if v, ok := constInt(algo); ok && !usable[v] {
			st.assume(bnot(mkIsNil(r)))
		}
		return []Outcome{{st: st, res: r}}
	})
}

func checksig(algo, msg, sig, key *Term) *Term {
	return mkTyped("checksig", "", types.Universe.Lookup("error").Type(), algo, msg, sig, key)
}

// algTree is the tree of algorithm identifiers; leaf conditions come from next.
func (c *Ctx) algTree(aiT, pssT types.Type, ai *Term, leaf func(a sigAlg) *specAlt) []*specAlt {
	oid := fp(ai, aiT, 0)
	raw := fp(ai, aiT, 1, 4)
	var r []*specAlt
	var pss []sigAlg
	for _, a := range sigAlgs {
		a := a
		if a.pss {
			pss = append(pss, a)
			continue
		}
		alt := &specAlt{name: a.name, disc: []*Term{mkEqSeq(oid, a.oid)}, next: func() []*specAlt { return []*specAlt{leaf(a)} }}
		if a.key == "Ed25519" {
			alt.conds, alt.names = []*Term{mkEq0(seqLen(raw))}, []string{"no parameters"}
		}
		if leaf(a) == nil {
			continue
		}
		r = append(r, alt)
	}
	ok := func(t types.Type, s *Term) *Term { return asn1OK(asn1Schema(t), "", s) }
	null := cbytes("\x05\x00")
	v := asn1Val(pssT, "", raw)
	hash, mgf := fp(v, pssT, 0), fp(v, pssT, 1)
	mraw := fp(mgf, aiT, 1, 4)
	inner := asn1Val(aiT, "", mraw)
	hraw, iraw := fp(hash, aiT, 1, 4), fp(inner, aiT, 1, 4)
	absent := func(s *Term) *Term { return mkOr2(mkEq0(seqLen(s)), mkEqSeq(s, null)) }
	r = append(r, &specAlt{name: "RSA-PSS", disc: []*Term{mkEqSeq(oid, pss[0].oid)},
		conds: []*Term{ok(pssT, raw), ok(aiT, mraw), absent(hraw), mkEqSeq(fp(mgf, aiT, 0), oidTerm(1, 2, 840, 113549, 1, 1, 8)), mkEqSeq(fp(inner, aiT, 0), fp(hash, aiT, 0)), absent(iraw), mkEqInt(fp(v, pssT, 3), tOne)},
		names: []string{"PSS parameters", "MGF parameters", "no parameters of the hash", "MGF1", "the same hash in MGF1", "no parameters of the MGF1 hash", "the default trailer"},
		next: func() (r []*specAlt) {
			for _, a := range pss {
				a := a
				r = append(r, &specAlt{name: a.name, disc: []*Term{mkEqSeq(fp(hash, aiT, 0), hashOIDs[a.hash])}, conds: []*Term{mkEqInt(fp(v, pssT, 2), ci(int64(hashSize(a.hash))))}, names: []string{"a salt of the length of the hash"},
					next: func() []*specAlt { return []*specAlt{leaf(a)} }})
			}
			return
		}})
	return r
}

func mkOr2(x, y *Term) *Term { return bnot(mkAnd(bnot(x), bnot(y))) }

const schemaPSS = "{" + schemaAlg + " explicit,tag:0;" + schemaAlg + " explicit,tag:1;int explicit,tag:2;int optional,explicit,tag:3,default:1}"

func checkAlgorithms(c *Ctx) {
	fn := c.P.fn("x509", "Certificate.CheckCRLSignature")
	aiT, crlT, bsT := c.libType("crypto/x509/pkix", "AlgorithmIdentifier"), c.libType("crypto/x509/pkix", "CertificateList"), c.libType("encoding/asn1", "BitString")
	pssT := bySchema(c, "x509", "pssParameters", schemaPSS)
	if !c.oblige("anchor", "x509.Certificate.CheckCRLSignature", 0, fn != nil && fn.Signature.Params().Len() == 1, "CheckCRLSignature is not found") || aiT == nil || pssT == nil || crlT == nil || bsT == nil {
		return
	}
	e := x509Engine(c)
	e.noMerge, e.maxPaths = true, 4000
	checksigHook(c, e)
	entry, args, outs, ok := c.analyseWith(e, fn, func(st *State, args []*Term) []*Term {
		st.assume(bnot(mkIsNil(args[1])))
		return args
	})
	if !ok {
		return
	}
	c.noPanic(e, fn, outs)
	crl := e.load(entry, args[1])
	ai := fp(crl, crlT, 1)
	key, _ := e.field(entry, args[0], fn.Params[0].Type(), "PublicKey")
	msg := fp(crl, crlT, 0, 0)
	sig := e.seqOf(entry, mkTyped("app", "(encoding/asn1.BitString).RightAlign", types.NewSlice(types.Typ[types.Byte]), fp(crl, crlT, 2)))
	root := c.algTree(aiT, pssT, ai, func(a sigAlg) *specAlt {
		if a.key == "DSA" || a.hash == "md5" || a.hash == "sha1" {
			return nil
		}
		return &specAlt{name: "signature", conds: []*Term{mkIsNil(checksig(ci(c.constVal("x509", a.name)), msg, sig, key))}, names: []string{"a valid signature over the list by that algorithm"}}
	})
	specCheck(c, fn, outs, root, errNil, func(*State, Outcome, *specAlt) (string, bool) { return "", true })
}

func init() {
	tr := []string{"the standard library and golang.org/x/crypto behave as documented", "golang.org/x/tools/go/ssa"}
	addCheck(&Check{id: "C18", rule: "abstract interpretation of algorithm identification against the specified decision tree", run: checkAlgorithms, trusted: tr})
}

func checkSignedBy(c *Ctx) {
	from, csr := c.P.fn("x509", "Certificate.CheckSignatureFrom"), c.P.fn("x509", "CertificateRequest.CheckSignature")
	if !c.oblige("anchor", "x509", 0, from != nil && csr != nil && from.Signature.Params().Len() == 1, "CheckSignatureFrom or CertificateRequest.CheckSignature is not found") {
		return
	}
	run := func(fn *ssa.Function, raw string, signer int) {
		e := x509Engine(c)
		e.noMerge, e.maxPaths = true, 4000
		checksigHook(c, e)
		entry, args, outs, ok := c.analyseWith(e, fn, func(st *State, args []*Term) []*Term {
			for _, a := range args {
				st.assume(bnot(mkIsNil(a)))
			}
			return args
		})
		if !ok {
			return
		}
		c.noPanic(e, fn, outs)
		get := func(i int, name string) *Term {
			v, _ := e.field(entry, args[i], fn.Params[i].Type(), name)
			if !c.oblige("anchor", short(fn), fn.Pos(), v != nil, "no field %s", name) {
				v = tZero
			}
			return v
		}
		good := mkIsNil(checksig(get(0, "SignatureAlgorithm"), e.seqOf(entry, get(0, raw)), e.seqOf(entry, get(0, "Signature")), get(signer, "PublicKey")))
		alt := &specAlt{name: "signed", conds: []*Term{good}, names: []string{"a valid signature of the signer's key over the raw bytes"}}
		if signer == 1 {
			usage := get(1, "KeyUsage")
			bit := bnot(mkEq0(bAnd(usage, ci(c.constVal("x509", "KeyUsageCertSign")), intWidth(types.Typ[types.Int]))))
			alt.conds = append(alt.conds, bnot(mkAnd(mkEqInt(get(1, "Version"), ci(3)), bnot(get(1, "BasicConstraintsValid")))), bnot(mkAnd(get(1, "BasicConstraintsValid"), bnot(get(1, "IsCA")))),
				mkOr2(mkEq0(usage), bit), bnot(mkEqInt(get(1, "PublicKeyAlgorithm"), ci(c.constVal("x509", "UnknownPublicKeyAlgorithm")))))
			alt.names = append(alt.names, "basic constraints in a version 3 parent", "a parent that is a CA if it has basic constraints", "a parent allowed to sign certificates", "a known key algorithm")
		}
		specCheck(c, fn, outs, []*specAlt{alt}, errNil, func(*State, Outcome, *specAlt) (string, bool) { return "", true })
	}
	run(from, "RawTBSCertificate", 1)
	run(csr, "RawTBSCertificateRequest", 0)
}

func init() {
	tr := []string{"the standard library and golang.org/x/crypto behave as documented", "golang.org/x/tools/go/ssa"}
	addCheck(&Check{id: "C20", rule: "abstract interpretation of certificate and request signature checks against the specified conditions", run: checkSignedBy, trusted: tr})
}
