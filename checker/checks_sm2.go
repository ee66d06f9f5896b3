package main

import (
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func hexInt(s string) *Term {
	n, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic("hex")
	}
	return cbig(n)
}

// the SM2 recommended curve (GB/T 32918.5)
var (
	sm2P  = hexInt("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF")
	sm2A  = hexInt("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFC")
	sm2B  = hexInt("28E9FA9E9D9F5E344D5A9E4BCF6509A7F39789F515AB8F92DDBCBD414D940E93")
	sm2N  = hexInt("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123")
	sm2Gx = hexInt("32C4AE2C1F1981195F9904466A39C9948FE30BBFF2660BE1715A4589334C74C7")
	sm2Gy = hexInt("BC3736A2F4F6779C59BDCEE36B692153D0A9877CC62A474002DF32E52139F0A0")
)

func sm2Engine(c *Ctx) *Engine {
	e := newEngine(c.P)
	e.local = map[string]bool{modPath + "/sm3.New": true, modPath + "/sm3.Sum": true}
	e.initPackages("sm3", "sm2")
	e.useSM2Curve()
	return e
}

func sm3T(data ...*Term) *Term { return mkHash(cbytes("sm3"), nil, seqCat(data...)) }

// sm2Digest is SM3(Z || msg) for the given identifier bytes.
func sm2Digest(x, y, id, msg *Term) *Term {
	z := sm3T(mkBE(2, iScale(seqLen(id), 8)), id, mkBE(32, sm2A), mkBE(32, sm2B), mkBE(32, sm2Gx), mkBE(32, sm2Gy), mkBE(32, x), mkBE(32, y))
	return sm3T(z, msg)
}

var sm2DefaultID = cbytes("1234567812345678")

func ecX(p *Term) *Term { return mk("app", "ec.x", KInt, 0, p) }
func ecY(p *Term) *Term { return mk("app", "ec.y", KInt, 0, p) }

type sm2Ops struct{ e *Engine }

func (o sm2Ops) base(k *Term) *Term {
	return mk("ecmul", "", KVal, 0, o.e.curveParams, mk("ecbase", "", KVal, 0), k)
}
func (o sm2Ops) mul(x, y, k *Term) *Term {
	return mk("ecmul", "", KVal, 0, o.e.curveParams, pointOf(x, y), k)
}
func (o sm2Ops) add(p, q *Term) *Term {
	if q.id < p.id {
		p, q = q, p
	}
	return mk("ecadd", "", KVal, 0, o.e.curveParams, p, q)
}

// verifyConds are the conditions of the SM2 verification algorithm on (r, s) for the integer e.
func (o sm2Ops) verifyConds(x, y, ev, r, s *Term) (conds []*Term, pt *Term) {
	t := iMod(iAdd(r, s), sm2N)
	pt = o.add(o.base(s), o.mul(x, y, t))
	return []*Term{
		mkGe0(iSub(r, tOne)), mkGe0(iSub(iSub(sm2N, tOne), r)),
		mkGe0(iSub(s, tOne)), mkGe0(iSub(iSub(sm2N, tOne), s)),
		bnot(mkEq0(t)),
		mkEqInt(iMod(iAdd(ev, ecX(pt)), sm2N), r),
	}, pt
}

var condNames = []string{"r>=1", "r<=n-1", "s>=1", "s<=n-1", "(r+s) mod n != 0", "(e+x1) mod n == r"}

// derSig gives the conditions under which sig is exactly SEQUENCE{INTEGER r, INTEGER s}, and r and s.
func derSig(sig *Term) (conds []*Term, names []string, r, s *Term) {
	const key = "*math/big.Int"
	ok, rest := cbOK, cbRest
	seq := ci(48)
	inner := cbVal(sig)
	kk := cbytes(key)
	rest1 := rest("Integer", inner, kk)
	conds = []*Term{
		ok("ASN1", sig, seq),
		mkEq0(seqLen(rest("ASN1", sig, seq))),
		ok("Integer", inner, kk),
		ok("Integer", rest1, kk),
		mkEq0(seqLen(rest("Integer", rest1, kk))),
	}
	names = []string{"outer SEQUENCE", "no bytes after the SEQUENCE", "INTEGER r", "INTEGER s", "no bytes after s"}
	return conds, names, mk("cb.int", key, KInt, 0, inner), mk("cb.int", key, KInt, 0, rest1)
}

type verEntry struct {
	name          string
	pub, msg, uid int // argument positions; uid -1: msg is a digest
	r, s, sig     int
}

var verEntries = []verEntry{
	{"VerifyRS", 0, 1, 2, 3, 4, -1},
	{"VerifyDigestRS", 0, 1, -1, 2, 3, -1},
	{"PublicKey.VerifyRS", 0, 1, 2, 3, 4, -1},
	{"PublicKey.VerifyDigestRS", 0, 1, -1, 2, 3, -1},
	{"Verify", 0, 1, 2, -1, -1, 3},
	{"VerifyDigest", 0, 1, -1, -1, -1, 2},
	{"PublicKey.Verify", 0, 1, 2, -1, -1, 3},
	{"PublicKey.VerifyDigest", 0, 1, -1, -1, -1, 2},
}

func sigFn(c *Ctx, pkg, name string, nparam int) *ssa.Function {
	fn := c.fn(pkg, name)
	if fn == nil && len(name) > 0 {
		return nil
	}
	if len(fn.Params) < nparam {
		c.oblige("anchor", pkg+"."+name, fn.Pos(), false, "unexpected signature %s", fn.Signature)
		return nil
	}
	return fn
}

// bothIDs calls f for the default and for the explicit identifier, as far as the state leaves them possible.
func bothIDs(st *State, uid *Term, f func(st *State, id *Term)) {
	empty := mkEq0(seqLen(uid))
	a, b := st.clone(), st.clone()
	if a.assume(empty) {
		f(a, sm2DefaultID)
	}
	if b.assume(bnot(empty)) {
		f(b, uid)
	}
}

func checkVerify(c *Ctx) {
	e := sm2Engine(c)
	o := sm2Ops{e}
	for _, v := range verEntries {
		fn := sigFn(c, "sm2", v.name, 3)
		if fn == nil {
			continue
		}
		st, args, outs, ok := c.analyse(e, fn)
		if !ok {
			continue
		}
		pt := fn.Params[v.pub].Type()
		X, Y := e.bigField(st, args[v.pub], pt, "X"), e.bigField(st, args[v.pub], pt, "Y")
		msg := e.seqOf(st, args[v.msg])
		var uid, r, s *Term
		if v.uid >= 0 {
			uid = e.seqOf(st, args[v.uid])
		}
		var pre []*Term
		var preNames []string
		if v.sig >= 0 {
			pre, preNames, r, s = derSig(e.seqOf(st, args[v.sig]))
		} else {
			r, s = e.bigVal(st, args[v.r]), e.bigVal(st, args[v.s])
		}
		nAcc, nRej := 0, 0
		judge := func(b boolCase, st *State, id *Term) {
			ev := os2ip(msg)
			if id != nil {
				ev = os2ip(sm2Digest(X, Y, id, msg))
			}
			conds, p := o.verifyConds(X, Y, ev, r, s)
			names := append(append([]string(nil), preNames...), condNames...)
			conds = append(append([]*Term(nil), pre...), conds...)
			if b.val {
				nAcc++
				for i, cd := range conds {
					c.oblige("accept-implies "+names[i], short(fn), atPos(b.o), holds(st, cd), "a signature can be accepted although %q is not established; accepting path: %s", names[i], pathFacts(st))
				}
				if id == uid && uid != nil {
					c.oblige("accept-implies identifier fits ENTL", short(fn), atPos(b.o), holds(st, mkGe0(iSub(ci(8191), seqLen(uid)))), "an identifier longer than 8191 bytes can be accepted")
				}
				return
			}
			nRej++
			// a valid signature is rejected only when the recovered point has a zero coordinate
			conds = append(conds, mkGe0(iSub(ecX(p), tOne)), mkGe0(iSub(ecY(p), tOne)))
			if uid != nil && id == uid {
				conds = append(conds, mkGe0(iSub(ci(8191), seqLen(uid))))
			}
			c.oblige("reject-implies invalid", short(fn), atPos(b.o), contradictory(st, conds...), "a valid signature can be rejected; rejecting path: %s", pathFacts(st))
		}
		for _, b := range splitBool(outs, func(o Outcome) *Term { return o.r(0) }) {
			if uid == nil {
				judge(b, b.st, nil)
				continue
			}
			bothIDs(b.st, uid, func(st *State, id *Term) { judge(b, st, id) })
		}
		c.oblige("both outcomes reachable", short(fn), fn.Pos(), nAcc > 0 && nRej > 0, "%d accepting and %d rejecting paths", nAcc, nRej)
	}
}

func pathFacts(st *State) string {
	s := ""
	for _, f := range st.sortedFacts() {
		if f.op == "isnil" {
			continue
		}
		if !st.facts[f] {
			f = bnot(f)
		}
		s += clip(f.str(8), 400) + "; "
		if len(s) > 2500 {
			break
		}
	}
	return s
}

func checkDigest(c *Ctx) {
	e := sm2Engine(c)
	fn := sigFn(c, "sm2", "PublicKey.SM3Digest", 3)
	if fn == nil {
		return
	}
	st, args, outs, ok := c.analyse(e, fn)
	if !ok {
		return
	}
	X, Y := e.bigField(st, args[0], fn.Params[0].Type(), "X"), e.bigField(st, args[0], fn.Params[0].Type(), "Y")
	msg, uid := e.seqOf(st, args[1]), e.seqOf(st, args[2])
	fit := mkGe0(iSub(ci(8191), seqLen(uid)))
	n := 0
	for _, b := range splitBool(outs, errNil) {
		bothIDs(b.st, uid, func(st *State, id *Term) {
			n++
			if b.val {
				got := st.norm(e.seqOf(st, b.o.r(0)))
				want := sm2Digest(X, Y, id, msg)
				c.oblige("digest = SM3(SM3(ENTL,ID,a,b,G,P) , M)", short(fn), atPos(b.o), got == want, "the digest is %s, want %s", got.str(10), want.str(10))
				if id == uid {
					c.oblige("long identifiers are refused", short(fn), atPos(b.o), holds(st, fit), "an identifier whose bit length does not fit ENTL is hashed")
				}
				return
			}
			if id == uid {
				c.oblige("digest error only for a long identifier", short(fn), atPos(b.o), contradictory(st, fit), "an error for an acceptable identifier: %s", pathFacts(st))
			} else {
				c.oblige("digest error only for a long identifier", short(fn), atPos(b.o), false, "an error for the default identifier")
			}
		})
	}
	c.oblige("paths", short(fn), fn.Pos(), n >= 2, "%d cases", n)
	// every consumer of a message goes through the same digest: decided by the verification and signing checks
}

// nonce classifies a scalar drawn from the caller's random source.
// It returns the reader and whether the scalar is uniform enough and in [1, n-1].
func (c *Ctx) nonce(e *Engine, st *State, k *Term) (reader *Term, why string) {
	var src *Term
	sampleEv := func(data *Term) (*Term, string) {
		for _, ev := range st.events() {
			if ev.kind != "read" || ev.args[2] != data {
				continue
			}
			if len(ev.res) > 1 && st.eval(mkIsNil(ev.res[1])) != tTrue {
				return nil, "the random read is used although its error was not checked"
			}
			return ev.args[0], ""
		}
		return nil, "the value does not come from the random source"
	}
	fixedRand := func(t *Term) (data *Term, bits int64, ok bool) {
		if t.op == "os2ip" && t.a[0].op == "fixed" && t.a[0].s == "rand" {
			if n, isC := constInt(t.a[0].a[0]); isC {
				return t.a[0], 8 * n, true
			}
		}
		if t.op == "os2ip" && t.a[0].op == "fixed" && t.a[0].s == "partial" {
			return nil, 0, false
		}
		return nil, 0, false
	}
	// (1) 1 + (x mod (n-1)), x of at least 64 bits more than the order
	if x := iSub(k, tOne); x.op == "mod" && x.a[1] == iSub(sm2N, tOne) {
		d, bits, ok := fixedRand(x.a[0])
		if !ok {
			return nil, "the reduced value is not a full random read: " + x.a[0].str(5)
		}
		if bits < 256+64 {
			return nil, "fewer than 64 bits beyond the order are reduced: the nonce is biased"
		}
		return sampleEv(d)
	}
	// (2) rejection sampling of a value of the order's width
	if d, bits, ok := fixedRand(k); ok {
		if bits < 256 {
			return nil, "the nonce has fewer bits than the order"
		}
		if !holds(st, mkGe0(iSub(k, tOne))) || !holds(st, mkGe0(iSub(iSub(sm2N, tOne), k))) {
			return nil, "the nonce is not known to lie in [1, n-1]"
		}
		return sampleEv(d)
	}
	// (3) crypto/rand.Int
	if x := iSub(k, tOne); x.op == "randint" && x.a[0] == iSub(sm2N, tOne) || k.op == "randint" && k.a[0] == sm2N {
		ri := k
		if ri.op != "randint" {
			ri = x
		} else if !holds(st, mkGe0(iSub(k, tOne))) {
			return nil, "the nonce may be zero"
		}
		for _, ev := range st.events() {
			if ev.kind == "randint" && ev.res[0] == ri {
				if st.eval(mkIsNil(ev.res[1])) != tTrue {
					return nil, "the random read is used although its error was not checked"
				}
				src = ev.args[0]
				return src, ""
			}
		}
	}
	return nil, "the nonce is not a recognised sample from [1, n-1]: " + k.str(6)
}

// subterms visits every subterm once.
func subterms(t *Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var visit func(*Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		f(t)
		for _, x := range t.a {
			visit(x)
		}
	}
	visit(t)
}

// baseMult finds the scalars k of the subterms k*G of t.
func (o sm2Ops) baseMult(t *Term) []*Term {
	var r []*Term
	subterms(t, func(x *Term) {
		if x.op == "ecmul" && x.a[1].op == "ecbase" {
			r = append(r, x.a[2])
		}
	})
	return r
}

type signEntry struct {
	name            string
	rand, priv, msg int
	uid             int
	der             bool
}

var signEntries = []signEntry{
	{"SignDigestRS", 0, 1, 2, -1, false},
	{"SignRS", 0, 1, 2, 3, false},
	{"SignDigest", 0, 1, 2, -1, true},
	{"Sign", 0, 1, 2, 3, true},
	{"PrivateKey.SignDigestRS", 1, 0, 2, -1, false},
	{"PrivateKey.SignRS", 1, 0, 2, 3, false},
	{"PrivateKey.SignDigest", 1, 0, 2, -1, true},
	{"PrivateKey.Sign", 1, 0, 2, 3, true},
}

func derSigOf(r, s *Term) *Term {
	d := func(x *Term) *Term { return tlv(ci(2), mk("derint", "", KSeq, 0, x)) }
	return tlv(ci(48), seqCat(d(r), d(s)))
}

func checkSign(c *Ctx) {
	e := sm2Engine(c)
	o := sm2Ops{e}
	for _, v := range signEntries {
		fn := sigFn(c, "sm2", v.name, 3)
		if fn == nil {
			continue
		}
		st, args, outs, ok := c.analyse(e, fn)
		if !ok {
			continue
		}
		pt := fn.Params[v.priv].Type()
		X, Y, D := e.bigField(st, args[v.priv], pt, "X"), e.bigField(st, args[v.priv], pt, "Y"), e.bigField(st, args[v.priv], pt, "D")
		msg := e.seqOf(st, args[v.msg])
		inRange := []*Term{mkGe0(iSub(D, tOne)), mkGe0(iSub(iSub(sm2N, ci(2)), D))}
		var uid *Term
		if v.uid >= 0 {
			uid = e.seqOf(st, args[v.uid])
		}
		judge := func(b boolCase, st *State, id *Term) {
			w := short(fn)
			if !b.val {
				c.signError(e, b, st, w, inRange, uid, id)
				return
			}
			var r, s, first *Term
			if v.der {
				sig := e.seqOf(st, b.o.r(0))
				if sig.op != "tlv" {
					c.oblige("signature is DER SEQUENCE{r,s}", w, atPos(b.o), false, "the signature is %s", sig.str(6))
					return
				}
				var is []*Term
				subterms(sig, func(t *Term) {
					if t.op == "derint" {
						is = append(is, t.a[0])
					}
				})
				if len(is) != 2 || sig != derSigOf(is[0], is[1]) && sig != derSigOf(is[1], is[0]) {
					c.oblige("signature is DER SEQUENCE{r,s}", w, atPos(b.o), false, "the signature is %s", sig.str(6))
					return
				}
				c.oblige("signature is DER SEQUENCE{r,s}", w, atPos(b.o), true, "")
				r, s = is[0], is[1]
				if sig != derSigOf(r, s) {
					r, s = s, r
				}
			} else {
				r, s = e.bigVal(st, b.o.r(0)), e.bigVal(st, b.o.r(1))
			}
			first = r
			ks := o.baseMult(first)
			if len(ks) != 1 {
				c.oblige("r uses one nonce point", w, atPos(b.o), false, "r = %s", r.str(8))
				return
			}
			k := ks[0]
			rd, why := c.nonce(e, st, k)
			c.oblige("nonce fresh, unbiased, in [1,n-1]", w, atPos(b.o), why == "" && rd == args[v.rand], "%s (reader %v)", why, rd)
			ev := os2ip(msg)
			if id != nil {
				ev = os2ip(sm2Digest(X, Y, id, msg))
			}
			wantR := iMod(iAdd(ev, ecX(o.base(k))), sm2N)
			c.oblige("r = (e + x1) mod n", w, atPos(b.o), r == wantR, "r = %s, want %s", r.str(10), wantR.str(10))
			wantS := iMod(iMul(iInv(iAdd(D, tOne), sm2N), iSub(k, iMul(wantR, D))), sm2N)
			c.oblige("s = (1+d)^-1 (k - r d) mod n", w, atPos(b.o), s == wantS, "s = %s, want %s", s.str(12), wantS.str(12))
			c.oblige("r != 0", w, atPos(b.o), holds(st, bnot(mkEq0(r))), "r = 0 is not excluded")
			c.oblige("r + k != n", w, atPos(b.o), holds(st, bnot(mkEqInt(iAdd(r, k), sm2N))), "r + k = n is not excluded")
			c.oblige("s != 0", w, atPos(b.o), holds(st, bnot(mkEq0(s))), "s = 0 is not excluded")
			c.oblige("1 <= d <= n-2", w, atPos(b.o), holds(st, inRange[0]) && holds(st, inRange[1]), "a private key outside [1, n-2] signs")
		}
		nok := 0
		for _, b := range splitBool(outs, errNil) {
			if b.val {
				nok++
			}
			if uid == nil {
				judge(b, b.st, nil)
				continue
			}
			bothIDs(b.st, uid, func(st *State, id *Term) { judge(b, st, id) })
		}
		c.oblige("signing succeeds on some path", short(fn), fn.Pos(), nok > 0, "no successful path")
	}
}

// signError: an error is returned only when the random source fails, the key is out of range or the identifier is too long.
func (c *Ctx) signError(e *Engine, b boolCase, st *State, w string, inRange []*Term, uid, id *Term) {
	last := b.o.res
	if last.op == "tuple" && last.a[len(last.a)-1].op == "app" && last.a[len(last.a)-1].s == "cbb.err" {
		return // the encoder's own error is passed on
	}
	if last.op == "tuple" {
		for i := 0; i < len(last.a)-1; i++ {
			c.oblige("no signature is returned with an error", w, atPos(b.o), last.a[i] == tNil, "result %d is %s", i, last.a[i].str(4))
		}
		last = last.a[len(last.a)-1]
	}
	if readFailed(st) {
		return
	}
	conds := append([]*Term(nil), inRange...)
	if id != nil && id == uid {
		conds = append(conds, mkGe0(iSub(ci(8191), seqLen(uid))))
	}
	c.oblige("signing fails only for a bad key, identifier or random source", w, atPos(b.o), contradictory(st, conds...), "an error on a path with a usable key: %s", pathFacts(st))
}

// readFailed: some random read on the path returned an error.
func readFailed(st *State) bool {
	for _, ev := range st.events() {
		if (ev.kind == "read" || ev.kind == "genkey" || ev.kind == "randint") && len(ev.res) > 0 {
			if st.eval(mkIsNil(ev.res[len(ev.res)-1])) == tFalse {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- encryption

// sm2Mask is the key stream for a shared point and length.
func sm2Mask(x, y, n *Term) *Term {
	b := bvar(iAdd(x, iAdd(y, n)))
	rep := mkRep(b, sm3T(mkBE(32, x), mkBE(32, y), mkBE(4, iAdd(b, tOne))), iFdiv(iAdd(n, ci(31)), ci(32)))
	return seqSub(rep, tZero, n)
}

// notAllZero: the path knows that some byte of the mask is not zero.
func notAllZero(st *State, m *Term) bool {
	if st.eval(mk("allzero", "", KBool, 0, m)) == tFalse {
		return true
	}
	found := false
	test := func(f *Term, val bool) {
		if f.op == "eq0" && !val || f.op == "ge0" && val {
			for a := range toPoly(f.a[0]) {
				if a.op == "sel" && (a.a[0] == m || seqSelC(m, a.a[1], st.cmp) == a) && st.entails(mkGe0(a.a[1])) && st.entails(mkGe0(iSub(iSub(seqLen(m), tOne), a.a[1]))) {
					if st.eval(mkEq0(a)) == tFalse {
						found = true
					}
				}
			}
		}
	}
	for _, f := range st.sortedFacts() {
		test(f, st.facts[f])
	}
	return found
}

func checkEncrypt(c *Ctx) {
	e := sm2Engine(c)
	o := sm2Ops{e}
	fn := sigFn(c, "sm2", "Encryt", 3)
	if fn == nil {
		return
	}
	st, args, outs, ok := c.analyse(e, fn)
	if !ok {
		return
	}
	X, Y := e.bigField(st, args[1], fn.Params[1].Type(), "X"), e.bigField(st, args[1], fn.Params[1].Type(), "Y")
	msg := e.seqOf(st, args[2])
	w := short(fn)
	nok, refused := 0, false
	for _, b := range splitBool(outs, errNil) {
		st := b.st
		if !b.val {
			c.oblige("no ciphertext is returned with an error", w, atPos(b.o), b.o.r(0) == tNil, "result %s", b.o.r(0).str(4))
			if readFailed(st) {
				continue
			}
			refused = refused || !contradictory(st, mkEqInt(seqLen(msg), ci(0)))
			c.oblige("encryption fails only for an empty message or a failed random source", w, atPos(b.o), contradictory(st, mkGe0(iSub(seqLen(msg), tOne))), "an error on the path %s", pathFacts(st))
			continue
		}
		nok++
		ct := st.norm(e.seqOf(st, b.o.r(0)))
		ks := map[*Term]bool{}
		for _, k := range o.baseMult(ct) {
			ks[k] = true
		}
		if len(ks) != 1 {
			c.oblige("C1 = kG", w, atPos(b.o), false, "the ciphertext is %s", ct.str(8))
			continue
		}
		var k *Term
		for x := range ks {
			k = x
		}
		rd, why := c.nonce(e, st, k)
		c.oblige("nonce fresh, unbiased, in [1,n-1]", w, atPos(b.o), why == "" && rd == args[0], "%s (reader %v)", why, rd)
		p, q := o.base(k), o.mul(X, Y, k)
		mask := sm2Mask(ecX(q), ecY(q), seqLen(msg))
		head := seqCat(cbytes("\x04"), mkBE(32, ecX(p)), mkBE(32, ecY(p)))
		c3 := sm3T(mkBE(32, ecX(q)), msg, mkBE(32, ecY(q)))
		want := seqCat(head, c3, mkXorSeq(msg, mask))
		c.oblige("ciphertext = 04 || C1 || C3 || C2", w, atPos(b.o), ct == want, "the ciphertext is %s, want %s", ct.str(12), want.str(12))
		c.oblige("an all-zero mask is never used", w, atPos(b.o), notAllZero(st, mask), "nothing on the path excludes an all-zero mask")
		c.oblige("non-empty message", w, atPos(b.o), holds(st, mkGe0(iSub(seqLen(msg), tOne))), "an empty message is encrypted")
	}
	c.oblige("encryption succeeds on some path", w, fn.Pos(), nok > 0, "no successful path")
	c.oblige("an empty message is refused", w, fn.Pos(), refused, "no path returns for an empty message: its mask is all zero for every nonce")
}

func checkDecrypt(c *Ctx) {
	e := sm2Engine(c)
	o := sm2Ops{e}
	fn := sigFn(c, "sm2", "Decryt", 2)
	if fn == nil {
		return
	}
	st, args, outs, ok := c.analyse(e, fn)
	if !ok {
		return
	}
	D := e.bigField(st, args[0], fn.Params[0].Type(), "D")
	data := e.seqOf(st, args[1])
	w := short(fn)
	n := seqLen(data)
	x, y := os2ip(seqSub(data, ci(1), ci(33))), os2ip(seqSub(data, ci(33), ci(65)))
	q := o.mul(x, y, D)
	mask := sm2Mask(ecX(q), ecY(q), iSub(n, ci(97)))
	c2 := seqSub(data, ci(97), n)
	pt := mkXorSeq(c2, mask)
	conds := []*Term{
		mkGe0(iSub(n, ci(98))),
		mkEqInt(seqSel(data, tZero), ci(4)),
		mkGe0(iSub(iSub(sm2P, tOne), x)), mkGe0(iSub(iSub(sm2P, tOne), y)),
		mk("app", "oncurve", KBool, 0, e.curveParams, x, y),
		mkEqSeq(sm3T(mkBE(32, ecX(q)), pt, mkBE(32, ecY(q))), seqSub(data, ci(65), ci(97))),
	}
	names := []string{"at least one byte of C2", "uncompressed-point prefix 04", "C1.x < p", "C1.y < p", "C1 is on the curve", "C3 matches the plaintext"}
	nok := 0
	for _, b := range splitBool(outs, errNil) {
		st := b.st
		if b.val {
			nok++
			got := st.norm(e.seqOf(st, b.o.r(0)))
			c.oblige("plaintext = C2 xor mask", w, atPos(b.o), got == st.norm(pt), "the plaintext is %s, want %s", got.str(10), pt.str(10))
			for i, cd := range conds {
				c.oblige("release-implies "+names[i], w, atPos(b.o), holds(st, cd), "plaintext is released although %q is not established; path: %s", names[i], pathFacts(st))
			}
			c.oblige("release-implies mask not all zero", w, atPos(b.o), notAllZero(st, mask), "an all-zero mask is accepted")
			continue
		}
		c.oblige("no plaintext is returned with an error", w, atPos(b.o), b.o.r(0) == tNil, "result %s", b.o.r(0).str(4))
		// C1 = O cannot be represented; [h]C1 = O and an all-zero mask are the remaining refusals
		one := o.mul(x, y, tOne)
		full := append(append([]*Term(nil), conds...), bnot(mk("allzero", "", KBool, 0, mask)), mkGe0(iSub(ecX(one), tOne)))
		c.oblige("reject-implies malformed", w, atPos(b.o), contradictory(st, full...), "a well-formed ciphertext can be refused; path: %s", pathFacts(st))
	}
	c.oblige("decryption succeeds on some path", w, fn.Pos(), nok > 0, "no successful path")
}

// ---------------------------------------------------------------- parameters and keys

func checkCurve(c *Ctx) {
	e := sm2Engine(c)
	// published parameters
	fn := c.fn("sm2", "SM2P256V1")
	if fn == nil {
		return
	}
	st, _, outs, ok := c.analyse(e, fn)
	if !ok {
		return
	}
	_ = st
	t := fn.Signature.Results().At(0).Type()
	for _, o := range outs {
		get := func(name string, want *Term) {
			f, ft := e.field(o.st, o.res, t, name)
			if f == nil {
				c.oblige("curve parameter "+name, short(fn), fn.Pos(), false, "no such field")
				return
			}
			if d := deref(ft); d != nil && isBigInt(d) {
				f = e.bigVal(o.st, f)
			}
			c.oblige("curve parameter "+name, short(fn), fn.Pos(), f == want, "%s = %s, want %s", name, f, want)
		}
		get("P", sm2P)
		get("A", sm2A)
		get("B", sm2B)
		get("N", sm2N)
		get("Gx", sm2Gx)
		get("Gy", sm2Gy)
		get("BitSize", ci(256))
	}
	// key generation
	if g := sigFn(c, "sm2", "GenerateKey", 1); g != nil {
		_, args, outs, ok := c.analyse(e, g)
		if ok {
			c.genKey(e, g, args, outs)
		}
	}
	for _, name := range []string{"PublicKey.Equal", "PrivateKey.Equal"} {
		c.keyEqual(e, name)
	}
	if f := sigFn(c, "sm2", "PrivateKey.Public", 1); f != nil {
		_, args, outs, ok := c.analyse(e, f)
		if ok {
			for _, o := range outs {
				r := o.res
				good := r.op == "iface"
				if good {
					v := r.a[0]
					pt := r.typ
					x, _ := e.field(o.st, v, pt, "X")
					y, _ := e.field(o.st, v, pt, "Y")
					wx, _ := e.field(o.st, args[0], f.Params[0].Type(), "X")
					wy, _ := e.field(o.st, args[0], f.Params[0].Type(), "Y")
					good = x != nil && x == wx && y == wy && tstr(deref(pt)) == modPath+"/sm2.PublicKey"
				}
				c.oblige("Public is the key's public half", short(f), f.Pos(), good, "Public returns %s", r.str(6))
			}
		}
	}
}

func (c *Ctx) genKey(e *Engine, g *ssa.Function, args []*Term, outs []Outcome) {
	w := short(g)
	t := g.Signature.Results().At(0).Type()
	nok := 0
	for _, b := range splitBool(outs, errNil) {
		if !b.val {
			c.oblige("no key with an error", w, atPos(b.o), b.o.r(0) == tNil, "result %s", b.o.r(0).str(4))
			c.oblige("key generation fails only with the random source", w, atPos(b.o), readFailed(b.st), "an error on the path %s", pathFacts(b.st))
			continue
		}
		nok++
		X, Y, D := e.bigField(b.st, b.o.r(0), t, "X"), e.bigField(b.st, b.o.r(0), t, "Y"), e.bigField(b.st, b.o.r(0), t, "D")
		cv, _ := e.field(b.st, b.o.r(0), t, "Curve")
		p := func(curve *Term) *Term {
			return mk("ecmul", "", KVal, 0, curve, mk("ecbase", "", KVal, 0), D)
		}
		good := false
		snap := e.snap(b.st, cv)
		for _, cu := range []*Term{e.curveParams, snap, e.snap(b.st, e.curve)} {
			if X == ecX(p(cu)) && Y == ecY(p(cu)) {
				good = true
			}
		}
		c.oblige("public key = D*G", w, atPos(b.o), good, "D = %s, X = %s", D.str(6), X.str(6))
		c.oblige("generated keys are on the SM2 curve", w, atPos(b.o), snap == e.snap(b.st, e.curve), "curve %s", snap.str(4))
		// the scalar
		why := "the scalar is not drawn from the caller's source"
		if D.op == "os2ip" && D.a[0].op == "slice" {
			D = os2ip(e.seqOf(b.st, D.a[0]))
		}
		found := false
		for _, ev := range b.st.events() {
			if ev.kind == "genkey" && D.op == "os2ip" {
				src := e.seqOf(b.st, ev.res[0])
				if D.a[0] == src {
					found = ev.args[1] == args[0] && b.st.eval(mkIsNil(ev.res[len(ev.res)-1])) == tTrue
				}
			}
		}
		if !found {
			rd, y := c.nonce(e, b.st, D)
			found, why = y == "" && rd == args[0], y
		}
		c.oblige("private scalar from the caller's source, in [1,n-1]", w, atPos(b.o), found, "%s: D = %s", why, D.str(8))
	}
	c.oblige("key generation succeeds on some path", w, g.Pos(), nok > 0, "no successful path")
}

func (c *Ctx) keyEqual(e *Engine, name string) {
	fn := sigFn(c, "sm2", name, 2)
	if fn == nil {
		return
	}
	_, args, _, ok := c.analyse(e, fn)
	if !ok {
		return
	}
	w := short(fn)
	t := fn.Params[0].Type()
	// same dynamic type
	other := sym("other", t)
	st0, args, outs, ok := c.analyseWith(e, fn, func(st *State, a []*Term) []*Term {
		st.assume(bnot(mkIsNil(other)))
		return []*Term{a[0], mkT("iface", tstr(t), KVal, 0, t, other)}
	})
	if !ok {
		return
	}
	fields := []string{"X", "Y"}
	if name == "PrivateKey.Equal" {
		fields = append(fields, "D")
	}
	var conds []*Term
	for _, f := range fields {
		conds = append(conds, mkEqInt(e.bigField(st0, args[0], t, f), e.bigField(st0, other, t, f)))
	}
	ca, ct := e.field(st0, args[0], t, "Curve")
	cb, _ := e.field(st0, other, t, "Curve")
	cc := mkEq(ca, cb)
	_ = ct
	conds = append(conds, cc)
	fields = append(fields, "Curve")
	for _, b := range splitBool(outs, func(o Outcome) *Term { return o.r(0) }) {
		if b.val {
			for i, cd := range conds {
				c.oblige("equal keys agree on "+fields[i], w, atPos(b.o), holds(b.st, cd), "keys compare equal on the path %s", pathFacts(b.st))
			}
			continue
		}
		c.oblige("unequal keys differ", w, atPos(b.o), contradictory(b.st, conds...), "equal keys compare unequal on the path %s", pathFacts(b.st))
	}
	// another dynamic type
	bt := types.Typ[types.Int]
	_, _, outs, ok = c.analyseWith(e, fn, func(st *State, a []*Term) []*Term {
		return []*Term{a[0], mkT("iface", tstr(bt), KVal, 0, bt, tZero)}
	})
	if ok {
		for _, b := range splitBool(outs, func(o Outcome) *Term { return o.r(0) }) {
			c.oblige("a key of another type is not equal", w, atPos(b.o), !b.val, "a foreign value compares equal")
		}
	}
}

func checkSigDER(c *Ctx) {
	e := sm2Engine(c)
	if fn := sigFn(c, "sm2", "UnmarshalSign", 1); fn != nil {
		st, args, outs, ok := c.analyse(e, fn)
		if ok {
			conds, names, r, s := derSig(e.seqOf(st, args[0]))
			nok := 0
			for _, b := range splitBool(outs, errNil) {
				w := short(fn)
				if b.val {
					nok++
					for i, cd := range conds {
						c.oblige("parsed-implies "+names[i], w, atPos(b.o), holds(b.st, cd), "accepted without %q; path %s", names[i], pathFacts(b.st))
					}
					c.oblige("r and s in order", w, atPos(b.o), e.bigVal(b.st, b.o.r(0)) == r && e.bigVal(b.st, b.o.r(1)) == s, "the results are %s, %s", b.o.r(0).str(5), b.o.r(1).str(5))
					continue
				}
				c.oblige("refused-implies malformed", w, atPos(b.o), contradictory(b.st, conds...), "a strict DER signature is refused on %s", pathFacts(b.st))
				c.oblige("no values with an error", w, atPos(b.o), b.o.r(0) == tNil && b.o.r(1) == tNil, "values returned with an error")
			}
			c.oblige("parsing succeeds on some path", short(fn), fn.Pos(), nok > 0, "no successful path")
		}
	}
	if fn := sigFn(c, "sm2", "MarshalSign", 2); fn != nil {
		st, args, outs, ok := c.analyse(e, fn)
		if ok {
			want := derSigOf(e.bigVal(st, args[0]), e.bigVal(st, args[1]))
			for _, b := range splitBool(outs, errNil) {
				got := e.seqOf(b.st, b.o.r(0))
				if b.val {
					c.oblige("encoding is SEQUENCE{INTEGER r, INTEGER s}", short(fn), atPos(b.o), got == want, "the encoding is %s", got.str(8))
				}
			}
		}
	}
}

const engineRule = "abstract interpretation of the SSA over a normal-form term domain with linear integer facts; every return path of the entry point is compared with the standard's formula"

func init() {
	trust := []string{"math/big, crypto/elliptic (generic CurveParams arithmetic), cryptobyte, io.ReadFull and hash.Hash behave as documented", "golang.org/x/tools/go/ssa"}
	pre := []string{"key parameters are keys on the package's SM2 curve with coordinates below 2^256", "the SM3 implementation is the standard one (decided by the SM3 checks)"}
	addCheck(&Check{id: "C01", rule: engineRule, run: checkVerify, assume: pre, trusted: trust})
	addCheck(&Check{id: "C02", rule: engineRule, run: checkDigest, assume: pre, trusted: trust})
	addCheck(&Check{id: "C03", rule: engineRule, run: checkSign, assume: pre, trusted: trust})
	addCheck(&Check{id: "C04", rule: engineRule, run: checkEncrypt, assume: pre, trusted: trust})
	addCheck(&Check{id: "C05", rule: engineRule, run: checkDecrypt, assume: pre, trusted: trust})
	addCheck(&Check{id: "C06", rule: engineRule, run: checkCurve, assume: pre, trusted: trust})
	addCheck(&Check{id: "C07", rule: engineRule, run: checkSigDER, assume: pre, trusted: trust})
}
