package main

// Hash-consed value terms: the value numbering shared by every analysis.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Kind uint8

const (
	KVal Kind = iota
	KInt
	KBool
	KSeq
)

// Term is an immutable, hash-consed value. Equal ids mean equal values.
type Term struct {
	id  int
	op  string
	s   string
	n   *big.Int   // op "int"
	co  []*big.Int // op "poly" coefficients, op "anf" masks
	a   []*Term
	w   int // integer atoms: width in bits of an unsigned value, 0 for unbounded
	k   Kind
	typ types.Type
	fn  *ssa.Function
}

var termTab = map[string]*Term{}

func mk(op, s string, k Kind, w int, args ...*Term) *Term { return mkT(op, s, k, w, nil, args...) }

func mkT(op, s string, k Kind, w int, typ types.Type, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(strconv.Quote(s))
	b.WriteByte('|')
	b.WriteString(strconv.Itoa(int(k)))
	b.WriteByte('.')
	b.WriteString(strconv.Itoa(w))
	for _, x := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(x.id))
	}
	key := b.String()
	if t, ok := termTab[key]; ok {
		return t
	}
	t := &Term{id: len(termTab) + 1, op: op, s: s, k: k, w: w, a: append([]*Term(nil), args...), typ: typ}
	termTab[key] = t
	return t
}

func mkCo(op string, k Kind, w int, args []*Term, co []*big.Int) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('.')
	b.WriteString(strconv.Itoa(w))
	for i, x := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(x.id))
		b.WriteByte('*')
		b.WriteString(co[i].Text(16))
	}
	key := b.String()
	if t, ok := termTab[key]; ok {
		return t
	}
	t := &Term{id: len(termTab) + 1, op: op, k: k, w: w, a: append([]*Term(nil), args...), co: append([]*big.Int(nil), co...)}
	termTab[key] = t
	return t
}

func cbig(n *big.Int) *Term {
	key := "int:" + n.Text(16)
	if t, ok := termTab[key]; ok {
		return t
	}
	t := &Term{id: len(termTab) + 1, op: "int", n: new(big.Int).Set(n), k: KInt}
	termTab[key] = t
	return t
}
func ci(n int64) *Term { return cbig(big.NewInt(n)) }

var (
	tTrue  = mk("true", "", KBool, 0)
	tFalse = mk("false", "", KBool, 0)
	tNil   = mk("nil", "", KVal, 0)
	tZero  = ci(0)
	tOne   = ci(1)
	tEmpty = mk("bytes", "", KSeq, 0)
)

func cbool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func isConst(t *Term) bool { return t.op == "int" }

func constInt(t *Term) (int64, bool) {
	if t.op == "int" && t.n.IsInt64() {
		return t.n.Int64(), true
	}
	return 0, false
}

// ---------------------------------------------------------------- polynomials

type poly map[*Term]*big.Int // monomial (atom, "mul" of atoms, or tOne) -> coefficient

func toPoly(t *Term) poly {
	switch t.op {
	case "int":
		if t.n.Sign() == 0 {
			return poly{}
		}
		return poly{tOne: t.n}
	case "poly":
		p := poly{}
		for i, m := range t.a {
			p[m] = t.co[i]
		}
		return p
	}
	return poly{t: big.NewInt(1)}
}

func (p poly) add(m *Term, c *big.Int) {
	if c.Sign() == 0 {
		return
	}
	if o, ok := p[m]; ok {
		s := new(big.Int).Add(o, c)
		if s.Sign() == 0 {
			delete(p, m)
		} else {
			p[m] = s
		}
		return
	}
	p[m] = c
}

func polyAddScaled(p, q poly, c *big.Int) poly {
	r := poly{}
	for m, k := range p {
		r[m] = k
	}
	for m, k := range q {
		r.add(m, new(big.Int).Mul(k, c))
	}
	return r
}

func monoFactors(m *Term) []*Term {
	if m == tOne {
		return nil
	}
	if m.op == "mul" {
		return m.a
	}
	return []*Term{m}
}

func mkMono(fs []*Term) *Term {
	switch len(fs) {
	case 0:
		return tOne
	case 1:
		return fs[0]
	}
	fs = append([]*Term(nil), fs...)
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	return mk("mul", "", KInt, 0, fs...)
}

func polyMul(p, q poly) poly {
	r := poly{}
	for m1, c1 := range p {
		for m2, c2 := range q {
			fs := append(append([]*Term(nil), monoFactors(m1)...), monoFactors(m2)...)
			c := new(big.Int).Mul(c1, c2)
			mulMono(r, fs, c)
		}
	}
	return r
}

// mulMono adds c * product(fs) to r, rewriting inv(u,N)*u = 1 (mod N) where u = m + const.
func mulMono(r poly, fs []*Term, c *big.Int) {
	for i, f := range fs {
		if f.op != "inv" {
			continue
		}
		// f = inv(u, N): if some other factor x has u = x + k, then inv*x = 1 - k*inv (mod N)
		u := toPoly(f.a[0])
		for j, x := range fs {
			if i == j || x.op == "inv" {
				continue
			}
			if cx, ok := u[x]; ok && cx.Cmp(big.NewInt(1)) == 0 && (len(u) == 1 || (len(u) == 2 && u[tOne] != nil)) {
				k := u[tOne]
				rest := []*Term{}
				for l, y := range fs {
					if l != i && l != j {
						rest = append(rest, y)
					}
				}
				mulMono(r, rest, c)
				if k != nil {
					mulMono(r, append(append([]*Term(nil), rest...), f), new(big.Int).Neg(new(big.Int).Mul(c, k)))
				}
				return
			}
		}
	}
	r.add(mkMono(fs), c)
}

func fromPoly(p poly) *Term {
	// fdiv(x,2^k)*2^k*m  ->  m*(x - wrap(k,x))
	for m, c := range p {
		if m.op == "fdiv" && isPow2(m.a[1]) {
			d := m.a[1].n
			q, r := new(big.Int).QuoRem(c, d, new(big.Int))
			if r.Sign() == 0 {
				np := poly{}
				for m2, c2 := range p {
					if m2 != m {
						np[m2] = c2
					}
				}
				np = polyAddScaled(np, toPoly(m.a[0]), q)
				np = polyAddScaled(np, toPoly(mkWrap(d.BitLen()-1, m.a[0])), new(big.Int).Neg(q))
				return fromPoly(np)
			}
		}
	}
	if len(p) == 0 {
		return tZero
	}
	if len(p) == 1 {
		for m, c := range p {
			if m == tOne {
				return cbig(c)
			}
			if m.op != "mul" && c.IsInt64() && c.Int64() == 1 {
				return m
			}
		}
	}
	ms := make([]*Term, 0, len(p))
	for m := range p {
		ms = append(ms, m)
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i].id < ms[j].id })
	co := make([]*big.Int, len(ms))
	for i, m := range ms {
		co[i] = p[m]
	}
	return mkCo("poly", KInt, 0, ms, co)
}

var big1 = big.NewInt(1)

func iAdd(x, y *Term) *Term {
	p := polyAddScaled(toPoly(x), toPoly(y), big1)
	if n := len(p); n == 2 || n == 4 || n == 8 {
		if t := beSum(p); t != nil {
			return t
		}
	}
	return fromPoly(p)
}

// beSum recognises b[i]*256^(n-1) + ... + b[i+n-1].
func beSum(p poly) *Term {
	n := len(p)
	top := pow2(8 * (n - 1))
	for m, c := range p {
		if m.op != "sel" || c.Cmp(top) != 0 || isConst(m.a[0]) {
			continue
		}
		if _, hi, ok := rng(m); !ok || hi.BitLen() > 8 {
			return nil
		}
		for k := 1; k < n; k++ {
			if v, ok := p[seqSel(m.a[0], iAdd(m.a[1], ci(int64(k))))]; !ok || v.Cmp(pow2(8*(n-1-k))) != 0 {
				return nil
			}
		}
		return os2ip(seqSub(m.a[0], m.a[1], iAdd(m.a[1], ci(int64(n)))))
	}
	return nil
}
func iSub(x, y *Term) *Term { return fromPoly(polyAddScaled(toPoly(x), toPoly(y), big.NewInt(-1))) }
func iNeg(x *Term) *Term    { return iSub(tZero, x) }
func iMul(x, y *Term) *Term { return fromPoly(polyMul(toPoly(x), toPoly(y))) }
func iScale(x *Term, c int64) *Term {
	return iMul(x, ci(c))
}

func isPow2(t *Term) bool {
	return t.op == "int" && t.n.Sign() > 0 && new(big.Int).And(t.n, new(big.Int).Sub(t.n, big1)).Sign() == 0
}

func pow2(k int) *big.Int { return new(big.Int).Lsh(big1, uint(k)) }

// iFdiv is floor division by a positive constant.
func iFdiv(x, c *Term) *Term {
	if c.op != "int" || c.n.Sign() <= 0 {
		return mk("divs", "", KInt, 0, x, c)
	}
	if c == tOne {
		return x
	}
	if x.op == "int" {
		q := new(big.Int)
		q.DivMod(x.n, c.n, new(big.Int))
		return cbig(q)
	}
	// nested floor division
	if x.op == "fdiv" {
		return iFdiv(x.a[0], cbig(new(big.Int).Mul(x.a[1].n, c.n)))
	}
	if lo, hi, ok := rng(x); ok {
		ql, qh := new(big.Int), new(big.Int)
		ql.DivMod(lo, c.n, new(big.Int))
		qh.DivMod(hi, c.n, new(big.Int))
		if ql.Cmp(qh) == 0 {
			return cbig(ql)
		}
	}
	p := toPoly(x)
	// (y - y mod 2^k) / 2^k
	if isPow2(c) {
		k := c.n.BitLen() - 1
		for m, co := range p {
			if m.op == "wrap" && m.w == k && co.IsInt64() && co.Int64() == -1 {
				y := m.a[0]
				return iAdd(iFdiv(y, c), iFdiv(iAdd(iSub(x, y), m), c))
			}
		}
	}
	// pull out multiples of c
	out, in := poly{}, poly{}
	for m, k := range p {
		q, r := new(big.Int), new(big.Int)
		q.DivMod(k, c.n, r)
		out.add(m, q)
		in.add(m, r)
	}
	if len(in) == 0 {
		return fromPoly(out)
	}
	// common factor of the non-constant coefficients and c
	g := new(big.Int).Set(c.n)
	for m, k := range in {
		if m != tOne {
			g.GCD(nil, nil, g, k)
		}
	}
	cc := c.n
	if g.Cmp(big1) > 0 {
		np := poly{}
		for m, k := range in {
			np.add(m, new(big.Int).Div(k, g)) // floor for the constant term
		}
		in = np
		cc = new(big.Int).Div(c.n, g)
	}
	if cc.Cmp(big1) == 0 {
		return fromPoly(polyAddScaled(out, in, big1))
	}
	inT := fromPoly(in)
	if inT.op == "int" {
		return fromPoly(polyAddScaled(out, toPoly(iFdiv(inT, cbig(cc))), big1))
	}
	if lo, hi, ok := rng(inT); ok {
		ql, qh := new(big.Int), new(big.Int)
		ql.DivMod(lo, cc, new(big.Int))
		qh.DivMod(hi, cc, new(big.Int))
		if ql.Cmp(qh) == 0 {
			return fromPoly(polyAddScaled(out, toPoly(cbig(ql)), big1))
		}
	}
	var q *Term
	if inT.op == "fdiv" {
		q = iFdiv(inT.a[0], cbig(new(big.Int).Mul(inT.a[1].n, cc)))
	} else {
		q = mk("fdiv", "", KInt, 0, inT, cbig(cc))
	}
	return fromPoly(polyAddScaled(out, toPoly(q), big1))
}

// mkWrap is x mod 2^w as a value in [0,2^w).
func mkWrap(w int, x *Term) *Term {
	m := pow2(w)
	if x.op == "int" {
		return cbig(new(big.Int).Mod(x.n, m))
	}
	if lo, hi, ok := rng(x); ok && lo.Sign() >= 0 && hi.Cmp(m) < 0 {
		return x
	}
	p := poly{}
	expanded := false
	for mo, c := range toPoly(x) {
		if w >= 32 {
			c = new(big.Int).Mod(c, m)
		}
		if mo.op == "wrap" && mo.w >= w {
			p = polyAddScaled(p, toPoly(mo.a[0]), c)
			expanded = true
			continue
		}
		p.add(mo, c)
	}
	if expanded {
		return mkWrap(w, fromPoly(p))
	}
	if w >= 32 {
		np := poly{}
		for mo, c := range p {
			np.add(mo, new(big.Int).Mod(c, m))
		}
		p = np
	}
	if w < 32 {
		np := poly{}
		half := pow2(w - 1)
		for mo, c := range p {
			c = new(big.Int).Mod(c, m)
			if mo != tOne && c.Cmp(half) > 0 {
				c.Sub(c, m)
			}
			np.add(mo, c)
		}
		p = np
	}
	y := fromPoly(p)
	if y.op == "int" {
		return cbig(new(big.Int).Mod(y.n, m))
	}
	if lo, hi, ok := rng(y); ok && lo.Sign() >= 0 && hi.Cmp(m) < 0 {
		return y
	}
	return mk("wrap", "", KInt, w, y)
}

// rng is an interval for t that holds without any path facts.
func rng(t *Term) (lo, hi *big.Int, ok bool) {
	if len(t.a) == 0 {
		return rng0(t)
	}
	if r, hit := rngMemo[t]; hit {
		return r.lo, r.hi, r.ok
	}
	lo, hi, ok = rng0(t)
	rngMemo[t] = rngRes{lo, hi, ok}
	return lo, hi, ok
}

func rng0(t *Term) (lo, hi *big.Int, ok bool) {
	switch t.op {
	case "sel":
		if t.a[0].op == "str2runes" {
			return new(big.Int), big.NewInt(0x10ffff), true
		}
	}
	switch t.op {
	case "int":
		return t.n, t.n, true
	case "poly":
		lo, hi = new(big.Int), new(big.Int)
		for i, m := range t.a {
			l, h, o := rng(m)
			if !o {
				return nil, nil, false
			}
			c := t.co[i]
			a, b := new(big.Int).Mul(l, c), new(big.Int).Mul(h, c)
			if c.Sign() < 0 {
				a, b = b, a
			}
			lo.Add(lo, a)
			hi.Add(hi, b)
		}
		return lo, hi, true
	case "mul":
		lo, hi = big.NewInt(1), big.NewInt(1)
		for _, f := range t.a {
			l, h, o := rng(f)
			if !o || l.Sign() < 0 {
				return nil, nil, false
			}
			lo = new(big.Int).Mul(lo, l)
			hi = new(big.Int).Mul(hi, h)
		}
		return lo, hi, true
	case "fdiv":
		l, h, o := rng(t.a[0])
		if !o {
			return nil, nil, false
		}
		lo, hi = new(big.Int), new(big.Int)
		lo.DivMod(l, t.a[1].n, new(big.Int))
		hi.DivMod(h, t.a[1].n, new(big.Int))
		return lo, hi, true
	case "pow2":
		l, h, o := rng(t.a[0])
		if !o || l.Sign() < 0 || h.Cmp(big.NewInt(256)) > 0 {
			return nil, nil, false
		}
		return pow2(int(l.Int64())), pow2(int(h.Int64())), true
	case "sgn", "bcmp":
		return big.NewInt(-1), big1, true
	case "b2i":
		return big.NewInt(0), big1, true
	case "mod":
		if n := t.a[1]; n.op == "int" && n.n.Sign() > 0 {
			return big.NewInt(0), new(big.Int).Sub(n.n, big1), true
		}
		return nil, nil, false
	case "os2ip":
		if n, o := constInt(seqLen(t.a[0])); o && n >= 0 && n < 1<<16 {
			return big.NewInt(0), new(big.Int).Sub(pow2(int(8*n)), big1), true
		}
		return nil, nil, false
	case "anf":
		return big.NewInt(0), new(big.Int).Sub(pow2(knownMask(t).BitLen()), big1), true
	case "len":
		lo := int64(0)
		switch t.a[0].op {
		case "tlv", "derint", "deroid", "derbool":
			lo = 2 // an identifier and a length
		}
		return big.NewInt(lo), new(big.Int).Sub(pow2(62), big1), true
	}
	if t.w > 0 {
		return big.NewInt(0), new(big.Int).Sub(pow2(t.w), big1), true
	}
	return nil, nil, false
}

// ---------------------------------------------------------------- bitwise (ANF)

func allOnes(w int) *big.Int { return new(big.Int).Sub(pow2(w), big1) }

// knownMask is a superset of the bits that may be one.
func knownMask(t *Term) *big.Int {
	if m, ok := maskMemo[t]; ok {
		return m
	}
	m := knownMask0(t)
	maskMemo[t] = m
	return m
}

var maskMemo = map[*Term]*big.Int{}

type opKey struct {
	op   string
	x, y *Term
	w    int
}

var opMemo = map[opKey]*Term{}

func memo2(op string, x, y *Term, w int, f func(x, y *Term, w int) *Term) *Term {
	k := opKey{op, x, y, w}
	if r, ok := opMemo[k]; ok {
		return r
	}
	r := f(x, y, w)
	opMemo[k] = r
	return r
}

type rngRes struct {
	lo, hi *big.Int
	ok     bool
}

var rngMemo = map[*Term]rngRes{}

func knownMask0(t *Term) *big.Int {
	switch t.op {
	case "int":
		return t.n
	case "anf":
		m := new(big.Int)
		for i, x := range t.a {
			mm := t.co[i]
			for _, f := range bandFactors(x) {
				mm = new(big.Int).And(mm, knownMask(f))
			}
			m.Or(m, mm)
		}
		return m
	case "wrap":
		return new(big.Int).And(shiftedMask(t.a[0], t.w), allOnes(t.w))
	case "poly", "fdiv":
		if _, hi, ok := rng(t); ok && hi.Sign() >= 0 {
			return shiftedMask(t, hi.BitLen())
		}
		return allOnes(64)
	}
	if _, hi, ok := rng(t); ok && hi.Sign() >= 0 {
		return allOnes(hi.BitLen())
	}
	return allOnes(64)
}

// shiftedMask bounds the bits of t below w, using the power of two dividing every coefficient.
func shiftedMask(t *Term, w int) *big.Int {
	z := -1
	for m, c := range toPoly(t) {
		k := int(c.TrailingZeroBits())
		_ = m
		if z < 0 || k < z {
			z = k
		}
	}
	if z <= 0 {
		return allOnes(w)
	}
	if z >= w {
		return new(big.Int)
	}
	return new(big.Int).AndNot(allOnes(w), allOnes(z))
}

type anf map[*Term]*big.Int

func bandFactors(m *Term) []*Term {
	if m == tOne {
		return nil
	}
	if m.op == "band" {
		return m.a
	}
	return []*Term{m}
}

func toANF(t *Term, w int) anf {
	switch t.op {
	case "int":
		c := new(big.Int).And(t.n, allOnes(w))
		if t.n.Sign() < 0 {
			c = new(big.Int).Mod(t.n, pow2(w))
		}
		if c.Sign() == 0 {
			return anf{}
		}
		return anf{tOne: c}
	case "anf":
		r := anf{}
		for i, m := range t.a {
			r.add(m, t.co[i])
		}
		return r
	case "band":
		return anf{t: new(big.Int).And(allOnes(w), knownMask(t))}
	}
	if t.op == "poly" && len(t.a) == 2 {
		r, all := anf{}, new(big.Int)
		for i, m := range t.a {
			x := iMul(m, cbig(t.co[i]))
			k := knownMask(x)
			if t.co[i].Sign() < 0 || !byteLike(x) || new(big.Int).And(all, k).Sign() != 0 {
				r = nil
				break
			}
			all.Or(all, k)
			if k = new(big.Int).And(k, allOnes(w)); k.Sign() != 0 {
				if m == tOne {
					x = tOne
				}
				r[x] = k
			}
		}
		if r != nil {
			return r
		}
	}
	c := new(big.Int).And(allOnes(w), knownMask(t))
	if c.Sign() == 0 {
		return anf{}
	}
	return anf{t: c}
}

// byteLike: a byte of a sequence, possibly moved up by whole bytes.
func byteLike(m *Term) bool {
	if m.op == "poly" && len(m.a) == 1 {
		c := m.co[0]
		if c.Sign() <= 0 || c.BitLen()%8 != 1 || new(big.Int).And(c, new(big.Int).Sub(c, big1)).Sign() != 0 {
			return false
		}
		m = m.a[0]
	}
	return m.op == "int" || (m.op == "sel" || m.op == "sym") && m.k == KInt && knownMask(m).BitLen() <= 8
}

func (p anf) add(m *Term, c *big.Int) {
	for _, f := range bandFactors(m) {
		c = new(big.Int).And(c, knownMask(f))
	}
	if o, ok := p[m]; ok {
		c = new(big.Int).Xor(o, c)
	}
	if c.Sign() == 0 {
		delete(p, m)
	} else {
		p[m] = c
	}
}

func anfXor(p, q anf) anf {
	r := anf{}
	for m, c := range p {
		r[m] = c
	}
	for m, c := range q {
		r.add(m, c)
	}
	return r
}

func anfAnd(p, q anf) anf {
	r := anf{}
	for m1, c1 := range p {
		for m2, c2 := range q {
			c := new(big.Int).And(c1, c2)
			if c.Sign() == 0 {
				continue
			}
			set := map[*Term]bool{}
			for _, f := range bandFactors(m1) {
				set[f] = true
			}
			for _, f := range bandFactors(m2) {
				set[f] = true
			}
			fs := []*Term{}
			for f := range set {
				fs = append(fs, f)
			}
			sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
			var m *Term
			switch len(fs) {
			case 0:
				m = tOne
			case 1:
				m = fs[0]
			default:
				m = mk("band", "", KInt, 0, fs...)
			}
			r.add(m, c)
		}
	}
	return r
}

func fromANF(p anf, w int) *Term {
	p = anfPatterns(p, w)
	if len(p) == 0 {
		return tZero
	}
	if len(p) == 1 {
		for m, c := range p {
			if m == tOne {
				return cbig(c)
			}
			if m.op != "band" && c.Cmp(new(big.Int).And(allOnes(w), knownMask(m))) == 0 && knownMask(m).BitLen() <= w {
				return m
			}
			// plain low mask of an atom: x mod 2^k
			if m.op != "band" && new(big.Int).And(c, new(big.Int).Add(c, big1)).Sign() == 0 {
				return mkWrap(c.BitLen(), m)
			}
		}
	}
	if len(p) == 2 {
		// two values on disjoint bits: their sum
		var sum, all = tZero, new(big.Int)
		for m, c := range p {
			k := knownMask(m)
			if m == tOne {
				m, k = cbig(c), c
			}
			if m.op == "band" || c.Cmp(k) != 0 || k.BitLen() > w || new(big.Int).And(all, k).Sign() != 0 || !byteLike(m) {
				sum = nil
				break
			}
			all.Or(all, k)
			sum = iAdd(sum, m)
		}
		if sum != nil {
			return sum
		}
	}
	ms := make([]*Term, 0, len(p))
	for m := range p {
		ms = append(ms, m)
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i].id < ms[j].id })
	co := make([]*big.Int, len(ms))
	for i, m := range ms {
		co[i] = p[m]
	}
	return mkCo("anf", KInt, 0, ms, co)
}

// anfPatterns recognises rotations and big-endian loads.
func anfPatterns(p anf, w int) anf {
	if len(p) < 2 {
		return p
	}
	for again := true; again; {
		again = false
		for m, c := range p {
			if m.op != "fdiv" || !isPow2(m.a[1]) {
				continue
			}
			sh := m.a[1].n.BitLen() - 1
			if sh <= 0 || sh >= w {
				continue
			}
			x := m.a[0]
			if c.Cmp(knownMask(m)) != 0 {
				continue
			}
			other := mkWrap(w, iMul(x, cbig(pow2(w-sh))))
			oc, ok := p[other]
			if !ok || oc.Cmp(new(big.Int).And(knownMask(other), allOnes(w))) != 0 {
				continue
			}
			q := anf{}
			for m2, c2 := range p {
				if m2 != m && m2 != other {
					q[m2] = c2
				}
			}
			p = anfXor(q, toANF(mkRot(x, w-sh, w), w))
			again = true
			break
		}
	}
	// big-endian loads of 2, 4 or 8 bytes
	for _, nb := range []int{8, 4, 2} {
		if nb*8 > w || nb == 2 && len(p) != 2 {
			continue
		}
	again:
		for m := range p {
			top := pow2(8 * (nb - 1))
			b, ok := scaledSel(m, top)
			if !ok {
				continue
			}
			base, idx := b.a[0], b.a[1]
			ms := []*Term{m}
			good := true
			for k := 1; k < nb; k++ {
				e := seqSel(base, iAdd(idx, ci(int64(k))))
				e = iMul(e, cbig(pow2(8*(nb-1-k))))
				if c, ok := p[e]; !ok || c.Cmp(knownMask(e)) != 0 {
					good = false
					break
				}
				ms = append(ms, e)
			}
			if !good {
				continue
			}
			q := anf{}
			for m2, c2 := range p {
				q[m2] = c2
			}
			for _, x := range ms {
				delete(q, x)
			}
			p = anfXor(q, toANF(os2ip(seqSub(base, idx, iAdd(idx, ci(int64(nb))))), w))
			goto again
		}
	}
	return p
}

// scaledSel reports whether m is top*sel(base,idx).
func scaledSel(m *Term, top *big.Int) (*Term, bool) {
	if m.op == "poly" && len(m.a) == 1 && m.co[0].Cmp(top) == 0 && m.a[0].op == "sel" {
		return m.a[0], true
	}
	return nil, false
}

func mkRot(x *Term, n, w int) *Term {
	return memo2("rot", x, ci(int64(n)), w, func(x, _ *Term, w int) *Term { return mkRot0(x, n, w) })
}

func mkRot0(x *Term, n, w int) *Term {
	n = ((n % w) + w) % w
	if n == 0 {
		return x
	}
	switch x.op {
	case "int":
		c := new(big.Int).And(x.n, allOnes(w))
		l := new(big.Int).And(new(big.Int).Lsh(c, uint(n)), allOnes(w))
		return cbig(l.Or(l, new(big.Int).Rsh(c, uint(w-n))))
	case "rot":
		if x.w == w {
			k, _ := constInt(x.a[1])
			return mkRot(x.a[0], n+int(k), w)
		}
	case "anf":
		r := anf{}
		for i, m := range x.a {
			c := mkRot(cbig(x.co[i]), n, w).n
			cur := anf{tOne: c}
			for _, f := range bandFactors(m) {
				cur = anfAnd(cur, toANF(mkRot(f, n, w), w))
			}
			r = anfXor(r, cur)
		}
		return fromANF(r, w)
	}
	return mk("rot", "", KInt, w, x, ci(int64(n)))
}

func lowMask(c *big.Int) (int, bool) { // c = 2^k-1
	if c.Sign() > 0 && new(big.Int).And(c, new(big.Int).Add(c, big1)).Sign() == 0 {
		return c.BitLen(), true
	}
	return 0, false
}

func bAnd(x, y *Term, w int) *Term {
	return memo2("bAnd", x, y, w, bAnd0)
}

func bAnd0(x, y *Term, w int) *Term {
	if w == 0 {
		w = 64
	}
	if x.op == "int" {
		x, y = y, x
	}
	if y.op == "int" {
		if x.op == "int" {
			return cbig(new(big.Int).And(x.n, y.n))
		}
		if k, ok := lowMask(y.n); ok {
			return mkWrap(k, x)
		}
		if y.n.Sign() == 0 {
			return tZero
		}
	}
	return fromANF(anfAnd(toANF(x, w), toANF(y, w)), w)
}
func bXor(x, y *Term, w int) *Term {
	return memo2("bXor", x, y, w, bXor0)
}

func bXor0(x, y *Term, w int) *Term {
	if w == 0 {
		w = 64
	}
	return fromANF(anfXor(toANF(x, w), toANF(y, w)), w)
}
func bOr(x, y *Term, w int) *Term {
	return memo2("bOr", x, y, w, bOr0)
}

func bOr0(x, y *Term, w int) *Term {
	if w == 0 {
		w = 64
	}
	p, q := toANF(x, w), toANF(y, w)
	return fromANF(anfXor(anfXor(p, q), anfAnd(p, q)), w)
}
func bNot(x *Term, w int) *Term {
	if w == 0 {
		return iSub(ci(-1), x)
	}
	return bXor(x, cbig(allOnes(w)), w)
}
func bAndNot(x, y *Term, w int) *Term {
	if y.op == "int" {
		if k, ok := lowMask(y.n); ok {
			return iSub(x, mkWrap(k, x))
		}
	}
	ww := w
	if ww == 0 {
		ww = 64
	}
	return bAnd(x, fromANF(anfXor(toANF(y, ww), anf{tOne: allOnes(ww)}), ww), w)
}

// ---------------------------------------------------------------- big integer ops

// iMod is Euclidean x mod N for an arbitrary modulus term.
func iMod(x, n *Term) *Term {
	if x.op == "int" && n.op == "int" && n.n.Sign() > 0 {
		return cbig(new(big.Int).Mod(x.n, n.n))
	}
	if x.op == "mod" && x.a[1] == n {
		return x
	}
	// flatten nested reductions by the same modulus and reduce multiples of N
	p := poly{}
	for m, c := range toPoly(x) {
		fs := monoFactors(m)
		cur := poly{tOne: c}
		drop := false
		for _, f := range fs {
			if f == n {
				drop = true
				break
			}
			if f.op == "mod" && f.a[1] == n {
				cur = polyMul(cur, toPoly(f.a[0]))
			} else {
				cur = polyMul(cur, poly{f: big1})
			}
		}
		if drop {
			continue
		}
		p = polyAddScaled(p, cur, big1)
	}
	if n.op == "int" && n.n.Sign() > 0 {
		r := poly{}
		for m, c := range p {
			r.add(m, new(big.Int).Mod(c, n.n))
		}
		p = r
	}
	y := fromPoly(p)
	if y != x {
		return iMod(y, n)
	}
	if n.op == "int" {
		if lo, hi, ok := rng(y); ok && lo.Sign() >= 0 && hi.Cmp(n.n) < 0 {
			return y
		}
	}
	if y == tZero {
		return tZero
	}
	return mk("mod", "", KInt, 0, y, n)
}

func iInv(x, n *Term) *Term {
	if x.op == "mod" && x.a[1] == n {
		x = x.a[0]
	}
	return mk("inv", "", KInt, 0, x, n)
}

func iSgn(x *Term) *Term {
	if x.op == "int" {
		return ci(int64(x.n.Sign()))
	}
	return mk("sgn", "", KInt, 0, x)
}

// ---------------------------------------------------------------- booleans

func bnot(c *Term) *Term {
	switch c.op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return c.a[0]
	case "ge0":
		return mkGe0(iSub(ci(-1), c.a[0]))
	}
	return mk("not", "", KBool, 0, c)
}

// mkAnd is the conjunction of cs.
func mkAnd(cs ...*Term) *Term {
	var el []*Term
	for _, c := range cs {
		switch {
		case c == tTrue:
		case c == tFalse:
			return tFalse
		case c.op == "and":
			el = append(el, c.a...)
		default:
			el = append(el, c)
		}
	}
	switch len(el) {
	case 0:
		return tTrue
	case 1:
		return el[0]
	}
	return mk("and", "", KBool, 0, el...)
}

func mkGe0(p *Term) *Term {
	if p.op == "int" {
		return cbool(p.n.Sign() >= 0)
	}
	if lo, hi, ok := rng(p); ok {
		if lo.Sign() >= 0 {
			return tTrue
		}
		if hi.Sign() < 0 {
			return tFalse
		}
	}
	// sign-valued atoms
	if a, c, k, ok := singleAtom(p); ok && (a.op == "sgn" || a.op == "bcmp" || a.op == "b2i") {
		// c*a + k >= 0
		res := map[int64]bool{}
		for _, v := range []int64{-1, 0, 1} {
			s := new(big.Int).Mul(c, big.NewInt(v))
			s.Add(s, k)
			res[v] = s.Sign() >= 0
		}
		switch a.op {
		case "sgn":
			return signCond(a.a[0], res[-1], res[0], res[1])
		case "b2i":
			switch {
			case res[0] && res[1]:
				return tTrue
			case res[0]:
				return bnot(a.a[0])
			case res[1]:
				return a.a[0]
			}
			return tFalse
		}
	}
	// gcd normalisation
	g := new(big.Int)
	q := toPoly(p)
	for m, c := range q {
		if m != tOne {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
	}
	if g.Cmp(big1) > 0 {
		r := poly{}
		for m, c := range q {
			d := new(big.Int)
			d.Div(c, g) // Euclidean; g>0 so floor
			r.add(m, d)
		}
		p = fromPoly(r)
	}
	return mk("ge0", "", KBool, 0, p)
}

func signCond(x *Term, neg, zero, pos bool) *Term {
	switch {
	case neg && zero && pos:
		return tTrue
	case !neg && !zero && !pos:
		return tFalse
	case !neg && zero && pos:
		return mkGe0(x)
	case !neg && !zero && pos:
		return mkGe0(iSub(x, tOne))
	case neg && zero && !pos:
		return mkGe0(iNeg(x))
	case neg && !zero && !pos:
		return mkGe0(iSub(ci(-1), x))
	case !neg && zero && !pos:
		return mkEq0(x)
	}
	return bnot(mkEq0(x))
}

func singleAtom(p *Term) (a *Term, c, k *big.Int, ok bool) {
	k = new(big.Int)
	for m, co := range toPoly(p) {
		if m == tOne {
			k = co
			continue
		}
		if a != nil || m.op == "mul" {
			return nil, nil, nil, false
		}
		a, c = m, co
	}
	return a, c, k, a != nil
}

func mkEq0(p *Term) *Term {
	if p.op == "int" {
		return cbool(p.n.Sign() == 0)
	}
	if lo, hi, ok := rng(p); ok && (lo.Sign() > 0 || hi.Sign() < 0) {
		return tFalse
	}
	switch p.op {
	case "bitlen":
		return mkEq0(p.a[0])
	case "orfold":
		return mkForall(p.a[0], mkEq0(p.a[1]), p.a[2])
	case "anf":
		// x xor y = 0
		if len(p.a) == 2 {
			full := true
			for i, m := range p.a {
				if m != tOne && (m.op == "band" || p.co[i].Cmp(knownMask(m)) != 0) {
					full = false
				}
			}
			if full {
				v := func(i int) *Term {
					if p.a[i] == tOne {
						return cbig(p.co[i])
					}
					return p.a[i]
				}
				return mkEqInt(v(0), v(1))
			}
		}
	}
	if a, c, k, ok := singleAtom(p); ok {
		if a.op == "sgn" || a.op == "bcmp" || a.op == "b2i" {
			hit := func(v int64) bool {
				s := new(big.Int).Mul(c, big.NewInt(v))
				return s.Add(s, k).Sign() == 0
			}
			switch a.op {
			case "sgn":
				return signCond(a.a[0], hit(-1), hit(0), hit(1))
			case "bcmp":
				if hit(0) {
					return mkEqSeq(a.a[0], a.a[1])
				}
			case "b2i":
				switch {
				case hit(0):
					return bnot(a.a[0])
				case hit(1):
					return a.a[0]
				}
				return tFalse
			}
		}
		// c*a + k = 0 with no integer solution
		q, r := new(big.Int).QuoRem(new(big.Int).Neg(k), c, new(big.Int))
		if r.Sign() != 0 {
			return tFalse
		}
		if a.op == "anf" && len(a.a) == 1 && a.a[0] != tOne && a.co[0].Sign() > 0 && a.co[0].BitLen() < 63 && q.Sign() != 0 {
			// x masked by co[0]
			if q.Sign() < 0 || new(big.Int).AndNot(q, a.co[0]).Sign() != 0 {
				return tFalse
			}
			if a.co[0].TrailingZeroBits() == uint(a.co[0].BitLen()-1) {
				return bnot(mkEq0(a))
			}
		}
		p = iSub(a, cbig(q))
	}
	q := toPoly(p)
	g := new(big.Int)
	for _, c := range q {
		g.GCD(nil, nil, g, new(big.Int).Abs(c))
	}
	lead := p.co
	neg := false
	if len(lead) > 0 {
		// sign of the first non-constant monomial
		for i, m := range p.a {
			if m != tOne {
				neg = lead[i].Sign() < 0
				break
			}
		}
	}
	if p.op == "poly" && (neg || g.Cmp(big1) > 0) {
		r := poly{}
		if g.Sign() == 0 {
			g = big.NewInt(1)
		}
		for m, c := range q {
			d := new(big.Int).Quo(c, g)
			if neg {
				d.Neg(d)
			}
			r.add(m, d)
		}
		p = fromPoly(r)
	}
	return mk("eq0", "", KBool, 0, p)
}

func mkEqInt(x, y *Term) *Term { return mkEq0(iSub(x, y)) }

// iteInt etc. are not used: joins are kept as separate states.

func mkEqSeq(x, y *Term) *Term {
	if x == y {
		return tTrue
	}
	if x.op == "bytes" && y.op == "bytes" {
		return tFalse
	}
	lx, ly := seqLen(x), seqLen(y)
	if d := iSub(lx, ly); d.op == "int" && d.n.Sign() != 0 {
		return tFalse
	}
	if x.op == "list" && y.op == "list" && len(x.a) == len(y.a) {
		for i := range x.a {
			if x.a[i].k == KInt && y.a[i].k == KInt && mkEqInt(x.a[i], y.a[i]) == tFalse {
				return tFalse
			}
		}
	}
	if x == tEmpty {
		return mkEq0(ly)
	}
	if y == tEmpty {
		return mkEq0(lx)
	}
	// comparison with zeros
	if z, o := zeroSeq(x); z {
		_ = o
		return mk("allzero", "", KBool, 0, y)
	}
	if z, _ := zeroSeq(y); z {
		return mk("allzero", "", KBool, 0, x)
	}
	// fixed-width encodings of integers of the same width
	if x.op == "be" && y.op == "be" && x.a[0] == y.a[0] {
		return mkEqInt(mod256(x), mod256(y))
	}
	if x.op == "minbe" && y.op == "minbe" {
		return mkEqInt(x.a[0], y.a[0])
	}
	if x.id > y.id {
		x, y = y, x
	}
	return mk("eq", "seq", KBool, 0, x, y)
}

func mod256(be *Term) *Term {
	n, _ := constInt(be.a[0])
	if lo, hi, ok := rng(be.a[1]); ok && lo.Sign() >= 0 && hi.BitLen() <= int(8*n) {
		return be.a[1]
	}
	return be.a[1]
}

func zeroSeq(t *Term) (bool, *Term) {
	if t.op == "fill" && t.a[0] == tZero {
		return true, t.a[1]
	}
	if t.op == "bytes" && len(t.s) > 0 && strings.Trim(t.s, "\x00") == "" {
		return true, ci(int64(len(t.s)))
	}
	return false, nil
}

// mkEq compares two values of any kind.
func mkEq(x, y *Term) *Term {
	if x == y {
		return tTrue
	}
	if x.k == KInt && y.k == KInt {
		return mkEqInt(x, y)
	}
	if x.k == KSeq && y.k == KSeq {
		return mkEqSeq(x, y)
	}
	if x.k == KBool && y.k == KBool {
		switch {
		case x == tTrue:
			return y
		case y == tTrue:
			return x
		case x == tFalse:
			return bnot(y)
		case y == tFalse:
			return bnot(x)
		case x == bnot(y):
			return tFalse
		}
	}
	if y == tNil {
		return mkIsNil(x)
	}
	if x == tNil {
		return mkIsNil(y)
	}
	if x.op == "iface" && y.op == "iface" {
		if x.s != y.s {
			return tFalse
		}
		return mkEq(x.a[0], y.a[0])
	}
	if x.op == "ptr" && y.op == "ptr" && isFresh(x) && isFresh(y) {
		return tFalse
	}
	if libCurve(x) && (libCurve(y) || y.op == "iface" && strings.Contains(y.s, "/mcrypto/")) || libCurve(y) && x.op == "iface" && strings.Contains(x.s, "/mcrypto/") {
		return tFalse
	}
	if x.op == "struct" && y.op == "struct" && len(x.a) == len(y.a) {
		all := true
		for i := range x.a {
			e := mkEq(x.a[i], y.a[i])
			if e == tFalse {
				return tFalse
			}
			if e != tTrue {
				all = false
			}
		}
		if all {
			return tTrue
		}
	}
	if x.id > y.id {
		x, y = y, x
	}
	return mk("eq", "", KBool, 0, x, y)
}

// libCurve: the term is one of the NIST curves of crypto/elliptic, which are different objects of the library's types.
func libCurve(t *Term) bool {
	return t.op == "app" && len(t.a) == 0 && strings.HasPrefix(t.s, "crypto/elliptic.P")
}

// hasCurveParams: the parameters of the library's curves, and the numbers among them, are there.
func hasCurveParams(t *Term) bool {
	if t.op == "fld" && (t.s == "N" || t.s == "P" || t.s == "B" || t.s == "Gx" || t.s == "Gy") && t.a[0].op == "deref" {
		t = t.a[0].a[0]
		if t.op == "ptr" {
			t = t.a[0].a[0]
		}
	}
	return t.op == "app" && t.s == "ec.params" && libCurve(t.a[0])
}

func isFresh(p *Term) bool { return len(p.a) > 0 && p.a[0].op == "obj" && p.a[0].a[0].op == "alloc" }

func mkIsNil(x *Term) *Term {
	if libCurve(x) || hasCurveParams(x) {
		return tFalse
	}
	switch x.op {
	case "nil":
		return tTrue
	case "ptr":
		if len(x.a) > 1 {
			return tFalse
		}
		b := x.a[0].a[0]
		if b.op == "alloc" || b.op == "global" || hasCurveParams(b) {
			return tFalse
		}
		return mk("isnil", "", KBool, 0, b)
	case "slice":
		if len(x.a[0].a) > 1 {
			return tFalse
		}
		b := x.a[0].a[0].a[0]
		if b.op == "alloc" || b.op == "global" {
			return tFalse
		}
		return mk("isnil", "", KBool, 0, b)
	case "iface", "fn", "hashobj", "blockobj", "cbcobj":
		return tFalse
	case "errnew":
		return tFalse
	}
	return mk("isnil", "", KBool, 0, x)
}

// ---------------------------------------------------------------- sequences

func cbytes(s string) *Term {
	if s == "" {
		return tEmpty
	}
	return mk("bytes", s, KSeq, 0)
}

func seqLen(t *Term) *Term {
	switch t.op {
	case "bytes":
		return ci(int64(len(t.s)))
	case "list":
		return ci(int64(len(t.a)))
	case "cat":
		r := tZero
		for _, x := range t.a {
			r = iAdd(r, seqLen(x))
		}
		return r
	case "sub":
		return iSub(t.a[2], t.a[1])
	case "fill":
		return t.a[1]
	case "be":
		return t.a[0]
	case "hash":
		if n := hashSize(t.s); n > 0 {
			return ci(int64(n))
		}
	case "xor":
		return seqLen(t.a[0])
	case "upd", "pw":
		return seqLen(t.a[0])
	case "iter":
		if b, i := seqLen(t.a[1]), seqLen(t.a[3]); b == i && b.op == "int" {
			return b
		}
	case "blkmap":
		return seqLen(t.a[0])
	case "cyc":
		return t.a[1]
	case "rep":
		l := seqLen(t.a[1])
		if !hasTerm(l, t.a[0]) {
			return iMul(l, t.a[2])
		}
	case "map": // map(bvar, elem, count)
		return t.a[2]
	case "fixed": // opaque value of known length: args[0] is the length
		return t.a[0]
	}
	return mk("len", "", KInt, 0, t)
}

func hashSize(alg string) int {
	switch alg {
	case "sm3", "sha256", "sha512/256", "sha3-256":
		return 32
	case "sha1", "ripemd160":
		return 20
	case "sha224", "sha512/224", "sha3-224":
		return 28
	case "sha384", "sha3-384":
		return 48
	case "sha512", "sha3-512":
		return 64
	case "md5":
		return 16
	}
	return 0
}

var hasCache = map[[2]int]bool{}

func hasTerm(t, x *Term) bool {
	if t == x {
		return true
	}
	if t.id < x.id {
		return false // subterms are created before their parents
	}
	key := [2]int{t.id, x.id}
	if r, ok := hasCache[key]; ok {
		return r
	}
	r := false
	for _, y := range t.a {
		if hasTerm(y, x) {
			r = true
			break
		}
	}
	hasCache[key] = r
	return r
}

func seqElemByte(t *Term) bool {
	switch t.op {
	case "bytes", "be", "minbe", "hash", "xor":
		return true
	case "list":
		return t.s == "b"
	case "cat", "sub", "upd", "pw", "cyc", "blkmap":
		return seqElemByte(t.a[0])
	case "rep":
		return seqElemByte(t.a[1])
	case "fill":
		if t.a[0].k == KVal {
			return false
		}
	}
	if t.typ != nil {
		if b, ok := t.typ.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return true
		}
		return false
	}
	return true
}

func seqElemType(t *Term) types.Type {
	if t.typ != nil {
		return t.typ
	}
	switch t.op {
	case "cat":
		for _, x := range t.a {
			if e := seqElemType(x); e != nil {
				return e
			}
		}
	case "sub", "upd", "pw":
		return seqElemType(t.a[0])
	}
	return nil
}

// mkList builds a sequence from explicit elements.
func mkList(el []*Term, isByte bool) *Term {
	if len(el) == 0 {
		return tEmpty
	}
	if !isByte {
		return mk("list", "", KSeq, 0, el...)
	}
	// split into constant runs, big-endian runs and element runs
	var parts []*Term
	i := 0
	var pend []*Term
	flush := func() {
		if len(pend) > 0 {
			parts = append(parts, mk("list", "b", KSeq, 0, pend...))
			pend = nil
		}
	}
	for i < len(el) {
		if c, ok := constInt(el[i]); ok {
			var b []byte
			for i < len(el) {
				c, ok = constInt(el[i])
				if !ok {
					break
				}
				b = append(b, byte(c))
				i++
			}
			flush()
			parts = append(parts, cbytes(string(b)))
			continue
		}
		if n, x := beRun(el[i:]); n >= 2 {
			flush()
			parts = append(parts, mkBE(int64(n), x))
			i += n
			continue
		}
		// consecutive selections from one base form a slice of it
		if el[i].op == "sel" && el[i].a[0].k == KSeq {
			b, ix := el[i].a[0], el[i].a[1]
			j := i + 1
			for j < len(el) && el[j].op == "sel" && el[j].a[0] == b && el[j].a[1] == iAdd(ix, ci(int64(j-i))) {
				j++
			}
			flush()
			parts = append(parts, mkSub0(b, ix, iAdd(ix, ci(int64(j-i)))))
			i = j
			continue
		}
		pend = append(pend, el[i])
		i++
	}
	flush()
	if len(parts) == 1 {
		return parts[0]
	}
	return mk("cat", "", KSeq, 0, parts...)
}

// beRun finds the longest prefix of el that is the big-endian encoding of one value.
func beRun(el []*Term) (int, *Term) {
	max := len(el)
	if max > 8 {
		max = 8
	}
	for n := max; n >= 2; n-- {
		last := el[n-1]
		cands := []*Term{}
		if last.op == "wrap" && last.w == 8 {
			cands = append(cands, last.a[0])
		} else {
			cands = append(cands, last)
		}
		for _, x := range cands {
			ok := true
			for i := 0; i < n; i++ {
				if !isByteOf(el[i], x, n-1-i) {
					ok = false
					break
				}
			}
			if ok && (x.op != "int") {
				return n, x
			}
		}
	}
	return 0, nil
}

type byteOfKey struct {
	b, x *Term
	k    int
}

var byteOfTab = map[byteOfKey]bool{}

func isByteOf(b, x *Term, k int) bool {
	key := byteOfKey{b, x, k}
	if r, ok := byteOfTab[key]; ok {
		return r
	}
	r := isByteOf1(b, x, k)
	byteOfTab[key] = r
	return r
}

func isByteOf1(b, x *Term, k int) bool {
	d := iFdiv(x, cbig(pow2(8*k)))
	return b == d || b == mkWrap(8, d) || (b.op == "wrap" && b.w == 8 && b.a[0] == d)
}

func mkFill(v, n *Term) *Term {
	if v.op == "int" {
		if c, ok := constInt(n); ok && c >= 0 && c <= 8192 && v.n.IsInt64() && v.n.Int64() >= 0 && v.n.Int64() < 256 {
			if c == 0 {
				return tEmpty
			}
			return cbytes(strings.Repeat(string([]byte{byte(v.n.Int64())}), int(c)))
		}
	}
	if n == tZero {
		return tEmpty
	}
	return mk("fill", "", KSeq, 0, v, n)
}

func mkBE(n int64, x *Term) *Term {
	if x.op == "int" && x.n.Sign() >= 0 && x.n.BitLen() <= int(8*n) {
		buf := make([]byte, n)
		x.n.FillBytes(buf)
		return cbytes(string(buf))
	}
	if x.op == "os2ip" {
		if l, ok := constInt(seqLen(x.a[0])); ok && l == n {
			return x.a[0]
		}
	}
	if x.op == "wrap" && int64(x.w) >= 8*n {
		x = x.a[0]
	}
	return mk("be", "", KSeq, 0, ci(n), x)
}

func mkMinBE(x *Term) *Term {
	if x.op == "int" {
		return cbytes(string(x.n.Bytes()))
	}
	return mk("minbe", "", KSeq, 0, x)
}

func os2ip(b *Term) *Term {
	switch b.op {
	case "bytes":
		return cbig(new(big.Int).SetBytes([]byte(b.s)))
	case "minbe":
		return b.a[0]
	case "fixed":
		if b.s == "fillbytes" {
			return b.a[1]
		}
	case "be":
		n, _ := constInt(b.a[0])
		if lo, hi, ok := rng(b.a[1]); ok && lo.Sign() >= 0 && hi.BitLen() <= int(8*n) {
			return b.a[1]
		}
		if b.s == "" && isCoordLike(b.a[1]) {
			return b.a[1]
		}
		return mkWrap(int(8*n), b.a[1])
	case "cat":
		if z, _ := zeroSeq(b.a[0]); z {
			return os2ip(seqCat(b.a[1:]...))
		}
	case "list":
		if len(b.a) == 1 && b.s == "b" {
			return b.a[0]
		}
	case "sub":
		if d := iSub(b.a[2], b.a[1]); d == tOne {
			return seqSel(b.a[0], b.a[1])
		}
	}
	return mk("os2ip", "", KInt, 0, b)
}

// isCoordLike: values that are reduced below 2^256 by their producer (documented assumption).
func isCoordLike(t *Term) bool {
	return t.op == "app" && strings.HasPrefix(t.s, "ec.") || coordTerms[t]
}

// coordTerms are symbols a check declares to be reduced below 2^256 (a precondition of that check).
var coordTerms = map[*Term]bool{}

func seqCat(parts ...*Term) *Term {
	var fl []*Term
	var push func(x *Term)
	push = func(x *Term) {
		if x == tEmpty || x == tNil {
			return
		}
		if x.op == "cat" {
			for _, y := range x.a {
				push(y)
			}
			return
		}
		if x.op == "sub" && x.a[1] == x.a[2] {
			return
		}
		if len(fl) > 0 {
			if m := seqJoin2(fl[len(fl)-1], x); m != nil {
				fl = fl[:len(fl)-1]
				push(m)
				return
			}
		}
		fl = append(fl, x)
	}
	for _, x := range parts {
		push(x)
	}
	switch len(fl) {
	case 0:
		return tEmpty
	case 1:
		return fl[0]
	}
	return mk("cat", "", KSeq, 0, fl...)
}

// seqJoin2 merges two adjacent pieces if they have a joint normal form.
func seqJoin2(x, y *Term) *Term {
	switch {
	case x.op == "bytes" && y.op == "bytes":
		return cbytes(x.s + y.s)
	case x.op == "list" && y.op == "list" && x.s == y.s:
		r := mkList(append(append([]*Term(nil), x.a...), y.a...), x.s == "b")
		if r.op != "cat" {
			return r
		}
		if r.op == "cat" && len(r.a) == 2 && r.a[0] == x && r.a[1] == y {
			return nil
		}
		return nil
	case x.op == "sub" && y.op == "sub" && x.a[0] == y.a[0] && x.a[2] == y.a[1]:
		return mkSub0(x.a[0], x.a[1], y.a[2])
	case x.op == "fill" && y.op == "fill" && x.a[0] == y.a[0]:
		return mkFill(x.a[0], iAdd(x.a[1], y.a[1]))
	}
	if y.op == "minbe" {
		if z, n := zeroSeq(x); z {
			if c, ok := constInt(iAdd(n, seqLen(y))); ok && c > 0 {
				return mkBE(c, y.a[0])
			}
		}
	}
	// single list element next to a slice of the same base
	if x.op == "sub" && y.op == "list" && len(y.a) == 1 && y.a[0].op == "sel" && y.a[0].a[0] == x.a[0] && y.a[0].a[1] == x.a[2] {
		return mkSub0(x.a[0], x.a[1], iAdd(x.a[2], tOne))
	}
	return nil
}

func mkSub0(x, lo, hi *Term) *Term {
	if lo == hi {
		return tEmpty
	}
	if lo == tZero && hi == seqLen(x) {
		return x
	}
	if x.op == "bytes" {
		a, ok1 := constInt(lo)
		b, ok2 := constInt(hi)
		if ok1 && ok2 && 0 <= a && a <= b && b <= int64(len(x.s)) {
			return cbytes(x.s[a:b])
		}
		if len(x.s) > 0 && strings.Count(x.s, x.s[:1]) == len(x.s) {
			return mkFill(ci(int64(x.s[0])), iSub(hi, lo))
		}
	}
	if x.op == "sub" {
		return mkSub0(x.a[0], iAdd(x.a[1], lo), iAdd(x.a[1], hi))
	}
	return mkT("sub", "", KSeq, 0, seqElemType(x), x, lo, hi)
}

// cmpFn decides the sign of an integer difference; used to align slices with pieces.
type cmpFn func(d *Term) (sign int, exact bool) // exact: d == 0 / sign known: -1: d<=0, +1: d>=0

func constCmp(d *Term) (int, bool) {
	if d.op == "int" {
		if d.n.Sign() == 0 {
			return 0, true
		}
		return d.n.Sign(), true
	}
	if lo, hi, ok := rng(d); ok {
		if lo.Sign() >= 0 {
			return 1, true
		}
		if hi.Sign() <= 0 {
			return -1, true
		}
	}
	return 0, false
}

func seqSub(x, lo, hi *Term) *Term { return seqSubC(x, lo, hi, constCmp) }

// seqSubC computes x[lo:hi] using cmp to decide how the bounds relate to the pieces of x.
func seqSubC(x, lo, hi *Term, cmp cmpFn) *Term {
	if lo == hi {
		return tEmpty
	}
	if lo == tZero {
		d := iSub(hi, seqLen(x))
		if d == tZero {
			return x
		}
		if s, ok := cmp(d); ok && s == 0 {
			return x
		}
	}
	switch x.op {
	case "bytes":
		return mkSub0(x, lo, hi)
	case "list":
		a, ok1 := constInt(lo)
		b, ok2 := constInt(hi)
		if ok1 && ok2 && 0 <= a && a <= b && b <= int64(len(x.a)) {
			return mkList(x.a[a:b], x.s == "b")
		}
	case "fill":
		return mkFill(x.a[0], iSub(hi, lo))
	case "sub":
		return seqSubC(x.a[0], iAdd(x.a[1], lo), iAdd(x.a[1], hi), cmp)
	case "minbe":
		if n, ok := constInt(iSub(hi, lo)); ok && n > 0 && n <= 512 && hi == seqLen(x) {
			return mkBE(n, x.a[0])
		}
	case "rep":
		// a prefix of copies of one piece
		if lo == tZero && !hasTerm(x.a[1], x.a[0]) {
			if s, ok := cmp(iSub(hi, seqLen(x))); ok && s <= 0 {
				return mkCyc(x.a[1], hi)
			}
		}
	case "blkmap":
		// blocks not replaced
		if s, ok := cmp(iSub(lo, iAdd(x.a[1], iMul(x.a[2], x.a[5])))); ok && s >= 0 {
			return seqSubC(x.a[0], lo, hi, cmp)
		}
		if lo == tZero {
			if s, ok := cmp(iSub(hi, iAdd(x.a[1], iMul(x.a[2], x.a[5])))); ok && s >= 0 {
				return mkBlkmap(seqSubC(x.a[0], tZero, hi, cmp), x.a[1], x.a[2], x.a[3], x.a[4], x.a[5])
			}
		}
	case "cyc":
		if lo == tZero {
			if s, ok := cmp(iSub(hi, x.a[1])); ok && s <= 0 {
				return mkCyc(x.a[0], hi)
			}
		}
	case "cat":
		// drop whole pieces before lo and after hi
		off := tZero
		var out []*Term
		for i, p := range x.a {
			end := iAdd(off, seqLen(p))
			// piece entirely before lo?
			if s, ok := cmp(iSub(end, lo)); ok && s <= 0 {
				off = end
				continue
			}
			// piece entirely after hi?
			if s, ok := cmp(iSub(off, hi)); ok && s >= 0 {
				off = end
				continue
			}
			// overlap: compute intersection
			var l, h *Term
			if s, ok := cmp(iSub(lo, off)); ok {
				if s <= 0 {
					l = tZero
				} else if s > 0 {
					l = iSub(lo, off)
				}
			}
			if s, ok := cmp(iSub(hi, end)); ok {
				if s >= 0 {
					h = seqLen(p)
				} else {
					h = iSub(hi, off)
				}
			}
			if l == nil || h == nil {
				// undecided alignment
				if i == 0 || true {
					return mkSub0(x, lo, hi)
				}
			}
			out = append(out, seqSubC(p, l, h, cmp))
			off = end
		}
		return seqCat(out...)
	case "upd":
		// index outside the window
		if s, ok := cmp(iSub(x.a[1], lo)); ok && s < 0 {
			return seqSubC(x.a[0], lo, hi, cmp)
		}
		if s, ok := cmp(iSub(x.a[1], hi)); ok && s >= 0 {
			return seqSubC(x.a[0], lo, hi, cmp)
		}
		if s, ok := cmp(iSub(x.a[1], lo)); ok && s >= 0 {
			if s2, ok2 := cmp(iSub(hi, iAdd(x.a[1], tOne))); ok2 && s2 >= 0 {
				return seqUpdC(seqSubC(x.a[0], lo, hi, cmp), iSub(x.a[1], lo), x.a[2], cmp)
			}
		}
	case "be":
		// byte-aligned constant window of a fixed-width integer
		n, _ := constInt(x.a[0])
		a, ok1 := constInt(lo)
		b, ok2 := constInt(hi)
		if ok1 && ok2 && a >= 0 && b <= n && a < b {
			return mkBE(b-a, iFdiv(x.a[1], cbig(pow2(int(8*(n-b))))))
		}
	case "xor":
		return mkXorSeq(seqSubC(x.a[0], lo, hi, cmp), seqSubC(x.a[1], lo, hi, cmp))
	case "map":
		return mkMapSeq(x.a[0], substOne(x.a[1], x.a[0], iAdd(x.a[0], lo)), iSub(hi, lo))
	case "pw":
		if s, ok := cmp(iSub(hi, x.a[1])); ok && s <= 0 {
			return seqSubC(x.a[0], lo, hi, cmp)
		}
		if s, ok := cmp(iSub(lo, iAdd(x.a[1], x.a[4]))); ok && s >= 0 {
			return seqSubC(x.a[0], lo, hi, cmp)
		}
	}
	return mkSub0(x, lo, hi)
}

func mkXorSeq(x, y *Term) *Term {
	if x == tEmpty || y == tEmpty {
		return tEmpty
	}
	if x.id > y.id {
		x, y = y, x
	}
	if y.op == "xor" {
		if y.a[0] == x {
			return y.a[1]
		}
		if y.a[1] == x {
			return y.a[0]
		}
	}
	if x.op == "xor" {
		if x.a[0] == y {
			return x.a[1]
		}
		if x.a[1] == y {
			return x.a[0]
		}
	}
	if n, ok := constInt(seqLen(x)); ok && n == 1 {
		return mkList([]*Term{bXor(seqSel(x, tZero), seqSel(y, tZero), 8)}, true)
	}
	return mk("xor", "", KSeq, 0, x, y)
}

// mkForall is "fact holds for every b in [0,n)".
func mkForall(b, fact, n *Term) *Term {
	if fact == tTrue || n == tZero {
		return tTrue
	}
	if n.op != "phi" && fact.op == "eq0" && fact.a[0].op == "sel" {
		x, i := fact.a[0].a[0], fact.a[0].a[1]
		if d := iSub(i, b); !hasTerm(d, b) && !hasTerm(x, b) {
			return mk("allzero", "", KBool, 0, seqSub(x, d, iAdd(d, n)))
		}
	}
	if n.op != "phi" && fact.op == "eq0" {
		// two sequences agree at every index
		p := toPoly(fact.a[0])
		if len(p) == 2 {
			var xs [2]*Term
			var sg [2]int
			k := 0
			for m, c := range p {
				if m.op == "sel" && c.CmpAbs(big1) == 0 && !hasTerm(m.a[0], b) && !hasTerm(iSub(m.a[1], b), b) {
					xs[k], sg[k] = m, c.Sign()
					k++
				}
			}
			if k == 2 && sg[0] != sg[1] {
				if xs[1].id < xs[0].id {
					xs[0], xs[1] = xs[1], xs[0]
				}
				sub := func(m *Term) *Term {
					d := iSub(m.a[1], b)
					return seqSub(m.a[0], d, iAdd(d, n))
				}
				return mkEqSeq(sub(xs[0]), sub(xs[1]))
			}
		}
	}
	if n.op != "phi" && fact.op == "eq0" {
		// every element has the same value
		var el *Term
		k := 0
		var co *big.Int
		for m, c := range toPoly(fact.a[0]) {
			if hasTerm(m, b) {
				k++
				if m.op == "sel" && c.CmpAbs(big1) == 0 && !hasTerm(m.a[0], b) && !hasTerm(iSub(m.a[1], b), b) {
					el, co = m, c
				}
			}
		}
		if k == 1 && el != nil {
			v := iSub(el, iMul(fact.a[0], cbig(co)))
			d := iSub(el.a[1], b)
			return mkEqSeq(seqSub(el.a[0], d, iAdd(d, n)), mkFill(v, n))
		}
	}
	return mk("forall", "", KBool, 0, b, fact, n)
}

func seqSel(x, i *Term) *Term { return seqSelC(x, i, constCmp) }

// quickLen is the length of a piece whose length is a small constant.
func quickLen(p *Term) (int64, bool) {
	switch p.op {
	case "bytes":
		return int64(len(p.s)), true
	case "list":
		return int64(len(p.a)), true
	case "be":
		return constInt(p.a[0])
	case "fill":
		return constInt(p.a[1])
	case "sub":
		if n, ok := subLen[p]; ok {
			return n, n >= 0
		}
		n, ok := constInt(iSub(p.a[2], p.a[1]))
		if !ok {
			n = -1
		}
		subLen[p] = n
		return n, ok
	}
	return 0, false
}

var subLen = map[*Term]int64{}

func seqSelC(x, i *Term, cmp cmpFn) *Term {
	switch x.op {
	case "bytes":
		if c, ok := constInt(i); ok && c >= 0 && c < int64(len(x.s)) {
			return ci(int64(x.s[c]))
		}
	case "list":
		if c, ok := constInt(i); ok && c >= 0 && c < int64(len(x.a)) {
			return x.a[c]
		}
	case "fill":
		return x.a[0]
	case "sub":
		return seqSelC(x.a[0], iAdd(x.a[1], i), cmp)
	case "be":
		n, _ := constInt(x.a[0])
		if c, ok := constInt(i); ok && c >= 0 && c < n {
			return mkWrap(8, iFdiv(x.a[1], cbig(pow2(int(8*(n-1-c))))))
		}
	case "upd":
		d := iSub(i, x.a[1])
		if d == tZero {
			return x.a[2]
		}
		if s, ok := cmp(d); ok {
			if s == 0 {
				return x.a[2]
			}
		}
		if s, ok := cmp(iSub(d, tOne)); ok && s >= 0 {
			return seqSelC(x.a[0], i, cmp)
		}
		if s, ok := cmp(iAdd(d, tOne)); ok && s <= 0 {
			return seqSelC(x.a[0], i, cmp)
		}
	case "xor":
		return bXor(seqSelC(x.a[0], i, cmp), seqSelC(x.a[1], i, cmp), 8)
	case "map":
		return substOne(x.a[1], x.a[0], i)
	case "pw":
		end := iAdd(x.a[1], x.a[4])
		if s, ok := cmp(iSub(i, end)); ok && s >= 0 {
			return seqSelC(x.a[0], i, cmp)
		}
		if s, ok := cmp(iSub(iSub(x.a[1], tOne), i)); ok && s >= 0 {
			return seqSelC(x.a[0], i, cmp)
		}
		if s, ok := cmp(iSub(i, x.a[1])); ok && s >= 0 {
			if s, ok := cmp(iSub(iSub(end, tOne), i)); ok && s >= 0 {
				return substOne(x.a[3], x.a[2], iSub(i, x.a[1]))
			}
		}
	case "cat":
		if c, ok := constInt(i); ok && c >= 0 {
			for _, p := range x.a {
				n, ok := quickLen(p)
				if !ok {
					break
				}
				if c < n {
					return seqSelC(p, ci(c), cmp)
				}
				c -= n
			}
		}
		off := tZero
		for _, p := range x.a {
			end := iAdd(off, seqLen(p))
			if s, ok := cmp(iSub(i, end)); ok && s >= 0 {
				off = end
				continue
			}
			if s, ok := cmp(iSub(iSub(end, tOne), i)); ok && s >= 0 {
				return seqSelC(p, iSub(i, off), cmp)
			}
			break
		}
	}
	et := seqElemType(x)
	if et == nil {
		return mk("sel", "", KInt, 8, x, i)
	}
	return mkTyped("sel", "", et, x, i)
}

func seqUpd(x, i, v *Term) *Term { return seqUpdC(x, i, v, constCmp) }

func seqUpdC(x, i, v *Term, cmp cmpFn) *Term {
	isB := seqElemByte(x)
	if c, ok := constInt(i); ok && c >= 0 {
		switch x.op {
		case "bytes":
			if c < int64(len(x.s)) {
				if isB && v.op == "int" {
					b := []byte(x.s)
					b[c] = byte(v.n.Int64())
					return cbytes(string(b))
				}
				return seqCat(cbytes(x.s[:c]), mkList([]*Term{v}, true), cbytes(x.s[c+1:]))
			}
		case "list":
			if c < int64(len(x.a)) {
				el := append([]*Term(nil), x.a...)
				el[c] = v
				return mkList(el, x.s == "b")
			}
		case "fill":
			if n, ok := constInt(x.a[1]); ok && c < n && n <= 4096 {
				el := make([]*Term, n)
				for j := range el {
					el[j] = x.a[0]
				}
				el[c] = v
				return mkList(el, isB)
			}
		}
	}
	switch x.op {
	case "cat", "be", "sub":
		if n, ok := constInt(seqLen(x)); ok && n <= 256 && isB {
			if c, ok := constInt(i); ok && c >= 0 && c < n {
				el := make([]*Term, 0, n)
				if x.op == "cat" {
					for _, p := range x.a {
						switch p.op {
						case "bytes":
							for j := 0; j < len(p.s); j++ {
								el = append(el, ci(int64(p.s[j])))
							}
						case "list":
							el = append(el, p.a...)
						default:
							m, ok := quickLen(p)
							for j := int64(0); ok && j < m; j++ {
								el = append(el, seqSelC(p, ci(j), cmp))
							}
						}
					}
				}
				if int64(len(el)) != n {

					el = make([]*Term, n)
					for j := range el {
						el[j] = seqSelC(x, ci(int64(j)), cmp)
					}
				}
				el[c] = v
				return mkList(el, true)
			}
		}
		if x.op == "cat" {
			off := tZero
			for j, p := range x.a {
				end := iAdd(off, seqLen(p))
				if s, ok := cmp(iSub(i, end)); ok && s >= 0 {
					off = end
					continue
				}
				if s, ok := cmp(iSub(iSub(end, tOne), i)); ok && s >= 0 {
					np := append([]*Term(nil), x.a...)
					np[j] = seqUpdC(p, iSub(i, off), v, cmp)
					return seqCat(np...)
				}
				break
			}
		}
	case "upd":
		if x.a[1] == i {
			return seqUpdC(x.a[0], i, v, cmp)
		}
	}
	if seqSelC(x, i, cmp) == v {
		return x
	}
	return mkT("upd", "", KSeq, 0, seqElemType(x), x, i, v)
}

// seqSplice replaces x[lo:lo+len(y)] by y.
func seqSplice(x, lo, y *Term, cmp cmpFn) *Term {
	n := seqLen(y)
	if n == tZero {
		return x
	}
	return seqCat(seqSubC(x, tZero, lo, cmp), y, seqSubC(x, iAdd(lo, n), seqLen(x), cmp))
}

// ---------------------------------------------------------------- typed symbols

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func isBigInt(t types.Type) bool { return typeName(t) == "math/big.Int" }

func typeName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	return types.TypeString(t, nil)
}

func tstr(t types.Type) string { return types.TypeString(t, nil) }

func intWidth(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Uint8:
		return 8
	case types.Uint16:
		return 16
	case types.Uint32:
		return 32
	case types.Uint64, types.Uint, types.Uintptr:
		return 64
	}
	return 0
}

func isByteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// mkTyped is the symbolic value op/s(args) of Go type t.
func mkTyped(op, s string, t types.Type, args ...*Term) *Term {
	if isBigInt(t) {
		return mkT(op, s, KInt, 0, nil, args...)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return mkT(op, s, KInt, intWidth(t), t, args...)
		case u.Info()&types.IsBoolean != 0:
			return mkT(op, s, KBool, 0, t, args...)
		case u.Info()&types.IsString != 0:
			return mkT(op, s, KSeq, 0, types.Typ[types.Uint8], args...)
		}
		return mkT(op, s, KVal, 0, t, args...)
	case *types.Array:
		b := mkT(op, s, KSeq, 0, u.Elem(), args...)
		if op != "fixed" {
			return mkT("fixed", tstr(u.Elem()), KSeq, 0, u.Elem(), ci(u.Len()), b)
		}
		return b
	case *types.Slice:
		b := mkT(op, s, KSeq, 0, u.Elem(), args...)
		return mk("slice", "", KVal, 0, mk("ptr", "", KVal, 0, mkObj(b, nil)), tZero, mk("len", "", KInt, 0, b), mk("cap", "", KInt, 0, b))
	case *types.Pointer:
		b := mkT(op, s, KVal, 0, t, args...)
		return mk("ptr", "", KVal, 0, mkObj(b, u.Elem()))
	case *types.Tuple:
		b := mkT(op, s, KVal, 0, t, args...)
		var el []*Term
		for i := 0; i < u.Len(); i++ {
			el = append(el, mkTyped("proj", strconv.Itoa(i), u.At(i).Type(), b))
		}
		return mk("tuple", "", KVal, 0, el...)
	}
	return mkT(op, s, KVal, 0, t, args...)
}

func mkObj(base *Term, elem types.Type) *Term {
	o := mkT("obj", "", KVal, 0, elem, base)
	if o.typ == nil {
		o.typ = elem
	}
	return o
}

func sym(name string, t types.Type) *Term { return mkTyped("sym", name, t) }

// defaultContent is the content of an object that was never written.
func defaultContent(o *Term) *Term {
	b := o.a[0]
	if b.k == KSeq {
		return b
	}
	if o.typ == nil {
		return mk("deref", "", KVal, 0, b)
	}
	if b.op == "sym" {
		return mkTyped("sym", b.s, o.typ)
	}
	return mkTyped("deref", "", o.typ, b)
}

// zeroValue is the Go zero value of t.
func zeroValue(t types.Type) *Term {
	if isBigInt(t) {
		return tZero
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return tZero
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return tEmpty
		}
		return tNil
	case *types.Array:
		if isByteType(u.Elem()) {
			return mkFill(tZero, ci(u.Len()))
		}
		z := zeroValue(u.Elem())
		if u.Len() <= 4096 {
			el := make([]*Term, u.Len())
			for i := range el {
				el[i] = z
			}
			return mkT("list", "", KSeq, 0, u.Elem(), el...)
		}
		return mk("fill", "", KSeq, 0, z, ci(u.Len()))
	case *types.Struct:
		el := make([]*Term, u.NumFields())
		for i := range el {
			el[i] = zeroValue(u.Field(i).Type())
		}
		return mkT("struct", typeName(t), KVal, 0, t, el...)
	}
	return tNil
}

func structType(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// fld projects field i of a struct value of type t.
func fld(v *Term, t types.Type, i int) *Term {
	if v.op == "struct" {
		return v.a[i]
	}
	st := structType(t)
	f := st.Field(i)
	if v.op == "sym" {
		return mkTyped("sym", v.s+"."+f.Name(), f.Type())
	}
	return mkTyped("fld", f.Name(), f.Type(), v)
}

// setFld updates field i.
func setFld(v *Term, t types.Type, i int, x *Term) *Term {
	st := structType(t)
	el := make([]*Term, st.NumFields())
	for j := range el {
		if j == i {
			el[j] = x
		} else {
			el[j] = fld(v, t, j)
		}
	}
	return mkT("struct", typeName(t), KVal, 0, t, el...)
}

func fieldIndex(t types.Type, name string) int {
	st := structType(t)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// ---------------------------------------------------------------- substitution

func substOne(t, x, y *Term) *Term { return substM(t, map[*Term]*Term{x: y}, map[*Term]*Term{}) }

func substM(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.a) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	ch := false
	na := make([]*Term, len(t.a))
	for i, x := range t.a {
		na[i] = substM(x, m, memo)
		if na[i] != x {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, na)
	}
	memo[t] = r
	return r
}

// rebuild re-creates t with new arguments through the simplifying constructors.
func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "obj":
		if x := ptrBase(a[0]); x != a[0] {
			return mkObj(x, t.typ)
		}
	case "deref":
		if x := ptrBase(a[0]); x != a[0] {
			return mkT(t.op, t.s, t.k, t.w, t.typ, x)
		}
	case "poly":
		p := poly{}
		for i, x := range a {
			if t.a[i] == tOne {
				p = polyAddScaled(p, poly{tOne: t.co[i]}, big1)
			} else {
				p = polyAddScaled(p, toPoly(x), t.co[i])
			}
		}
		return fromPoly(p)
	case "mul":
		r := tOne
		for _, x := range a {
			r = iMul(r, x)
		}
		return r
	case "anf":
		w := 64
		if knownMask(t).BitLen() <= 32 {
			w = 32
		}
		if knownMask(t).BitLen() <= 8 {
			w = 8
		}
		r := anf{}
		for i, x := range a {
			r = anfXor(r, anfAnd(toANF(x, w), anf{tOne: t.co[i]}))
		}
		return fromANF(r, w)
	case "band":
		r := a[0]
		for _, x := range a[1:] {
			r = bAnd(r, x, 64)
		}
		return r
	case "rot":
		n, _ := constInt(a[1])
		return mkRot(a[0], int(n), t.w)
	case "fdiv":
		return iFdiv(a[0], a[1])
	case "wrap":
		return mkWrap(t.w, a[0])
	case "mod":
		return iMod(a[0], a[1])
	case "inv":
		return iInv(a[0], a[1])
	case "sgn":
		return iSgn(a[0])
	case "not":
		return bnot(a[0])
	case "ge0":
		return mkGe0(a[0])
	case "eq0":
		return mkEq0(a[0])
	case "eq":
		return mkEq(a[0], a[1])
	case "len":
		return seqLen(a[0])
	case "cat":
		return seqCat(a...)
	case "sub":
		return seqSub(a[0], a[1], a[2])
	case "sel":
		return seqSel(a[0], a[1])
	case "upd":
		return seqUpd(a[0], a[1], a[2])
	case "fill":
		return mkFill(a[0], a[1])
	case "be":
		n, _ := constInt(a[0])
		return mkBE(n, a[1])
	case "minbe":
		return mkMinBE(a[0])
	case "os2ip":
		return os2ip(a[0])
	case "xor":
		return mkXorSeq(a[0], a[1])
	case "list":
		return mkList(a, t.s == "b")
	case "isnil":
		if a[0].op == "ptr" || a[0].op == "slice" || a[0].op == "nil" || a[0].op == "iface" {
			return mkIsNil(a[0])
		}
	case "forall":
		return mkForall(a[0], a[1], a[2])
	case "orfold":
		return mkOrfold(a[0], a[1], a[2], t.w)
	case "rep":
		return mkRep(a[0], a[1], a[2])
	case "cyc":
		return mkCyc(a[0], a[1])
	case "iter":
		return mkIter(a[0], a[1], a[2], a[3])
	case "blkmap":
		return mkBlkmap(a[0], a[1], a[2], a[3], a[4], a[5])
	case "map":
		return mkMapSeq(a[0], a[1], a[2])
	case "foldc":
		i, _ := strconv.Atoi(t.s)
		if a[0].op == "list" {
			return mkFoldc(i, a[0], a[1])
		}
	}
	r := mkT(t.op, t.s, t.k, t.w, t.typ, a...)
	if r.fn == nil {
		r.fn = t.fn
	}
	if r.typ == nil {
		r.typ = t.typ
	}
	return r
}

// mkCyc is the first n elements of piece repeated for ever.
func mkCyc(piece, n *Term) *Term {
	if l, ok := constInt(seqLen(piece)); ok && l > 0 {
		if c, ok := constInt(n); ok && c/l <= 64 {
			var ps []*Term
			for i := int64(0); i < c/l; i++ {
				ps = append(ps, piece)
			}
			if c%l > 0 {
				ps = append(ps, seqSubC(piece, tZero, ci(c%l), constCmp))
			}
			return seqCat(ps...)
		}
	}
	return mkT("cyc", "", KSeq, 0, seqElemType(piece), piece, n)
}

func mkRep(b, piece, count *Term) *Term {
	if count == tZero {
		return tEmpty
	}
	if c, ok := constInt(count); ok && c >= 0 && c <= 64 {
		var ps []*Term
		for i := int64(0); i < c; i++ {
			ps = append(ps, substOne(piece, b, ci(i)))
		}
		return seqCat(ps...)
	}
	if piece.op == "list" && len(piece.a) == 1 && piece.s == "b" {
		return mkMapSeq(b, piece.a[0], count)
	}
	return mk("rep", "", KSeq, 0, b, piece, count)
}

// mkMapSeq is the sequence of elem(b) for b in [0,count).
func mkMapSeq(b, elem, count *Term) *Term {
	if count == tZero {
		return tEmpty
	}
	if !hasTerm(elem, b) {
		return mkFill(elem, count)
	}
	// identity selection
	if elem.op == "sel" && elem.a[0].k == KSeq && !hasTerm(elem.a[0], b) {
		d := iSub(elem.a[1], b)
		if !hasTerm(d, b) {
			return seqSub(elem.a[0], d, iAdd(d, count))
		}
	}
	// pointwise xor
	if elem.op == "anf" && len(elem.a) == 2 {
		ok := true
		for i, m := range elem.a {
			if m == tOne || m.op == "band" || elem.co[i].Cmp(allOnes(8)) != 0 {
				ok = false
			}
		}
		if ok {
			x := mkMapSeq(b, elem.a[0], count)
			y := mkMapSeq(b, elem.a[1], count)
			return mkXorSeq(x, y)
		}
	}
	return mk("map", "", KSeq, 0, b, elem, count)
}

// ---------------------------------------------------------------- printing

// termNames abbreviates well-known values in reports.
var termNames = map[*Term]string{}

func (t *Term) String() string { return t.str(6) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if n, ok := termNames[t]; ok {
		return n
	}
	if d == 0 {
		return "…"
	}
	switch t.op {
	case "int":
		if t.n.BitLen() > 64 {
			return "0x" + t.n.Text(16)
		}
		return t.n.String()
	case "sym":
		return t.s
	case "bytes":
		if len(t.s) > 24 {
			return fmt.Sprintf("bytes%d(%x…)", len(t.s), t.s[:12])
		}
		return fmt.Sprintf("bytes(%x)", t.s)
	case "poly", "anf":
		var b []string
		for i, m := range t.a {
			c := t.co[i].String()
			if t.op == "anf" || t.co[i].BitLen() > 40 {
				c = "0x" + t.co[i].Text(16)
			}
			switch {
			case m == tOne:
				b = append(b, c)
			case c == "1":
				b = append(b, m.str(d-1))
			default:
				b = append(b, c+"*"+m.str(d-1))
			}
		}
		if t.op == "anf" {
			return "(" + strings.Join(b, " ^ ") + ")"
		}
		return "(" + strings.Join(b, " + ") + ")"
	case "ge0":
		return t.a[0].str(d) + ">=0"
	case "eq0":
		return t.a[0].str(d) + "==0"
	case "not":
		return "!" + t.a[0].str(d)
	}
	var b []string
	for _, x := range t.a {
		b = append(b, x.str(d-1))
	}
	n := t.op
	if t.s != "" {
		n += ":" + t.s
	}
	if t.w > 0 && t.op == "wrap" {
		n += strconv.Itoa(t.w)
	}
	return n + "(" + strings.Join(b, ",") + ")"
}

// mkOrfold is the bitwise or of body over b in [0,n).
func mkOrfold(b, body, n *Term, w int) *Term {
	if n == tZero || body == tZero {
		return tZero
	}
	if n == tOne {
		return substOne(body, b, tZero)
	}
	return mk("orfold", "", KInt, w, b, body, n)
}

// ptrBase is the pointer value itself, where a bare pointer to it has been wrapped in an object.
func ptrBase(x *Term) *Term {
	if x.op == "ptr" && len(x.a) == 1 && x.a[0].op == "obj" && x.a[0].a[0].op != "alloc" {
		return x.a[0].a[0]
	}
	return x
}
