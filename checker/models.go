package main

import (
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of library functions. Each gives the documented effect of the callee on values and memory.

var stdModels = map[string]Model{}

// localModels stand for module functions that are verified by their own property.
var localModels = map[string]Model{}

func ret(c *callCtx, vs ...*Term) []Outcome {
	switch len(vs) {
	case 0:
		return []Outcome{{st: c.st}}
	case 1:
		return []Outcome{{st: c.st, res: vs[0]}}
	}
	return []Outcome{{st: c.st, res: mk("tuple", "", KVal, 0, vs...)}}
}

func (c *callCtx) in() ssa.Instruction { return c.instr.(ssa.Instruction) }

func (c *callCtx) rtype(i int) types.Type { return c.sig.Results().At(i).Type() }

func (c *callCtx) id() string {
	s := siteOf(c.in())
	return s + "#" + strconv.Itoa(c.st.fresh("ev:"+s))
}

func (e *Engine) bigVal(st *State, p *Term) *Term {
	v := e.load(st, p)
	if v.k != KInt {
		if v.op == "deref" || v.op == "phi" || v.op == "join" {
			return mk("bigof", "", KInt, 0, v)
		}
		return mk("bigof", "", KInt, 0, v)
	}
	return v
}

func bigBin(f func(e *Engine, c *callCtx, x, y *Term) *Term) Model {
	return func(e *Engine, c *callCtx) []Outcome {
		for _, a := range c.args[:3] {
			e.nilCheck(c.st, c.in(), a)
		}
		x, y := e.bigVal(c.st, c.args[1]), e.bigVal(c.st, c.args[2])
		e.store(c.st, c.args[0], f(e, c, x, y))
		return ret(c, c.args[0])
	}
}

func bigUn(f func(e *Engine, c *callCtx, x *Term) *Term) Model {
	return func(e *Engine, c *callCtx) []Outcome {
		e.nilCheck(c.st, c.in(), c.args[0])
		e.nilCheck(c.st, c.in(), c.args[1])
		e.store(c.st, c.args[0], f(e, c, e.bigVal(c.st, c.args[1])))
		return ret(c, c.args[0])
	}
}

func reg(name string, m Model) { stdModels[name] = m }

func init() {
	const B = "(*math/big.Int)."
	reg(B+"Add", bigBin(func(e *Engine, c *callCtx, x, y *Term) *Term { return iAdd(x, y) }))
	reg(B+"Sub", bigBin(func(e *Engine, c *callCtx, x, y *Term) *Term { return iSub(x, y) }))
	reg(B+"Mul", bigBin(func(e *Engine, c *callCtx, x, y *Term) *Term { return iMul(x, y) }))
	reg(B+"Mod", bigBin(func(e *Engine, c *callCtx, x, y *Term) *Term { return iMod(x, y) }))
	reg(B+"Div", bigBin(func(e *Engine, c *callCtx, x, y *Term) *Term {
		if y.op == "int" && y.n.Sign() > 0 {
			return iFdiv(x, y)
		}
		return mk("ediv", "", KInt, 0, x, y)
	}))
	reg(B+"Rem", bigBin(func(e *Engine, c *callCtx, x, y *Term) *Term {
		if c.st.eval(mkGe0(x)) == tTrue {
			return iMod(x, y)
		}
		return mk("rem", "", KInt, 0, x, y)
	}))
	reg(B+"Quo", bigBin(func(e *Engine, c *callCtx, x, y *Term) *Term { return mk("quo", "", KInt, 0, x, y) }))
	reg(B+"And", bigBin(func(e *Engine, c *callCtx, x, y *Term) *Term { return mk("bigand", "", KInt, 0, x, y) }))
	reg(B+"Or", bigBin(func(e *Engine, c *callCtx, x, y *Term) *Term { return mk("bigor", "", KInt, 0, x, y) }))
	reg(B+"Xor", bigBin(func(e *Engine, c *callCtx, x, y *Term) *Term { return mk("bigxor", "", KInt, 0, x, y) }))
	reg(B+"ModInverse", bigBin(func(e *Engine, c *callCtx, x, y *Term) *Term { return iInv(x, y) }))
	reg(B+"Set", bigUn(func(e *Engine, c *callCtx, x *Term) *Term { return x }))
	reg(B+"Neg", bigUn(func(e *Engine, c *callCtx, x *Term) *Term { return iNeg(x) }))
	reg(B+"Abs", bigUn(func(e *Engine, c *callCtx, x *Term) *Term {
		if c.st.eval(mkGe0(x)) == tTrue {
			return x
		}
		return mk("abs", "", KInt, 0, x)
	}))
	reg(B+"Exp", func(e *Engine, c *callCtx) []Outcome {
		x, y := e.bigVal(c.st, c.args[1]), e.bigVal(c.st, c.args[2])
		m := tZero
		if c.args[3] != tNil {
			m = e.bigVal(c.st, c.args[3])
		}
		if n, ok := constInt(y); ok && n >= 0 && n <= 8 {
			r := tOne
			for i := int64(0); i < n; i++ {
				r = iMul(r, x)
			}
			if m != tZero {
				r = iMod(r, m)
			}
			e.store(c.st, c.args[0], r)
			return ret(c, c.args[0])
		}
		// inverse by Fermat: x^(N-2) mod N for prime N
		if m != tZero && y == iSub(m, ci(2)) {
			e.store(c.st, c.args[0], iInv(x, m))
			return ret(c, c.args[0])
		}
		e.store(c.st, c.args[0], mk("exp", "", KInt, 0, x, y, m))
		return ret(c, c.args[0])
	})
	for _, n := range []string{"Lsh", "Rsh"} {
		n := n
		reg(B+n, func(e *Engine, c *callCtx) []Outcome {
			x := e.bigVal(c.st, c.args[1])
			r := mk(strings.ToLower(n), "", KInt, 0, x, c.args[2])
			if k, ok := constInt(c.args[2]); ok && k < 1<<14 {
				if n == "Lsh" {
					r = iMul(x, cbig(pow2(int(k))))
				} else {
					r = iFdiv(x, cbig(pow2(int(k))))
				}
			}
			e.store(c.st, c.args[0], r)
			return ret(c, c.args[0])
		})
	}
	reg(B+"SetInt64", func(e *Engine, c *callCtx) []Outcome {
		e.store(c.st, c.args[0], c.args[1])
		return ret(c, c.args[0])
	})
	stdModels[B+"SetUint64"] = stdModels[B+"SetInt64"]
	reg("math/big.NewInt", func(e *Engine, c *callCtx) []Outcome {
		return ret(c, e.newPtr(c.st, siteOf(c.in()), c.args[0]))
	})
	reg(B+"SetBytes", func(e *Engine, c *callCtx) []Outcome {
		e.store(c.st, c.args[0], os2ip(e.seqOf(c.st, c.args[1])))
		return ret(c, c.args[0])
	})
	reg(B+"SetString", func(e *Engine, c *callCtx) []Outcome {
		s := e.seqOf(c.st, c.args[1])
		b, ok := constInt(c.args[2])
		if s.op == "bytes" && ok {
			if n, good := new(big.Int).SetString(s.s, int(b)); good {
				e.store(c.st, c.args[0], cbig(n))
				return ret(c, c.args[0], tTrue)
			}
			return ret(c, tNil, tFalse)
		}
		e.store(c.st, c.args[0], mk("parseint", "", KInt, 0, s, c.args[2]))
		okT := mk("parseint.ok", "", KBool, 0, s, c.args[2])
		return ret(c, c.args[0], okT)
	})
	reg(B+"Bytes", func(e *Engine, c *callCtx) []Outcome {
		return ret(c, e.newSlice(c.st, siteOf(c.in()), mkMinBE(e.bigVal(c.st, c.args[0]))))
	})
	reg(B+"FillBytes", func(e *Engine, c *callCtx) []Outcome {
		x := e.bigVal(c.st, c.args[0])
		n := e.lenOf(c.st, c.args[1])
		if k, ok := constInt(n); ok {
			e.oblige(c.st, "fillbytes", c.in(), e.fitsBytes(x, k))
			e.writeSeq(c.st, c.args[1], tZero, mkBE(k, x))
		} else {
			// the number fits in as many bytes as a number that is not smaller
			fits := mk("fits", "", KBool, 0, x, n)
			subterms(n, func(t *Term) {
				if t.op == "bitlen" && n == iFdiv(iAdd(t, ci(7)), ci(8)) {
					fits = mkAnd(mkGe0(x), mkGe0(iSub(t.a[0], x)))
				}
			})
			e.oblige(c.st, "fillbytes", c.in(), fits)
			e.writeSeq(c.st, c.args[1], tZero, mk("fixed", "fillbytes", KSeq, 0, n, x))
		}
		return ret(c, c.args[1])
	})
	reg(B+"Cmp", func(e *Engine, c *callCtx) []Outcome {
		e.nilCheck(c.st, c.in(), c.args[0])
		e.nilCheck(c.st, c.in(), c.args[1])
		return ret(c, iSgn(iSub(e.bigVal(c.st, c.args[0]), e.bigVal(c.st, c.args[1]))))
	})
	reg(B+"CmpAbs", func(e *Engine, c *callCtx) []Outcome {
		x, y := e.bigVal(c.st, c.args[0]), e.bigVal(c.st, c.args[1])
		if c.st.eval(mkGe0(x)) != tTrue {
			x = mk("abs", "", KInt, 0, x)
		}
		if c.st.eval(mkGe0(y)) != tTrue {
			y = mk("abs", "", KInt, 0, y)
		}
		return ret(c, iSgn(iSub(x, y)))
	})
	reg(B+"Sign", func(e *Engine, c *callCtx) []Outcome {
		e.nilCheck(c.st, c.in(), c.args[0])
		return ret(c, iSgn(e.bigVal(c.st, c.args[0])))
	})
	reg(B+"BitLen", func(e *Engine, c *callCtx) []Outcome {
		e.nilCheck(c.st, c.in(), c.args[0])
		x := e.bigVal(c.st, c.args[0])
		if x.op == "int" {
			return ret(c, ci(int64(x.n.BitLen())))
		}
		return ret(c, mk("bitlen", "", KInt, 31, x))
	})
	reg(B+"Bit", func(e *Engine, c *callCtx) []Outcome {
		x := e.bigVal(c.st, c.args[0])
		if k, ok := constInt(c.args[1]); ok && c.st.eval(mkGe0(x)) == tTrue {
			return ret(c, mkWrap(1, iFdiv(x, cbig(pow2(int(k))))))
		}
		return ret(c, mk("bit", "", KInt, 1, x, c.args[1]))
	})
	reg(B+"Int64", func(e *Engine, c *callCtx) []Outcome {
		x := e.bigVal(c.st, c.args[0])
		if x.op == "int" && x.n.IsInt64() {
			return ret(c, x)
		}
		return ret(c, mk("int64of", "", KInt, 0, x))
	})
	reg(B+"Uint64", func(e *Engine, c *callCtx) []Outcome {
		return ret(c, mkWrap(64, e.bigVal(c.st, c.args[0])))
	})
	reg(B+"IsInt64", func(e *Engine, c *callCtx) []Outcome {
		return ret(c, mk("isint64", "", KBool, 0, e.bigVal(c.st, c.args[0])))
	})
	reg(B+"ProbablyPrime", func(e *Engine, c *callCtx) []Outcome {
		return ret(c, mk("isprime", "", KBool, 0, e.bigVal(c.st, c.args[0])))
	})

	// ---- elliptic curves
	for _, pre := range []string{"invoke:crypto/elliptic.Curve.", "(*crypto/elliptic.CurveParams)."} {
		pre := pre
		reg(pre+"Params", func(e *Engine, c *callCtx) []Outcome {
			if strings.HasPrefix(pre, "(*") {
				return ret(c, c.args[0])
			}
			cv := e.snap(c.st, c.args[0])
			return ret(c, mkTyped("app", "ec.params", c.rtype(0), cv))
		})
		reg(pre+"ScalarBaseMult", func(e *Engine, c *callCtx) []Outcome {
			k := os2ip(e.seqOf(c.st, c.args[1]))
			pt := mk("ecmul", "", KVal, 0, e.curveOf(c), mk("ecbase", "", KVal, 0), k)
			return e.point(c, pt)
		})
		reg(pre+"ScalarMult", func(e *Engine, c *callCtx) []Outcome {
			x, y := e.bigVal(c.st, c.args[1]), e.bigVal(c.st, c.args[2])
			k := os2ip(e.seqOf(c.st, c.args[3]))
			base := pointOf(x, y)
			if k == tOne {
				return e.point(c, mk("ecmul", "", KVal, 0, e.curveOf(c), base, tOne))
			}
			return e.point(c, mk("ecmul", "", KVal, 0, e.curveOf(c), base, k))
		})
		reg(pre+"Add", func(e *Engine, c *callCtx) []Outcome {
			p := pointOf(e.bigVal(c.st, c.args[1]), e.bigVal(c.st, c.args[2]))
			q := pointOf(e.bigVal(c.st, c.args[3]), e.bigVal(c.st, c.args[4]))
			if p.id > q.id {
				p, q = q, p
			}
			return e.point(c, mk("ecadd", "", KVal, 0, e.curveOf(c), p, q))
		})
		reg(pre+"Double", func(e *Engine, c *callCtx) []Outcome {
			p := pointOf(e.bigVal(c.st, c.args[1]), e.bigVal(c.st, c.args[2]))
			return e.point(c, mk("ecadd", "", KVal, 0, e.curveOf(c), p, p))
		})
		reg(pre+"IsOnCurve", func(e *Engine, c *callCtx) []Outcome {
			x, y := e.bigVal(c.st, c.args[1]), e.bigVal(c.st, c.args[2])
			return ret(c, mk("app", "oncurve", KBool, 0, e.curveOf(c), x, y))
		})
	}
	reg("crypto/elliptic.GenerateKey", func(e *Engine, c *callCtx) []Outcome {
		id := c.id()
		priv := mkTyped("genkey.priv", id, types.NewSlice(types.Typ[types.Uint8]), e.snap(c.st, c.args[0]))
		k := os2ip(e.seqOf(c.st, priv))
		pt := mk("ecmul", "", KVal, 0, e.snap(c.st, c.args[0]), mk("ecbase", "", KVal, 0), k)
		x := e.newPtr(c.st, "ec.x:"+siteOf(c.in()), mk("app", "ec.x", KInt, 0, pt))
		y := e.newPtr(c.st, "ec.y:"+siteOf(c.in()), mk("app", "ec.y", KInt, 0, pt))
		err := mkTyped("readerr", id, c.rtype(3))
		c.st.event(&Event{kind: "genkey", name: id, args: []*Term{e.snap(c.st, c.args[0]), c.args[1]}, res: []*Term{priv, x, y, err}, fn: c.fn, at: c.in()})
		return ret(c, priv, x, y, err)
	})

	// ---- randomness and readers
	reg("io.ReadFull", func(e *Engine, c *callCtx) []Outcome {
		id := c.id()
		n := e.lenOf(c.st, c.args[1])
		data := mk("fixed", "rand", KSeq, 0, n, mk("rand", id, KSeq, 0))
		e.writeSeq(c.st, c.args[1], tZero, data)
		err := mkTyped("readerr", id, c.rtype(1))
		got := mk("readn", id, KInt, 62)
		c.st.event(&Event{kind: "read", name: "io.ReadFull", args: []*Term{c.args[0], n, data}, res: []*Term{got, err}, fn: c.fn, at: c.in()})
		return ret(c, got, err)
	})
	partialRead := func(name string, src, buf int) Model {
		return func(e *Engine, c *callCtx) []Outcome {
			id := c.id()
			n := e.lenOf(c.st, c.args[buf])
			data := mk("fixed", "partial", KSeq, 0, n, mk("partialrand", id, KSeq, 0))
			e.writeSeq(c.st, c.args[buf], tZero, data)
			err := mkTyped("readerr", id, c.rtype(1))
			got := mk("readn", id, KInt, 62)
			var r *Term = tNil
			if src >= 0 {
				r = c.args[src]
			}
			c.st.event(&Event{kind: "read", name: name, args: []*Term{r, n, data}, res: []*Term{got, err}, fn: c.fn, at: c.in()})
			return ret(c, got, err)
		}
	}
	reg("invoke:io.Reader.Read", partialRead("io.Reader.Read", 0, 1))
	reg("io.ReadAtLeast", partialRead("io.ReadAtLeast", 0, 1))
	reg("crypto/rand.Read", func(e *Engine, c *callCtx) []Outcome {
		id := c.id()
		n := e.lenOf(c.st, c.args[0])
		data := mk("fixed", "rand", KSeq, 0, n, mk("rand", id, KSeq, 0))
		e.writeSeq(c.st, c.args[0], tZero, data)
		err := mkTyped("readerr", id, c.rtype(1))
		got := mk("readn", id, KInt, 62)
		c.st.event(&Event{kind: "read", name: "crypto/rand.Read", args: []*Term{mk("global", "crypto/rand.Reader", KVal, 0), n, data}, res: []*Term{got, err}, fn: c.fn, at: c.in()})
		return ret(c, got, err)
	})

	// ---- errors and formatting
	reg("errors.New", func(e *Engine, c *callCtx) []Outcome {
		return ret(c, mk("errnew", "", KVal, 0, e.seqOf(c.st, c.args[0])))
	})
	reg("fmt.Errorf", func(e *Engine, c *callCtx) []Outcome {
		return ret(c, mk("errnew", "f", KVal, 0, e.seqOf(c.st, c.args[0]), e.snap(c.st, c.args[1])))
	})
	reg("fmt.Sprintf", func(e *Engine, c *callCtx) []Outcome {
		return ret(c, mk("sprintf", "", KSeq, 0, e.seqOf(c.st, c.args[0]), e.snap(c.st, c.args[1])))
	})
	reg("errors.Is", func(e *Engine, c *callCtx) []Outcome {
		return ret(c, mkEq(c.args[0], c.args[1]))
	})

	// ---- bytes
	eq := func(e *Engine, c *callCtx) []Outcome {
		return ret(c, mkEqSeq(e.seqOf(c.st, c.args[0]), e.seqOf(c.st, c.args[1])))
	}
	reg("bytes.Equal", eq)
	reg("crypto/hmac.Equal", eq)
	reg("slices.Equal", func(e *Engine, c *callCtx) []Outcome { return eq(e, c) })
	reg("crypto/subtle.ConstantTimeCompare", func(e *Engine, c *callCtx) []Outcome {
		return ret(c, b2i(mkEqSeq(e.seqOf(c.st, c.args[0]), e.seqOf(c.st, c.args[1]))))
	})
	reg("bytes.Compare", func(e *Engine, c *callCtx) []Outcome {
		x, y := e.seqOf(c.st, c.args[0]), e.seqOf(c.st, c.args[1])
		if x == y {
			return ret(c, tZero)
		}
		return ret(c, mk("bcmp", "", KInt, 0, x, y))
	})
	reg("crypto/subtle.XORBytes", func(e *Engine, c *callCtx) []Outcome {
		x, y := e.seqOf(c.st, c.args[1]), e.seqOf(c.st, c.args[2])
		n := mkMinSt(c.st, seqLen(x), seqLen(y))
		e.writeSeq(c.st, c.args[0], tZero, mkXorSeq(seqSubC(x, tZero, n, c.st.cmp), seqSubC(y, tZero, n, c.st.cmp)))
		return ret(c, n)
	})
	reg("unicode/utf16.EncodeRune", func(e *Engine, c *callCtx) []Outcome {
		r := c.args[0]
		pair := mkAnd(mkGe0(iSub(r, ci(0x10000))), mkGe0(iSub(ci(0x10ffff), r)))
		bad := mk("tuple", "", KVal, 0, ci(0xfffd), ci(0xfffd))
		v := iSub(r, ci(0x10000))
		good := mk("tuple", "", KVal, 0, iAdd(ci(0xd800), iFdiv(v, ci(1024))), iAdd(ci(0xdc00), mkWrap(10, v)))
		var outs []Outcome
		st2 := c.st.clone()
		if c.st.eval(pair) != tFalse && c.st.assume(pair) {
			outs = append(outs, Outcome{st: c.st, res: good})
		}
		if st2.eval(pair) != tTrue && st2.assume(bnot(pair)) {
			outs = append(outs, Outcome{st: st2, res: bad})
		}
		return outs
	})
	reg("bytes.Repeat", func(e *Engine, c *callCtx) []Outcome {
		x := e.seqOf(c.st, c.args[0])
		if l, ok := constInt(seqLen(x)); ok && l == 1 {
			if n, ok := constInt(c.args[1]); ok && n > 0 && n <= 256 {
				return ret(c, e.newSlice(c.st, siteOf(c.in()), mkList(copies(seqSel(x, tZero), n), true)))
			}
			return ret(c, e.newSlice(c.st, siteOf(c.in()), mkFill(seqSel(x, tZero), c.args[1])))
		}
		b := mk("bvar", "0", KInt, 0)
		return ret(c, e.newSlice(c.st, siteOf(c.in()), mkRep(b, x, c.args[1])))
	})
	clone := func(e *Engine, c *callCtx) []Outcome {
		if c.args[0] == tNil {
			return ret(c, tNil)
		}
		return ret(c, e.newSlice(c.st, siteOf(c.in()), e.seqOf(c.st, c.args[0])))
	}
	reg("bytes.Clone", clone)
	reg("slices.Clone", clone)
	reg("bytes.HasPrefix", func(e *Engine, c *callCtx) []Outcome {
		x, y := e.seqOf(c.st, c.args[0]), e.seqOf(c.st, c.args[1])
		n := seqLen(y)
		if c.st.eval(mkGe0(iSub(seqLen(x), n))) == tTrue {
			return ret(c, mkEqSeq(seqSubC(x, tZero, n, c.st.cmp), y))
		}
		return ret(c, mk("app", "hasprefix", KBool, 0, x, y))
	})
	reg("bytes.Join", func(e *Engine, c *callCtx) []Outcome {
		l := e.seqOf(c.st, c.args[0])
		sep := e.seqOf(c.st, c.args[1])
		var els []*Term
		switch {
		case l.op == "list":
			els = l.a
		default:
			return ret(c, e.newSlice(c.st, siteOf(c.in()), mk("app", "join", KSeq, 0, e.snap(c.st, l), sep)))
		}
		r := tEmpty
		for i, x := range els {
			if i > 0 {
				r = seqCat(r, sep)
			}
			r = seqCat(r, e.seqOf(c.st, x))
		}
		return ret(c, e.newSlice(c.st, siteOf(c.in()), r))
	})

	// ---- encoding/binary
	for _, w := range []int64{2, 4, 8} {
		w := w
		bits := strconv.Itoa(int(w * 8))
		reg("(encoding/binary.bigEndian).PutUint"+bits, func(e *Engine, c *callCtx) []Outcome {
			e.oblige(c.st, "bounds", c.in(), mkGe0(iSub(e.lenOf(c.st, c.args[1]), ci(w))))
			e.writeSeq(c.st, c.args[1], tZero, mkBE(w, c.args[2]))
			return ret(c)
		})
		reg("(encoding/binary.bigEndian).AppendUint"+bits, func(e *Engine, c *callCtx) []Outcome {
			return ret(c, e.newSlice(c.st, siteOf(c.in()), seqCat(e.seqOf(c.st, c.args[1]), mkBE(w, c.args[2]))))
		})
		reg("(encoding/binary.bigEndian).Uint"+bits, func(e *Engine, c *callCtx) []Outcome {
			e.oblige(c.st, "bounds", c.in(), mkGe0(iSub(e.lenOf(c.st, c.args[1]), ci(w))))
			return ret(c, os2ip(seqSubC(e.seqOf(c.st, c.args[1]), tZero, ci(w), c.st.cmp)))
		})
		reg("(encoding/binary.littleEndian).Uint"+bits, func(e *Engine, c *callCtx) []Outcome {
			e.oblige(c.st, "bounds", c.in(), mkGe0(iSub(e.lenOf(c.st, c.args[1]), ci(w))))
			s := e.seqOf(c.st, c.args[1])
			r := tZero
			for i := int64(0); i < w; i++ {
				r = iAdd(r, iMul(seqSelC(s, ci(i), c.st.cmp), cbig(pow2(int(8*i)))))
			}
			return ret(c, r)
		})
		reg("(encoding/binary.littleEndian).PutUint"+bits, func(e *Engine, c *callCtx) []Outcome {
			e.oblige(c.st, "bounds", c.in(), mkGe0(iSub(e.lenOf(c.st, c.args[1]), ci(w))))
			var el []*Term
			for i := int64(0); i < w; i++ {
				el = append(el, mkWrap(8, iFdiv(c.args[2], cbig(pow2(int(8*i))))))
			}
			e.writeSeq(c.st, c.args[1], tZero, mkList(el, true))
			return ret(c)
		})
	}
	for _, w := range []int{8, 16, 32, 64} {
		w := w
		reg("math/bits.RotateLeft"+strconv.Itoa(w), func(e *Engine, c *callCtx) []Outcome {
			if n, ok := constInt(c.args[1]); ok {
				return ret(c, mkRot(c.args[0], int(n), w))
			}
			return ret(c, mk("rotv", "", KInt, w, c.args[0], c.args[1]))
		})
		reg("math/bits.ReverseBytes"+strconv.Itoa(w), nil)
		delete(stdModels, "math/bits.ReverseBytes"+strconv.Itoa(w))
	}

	// ---- hashes
	localModels[modPath+"/sm3.New"] = func(e *Engine, c *callCtx) []Outcome {
		return ret(c, e.newHash(c.st, siteOf(c.in()), cbytes("sm3"), nil))
	}
	localModels[modPath+"/sm3.Sum"] = func(e *Engine, c *callCtx) []Outcome {
		return ret(c, e.newSlice(c.st, siteOf(c.in()), mkHash(cbytes("sm3"), nil, e.seqOf(c.st, c.args[0]))))
	}
	for _, h := range []struct{ pkg, alg string }{{"crypto/sha1.New", "sha1"}, {"crypto/md5.New", "md5"}, {"crypto/sha256.New", "sha256"}, {"crypto/sha256.New224", "sha224"}, {"crypto/sha512.New", "sha512"},
		{"crypto/sha512.New384", "sha384"}, {"crypto/sha512.New512_224", "sha512/224"}, {"crypto/sha512.New512_256", "sha512/256"}, {"golang.org/x/crypto/ripemd160.New", "ripemd160"},
		{"golang.org/x/crypto/sha3.New224", "sha3-224"}, {"golang.org/x/crypto/sha3.New256", "sha3-256"}, {"golang.org/x/crypto/sha3.New384", "sha3-384"}, {"golang.org/x/crypto/sha3.New512", "sha3-512"}} {
		h := h
		reg(h.pkg, func(e *Engine, c *callCtx) []Outcome {
			return ret(c, e.newHash(c.st, siteOf(c.in()), cbytes(h.alg), nil))
		})
	}
	reg("crypto/sha1.Sum", func(e *Engine, c *callCtx) []Outcome {
		return ret(c, mkHash(cbytes("sha1"), nil, e.seqOf(c.st, c.args[0])))
	})
	reg("crypto/sha256.Sum256", func(e *Engine, c *callCtx) []Outcome {
		return ret(c, mkHash(cbytes("sha256"), nil, e.seqOf(c.st, c.args[0])))
	})
	reg("crypto/hmac.New", func(e *Engine, c *callCtx) []Outcome {
		alg := c.args[0]
		name := alg
		if alg.fn != nil {
			switch alg.fn.String() {
			case "crypto/sha1.New":
				name = cbytes("sha1")
			case "crypto/sha256.New":
				name = cbytes("sha256")
			case modPath + "/sm3.New":
				name = cbytes("sm3")
			default:
				name = cbytes(alg.fn.String())
			}
		}
		return ret(c, e.newHash(c.st, siteOf(c.in()), name, e.seqOf(c.st, c.args[1])))
	})
}

func b2i(c *Term) *Term {
	if c == tTrue {
		return tOne
	}
	if c == tFalse {
		return tZero
	}
	return mk("b2i", "", KInt, 0, c)
}

func mkMinSt(st *State, x, y *Term) *Term {
	if s, ok := st.cmp(iSub(x, y)); ok {
		if s <= 0 {
			return x
		}
		return y
	}
	return mkMin(x, y)
}

// fitsBytes: 0 <= |x| < 256^k.
func (e *Engine) fitsBytes(x *Term, k int64) *Term {
	if isCoordLike(x) && k >= 32 {
		return tTrue
	}
	return mkGe0(iSub(cbig(new(big.Int).Sub(pow2(int(8*k)), big1)), x))
}

func (e *Engine) curveOf(c *callCtx) *Term {
	v := c.args[0]
	if e.curve != nil && v != e.curve && c.st.eval(mkEq(v, e.curve)) == tTrue {
		v = e.curve
	}
	return e.snap(c.st, v)
}

// pointOf recognises the two coordinates of one point.
func pointOf(x, y *Term) *Term {
	if x.op == "app" && x.s == "ec.x" && y.op == "app" && y.s == "ec.y" && x.a[0] == y.a[0] {
		return x.a[0]
	}
	return mk("ecpoint", "", KVal, 0, x, y)
}

func (e *Engine) point(c *callCtx, pt *Term) []Outcome {
	x := e.newPtr(c.st, "ec.x:"+siteOf(c.in()), mk("app", "ec.x", KInt, 0, pt))
	y := e.newPtr(c.st, "ec.y:"+siteOf(c.in()), mk("app", "ec.y", KInt, 0, pt))
	return ret(c, x, y)
}

func init() {
	atomHooks = append(atomHooks, func(m *Term) []poly {
		if isCoordLike(m) {
			return []poly{{m: big1}, polyAddScaled(poly{tOne: allOnes(256)}, poly{m: big1}, big.NewInt(-1))}
		}
		if m.op == "len" && m.a[0].op == "minbe" && isCoordLike(m.a[0].a[0]) {
			return []poly{polyAddScaled(poly{tOne: big.NewInt(32)}, poly{m: big1}, big.NewInt(-1))}
		}
		if m.op == "os2ip" || m.op == "minbe" {
			return []poly{{m: big1}}
		}
		return nil
	})
}

// ---------------------------------------------------------------- hash objects

// hashst(alg, transcript) or hashst(alg, transcript, key) is the state of a running hash or HMAC.
func (e *Engine) newHash(st *State, site string, alg, key *Term) *Term {
	o := e.alloc(st, site)
	if key != nil {
		st.mem[o] = mk("hashst", "", KVal, 0, alg, tEmpty, key)
	} else {
		st.mem[o] = mk("hashst", "", KVal, 0, alg, tEmpty)
	}
	return mk("hashobj", "", KVal, 0, mkPtr(o))
}

func mkHash(alg, key, data *Term) *Term {
	if key != nil {
		if alg.op == "bytes" && hashSize(alg.s) > 0 {
			return mk("fixed", "hmac", KSeq, 0, ci(int64(hashSize(alg.s))), mk("hmac", "", KSeq, 0, alg, key, data))
		}
		return mk("hmac", "", KSeq, 0, alg, key, data)
	}
	if alg.op == "bytes" {
		return mk("hash", alg.s, KSeq, 0, data)
	}
	return mk("hashv", "", KSeq, 0, alg, data)
}

func hashMethod(e *Engine, c *callCtx, h *Term, m string) []Outcome {
	st := c.st
	p := h.a[0]
	cur := e.load(st, p)
	if cur.op != "hashst" {
		return e.opaque(c)
	}
	alg, tr := cur.a[0], cur.a[1]
	var key *Term
	if len(cur.a) > 2 {
		key = cur.a[2]
	}
	with := func(t *Term) {
		if key != nil {
			e.store(st, p, mk("hashst", "", KVal, 0, alg, t, key))
		} else {
			e.store(st, p, mk("hashst", "", KVal, 0, alg, t))
		}
	}
	switch m {
	case "Write":
		b := e.seqOf(st, c.args[1])
		with(seqCat(tr, b))
		return ret(c, seqLen(b), tNil)
	case "Sum":
		return ret(c, e.newSlice(st, siteOf(c.in()), seqCat(e.seqOf(st, c.args[1]), mkHash(alg, key, tr))))
	case "Reset":
		with(tEmpty)
		return ret(c)
	case "Size":
		return ret(c, seqLen(mkHash(alg, key, tr)))
	case "BlockSize":
		return ret(c, mk("blocksize", "", KInt, 16, alg))
	}
	return e.opaque(c)
}

func copies(x *Term, n int64) (r []*Term) {
	for ; n > 0; n-- {
		r = append(r, x)
	}
	return
}
