package main

import (
	"go/types"
	"strings"
)

// cryptobyte: Builders accumulate a byte sequence; Strings are read by pure functions of their content.

func tlv(tag, content *Term) *Term { return mk("tlv", "", KSeq, 0, tag, content) }

func (e *Engine) cbbContent(c *callCtx, p *Term) *Term {
	v := e.load(c.st, p)
	if v.op == "cbb" {
		return v.a[0]
	}
	return tEmpty
}

func (e *Engine) cbbSet(c *callCtx, p, s *Term) {
	e.store(c.st, p, mk("cbb", "", KVal, 0, s))
}

func init() {
	const B = "(*golang.org/x/crypto/cryptobyte.Builder)."
	const S = "(*golang.org/x/crypto/cryptobyte.String)."
	const V = "(golang.org/x/crypto/cryptobyte.String)."
	app := func(f func(e *Engine, c *callCtx) *Term) Model {
		return func(e *Engine, c *callCtx) []Outcome {
			e.cbbSet(c, c.args[0], seqCat(e.cbbContent(c, c.args[0]), f(e, c)))
			return ret(c)
		}
	}
	reg("golang.org/x/crypto/cryptobyte.NewBuilder", func(e *Engine, c *callCtx) []Outcome {
		return ret(c, e.newPtr(c.st, siteOf(c.in()), mk("cbb", "", KVal, 0, e.seqOf(c.st, c.args[0]))))
	})
	reg(B+"AddBytes", app(func(e *Engine, c *callCtx) *Term { return e.seqOf(c.st, c.args[1]) }))
	reg(B+"AddUint8", app(func(e *Engine, c *callCtx) *Term { return mkList([]*Term{c.args[1]}, true) }))
	reg(B+"AddUint16", app(func(e *Engine, c *callCtx) *Term { return mkBE(2, c.args[1]) }))
	reg(B+"AddUint32", app(func(e *Engine, c *callCtx) *Term { return mkBE(4, c.args[1]) }))
	derint := func(x *Term) *Term { return tlv(ci(2), mk("derint", "", KSeq, 0, x)) }
	reg(B+"AddASN1BigInt", app(func(e *Engine, c *callCtx) *Term { return derint(e.bigVal(c.st, c.args[1])) }))
	reg(B+"AddASN1Int64", app(func(e *Engine, c *callCtx) *Term { return derint(c.args[1]) }))
	reg(B+"AddASN1Uint64", app(func(e *Engine, c *callCtx) *Term { return derint(c.args[1]) }))
	reg(B+"AddASN1OctetString", app(func(e *Engine, c *callCtx) *Term { return tlv(ci(4), e.seqOf(c.st, c.args[1])) }))
	reg(B+"AddASN1ObjectIdentifier", app(func(e *Engine, c *callCtx) *Term {
		return tlv(ci(6), mk("deroid", "", KSeq, 0, e.snap(c.st, c.args[1])))
	}))
	reg(B+"AddASN1Boolean", app(func(e *Engine, c *callCtx) *Term { return tlv(ci(1), mk("derbool", "", KSeq, 0, c.args[1])) }))
	reg(B+"AddASN1BitString", app(func(e *Engine, c *callCtx) *Term {
		return tlv(ci(3), seqCat(cbytes("\x00"), e.seqOf(c.st, c.args[1])))
	}))
	reg(B+"AddASN1NULL", app(func(e *Engine, c *callCtx) *Term { return tlv(ci(5), tEmpty) }))
	reg(B+"AddASN1", func(e *Engine, c *callCtx) []Outcome {
		child := e.newPtr(c.st, siteOf(c.in()), mk("cbb", "", KVal, 0, tEmpty))
		f := c.args[2]
		if f.fn == nil {
			return e.opaque(c)
		}
		var outs []Outcome
		pin := len(e.pinned)
		e.pinned = append(append(e.pinned, child), c.args...)
		rs := e.callFrom(c, c.st, f.fn, []*Term{child}, f.a)
		e.pinned = e.pinned[:pin]
		for _, o := range rs {
			if o.panic {
				outs = append(outs, o)
				continue
			}
			cc := *c
			cc.st = o.st
			s := e.cbbContent(&cc, child)
			e.cbbSet(&cc, c.args[0], seqCat(e.cbbContent(&cc, c.args[0]), tlv(c.args[1], s)))
			outs = append(outs, Outcome{st: o.st})
		}
		return outs
	})
	reg(B+"Bytes", func(e *Engine, c *callCtx) []Outcome {
		s := e.cbbContent(c, c.args[0])
		sl := e.newSlice(c.st, siteOf(c.in()), s)
		return ret(c, sl, mkTyped("app", "cbb.err", c.rtype(1), s))
	})
	reg(B+"BytesOrPanic", func(e *Engine, c *callCtx) []Outcome {
		return ret(c, e.newSlice(c.st, siteOf(c.in()), e.cbbContent(c, c.args[0])))
	})

	// ---- String readers: fork on success
	read := func(name string, f func(e *Engine, c *callCtx, s *Term) (key []*Term, outs func(c *callCtx))) Model {
		return func(e *Engine, c *callCtx) []Outcome {
			s := e.seqOf(c.st, e.load(c.st, c.args[0]))
			key, apply := f(e, c, s)
			okT := cbOK(name, s, key...)
			v := c.st.eval(okT)
			if s == tEmpty && !strings.HasPrefix(name, "Optional") && !strings.HasPrefix(name, "SkipOptional") && !strings.HasPrefix(name, "Peek") {
				v = tFalse
			}
			good := func(st *State) Outcome {
				cc := *c
				cc.st = st
				// the remainder is stored first: s.ReadASN1(&s, tag) leaves the contents in s
				e.setString(&cc, c.args[0], cbRest(name, s, key...))
				apply(&cc)
				return Outcome{st: st, res: tTrue}
			}
			switch v {
			case tTrue:
				return []Outcome{good(c.st)}
			case tFalse:
				return []Outcome{{st: c.st, res: tFalse}}
			}
			st2 := c.st.clone()
			var outs []Outcome
			if c.st.assume(okT) {
				outs = append(outs, good(c.st))
			}
			if st2.assume(bnot(okT)) {
				outs = append(outs, Outcome{st: st2, res: tFalse})
			}
			return outs
		}
	}
	// the element and the rest are the whole
	elem := func(c *callCtx, s *Term) {
		el, rest := seqLen(cbElem(s)), seqLen(cbRest("ASN1", s))
		c.st.assume(mkEqInt(seqLen(s), iAdd(el, rest)))
		c.st.assume(mkGe0(iSub(el, ci(2))))
	}
	setOut := func(e *Engine, c *callCtx, p, v *Term) {
		if p != tNil {
			e.setString(c, p, v)
		}
	}
	reg(S+"ReadASN1", read("ASN1", func(e *Engine, c *callCtx, s *Term) ([]*Term, func(*callCtx)) {
		return []*Term{c.args[2]}, func(c *callCtx) { setOut(e, c, c.args[1], cbVal(s)) }
	}))
	reg(S+"ReadASN1Bytes", read("ASN1", func(e *Engine, c *callCtx, s *Term) ([]*Term, func(*callCtx)) {
		return []*Term{c.args[2]}, func(c *callCtx) { setOut(e, c, c.args[1], cbVal(s)) }
	}))
	reg(S+"ReadASN1Element", read("ASN1", func(e *Engine, c *callCtx, s *Term) ([]*Term, func(*callCtx)) {
		return []*Term{c.args[2]}, func(c *callCtx) {
			elem(c, s)
			setOut(e, c, c.args[1], cbElem(s))
		}
	}))
	reg(S+"ReadAnyASN1", read("Any", func(e *Engine, c *callCtx, s *Term) ([]*Term, func(*callCtx)) {
		return nil, func(c *callCtx) {
			setOut(e, c, c.args[1], cbVal(s))
			if c.args[2] != tNil {
				e.store(c.st, c.args[2], e.cbTag(s))
			}
		}
	}))
	reg(S+"ReadAnyASN1Element", read("Any", func(e *Engine, c *callCtx, s *Term) ([]*Term, func(*callCtx)) {
		return nil, func(c *callCtx) {
			elem(c, s)
			setOut(e, c, c.args[1], cbElem(s))
			if c.args[2] != tNil {
				e.store(c.st, c.args[2], e.cbTag(s))
			}
		}
	}))
	reg(S+"SkipASN1", read("ASN1", func(e *Engine, c *callCtx, s *Term) ([]*Term, func(*callCtx)) {
		return []*Term{c.args[1]}, func(c *callCtx) {}
	}))
	reg(S+"ReadASN1Integer", func(e *Engine, c *callCtx) []Outcome {
		out := c.args[1]
		key := cbytes("")
		var ptr *Term
		if out.op == "iface" {
			key = cbytes(out.s)
			ptr = out.a[0]
		}
		return read("Integer", func(e *Engine, c *callCtx, s *Term) ([]*Term, func(*callCtx)) {
			return []*Term{key}, func(c *callCtx) {
				if ptr != nil && ptr.op == "ptr" {
					e.store(c.st, ptr, mk("cb.int", key.s, KInt, 0, s))
				}
			}
		})(e, c)
	})
	typed := func(name string, i int) {
		reg(S+name, read(strings.TrimPrefix(name, "Read"), func(e *Engine, c *callCtx, s *Term) ([]*Term, func(*callCtx)) {
			var key []*Term
			for _, a := range c.args[i+1:] {
				key = append(key, e.snap(c.st, a))
			}
			return key, func(c *callCtx) {
				p := c.args[i]
				if p == tNil || p.op != "ptr" {
					return
				}
				t := deref(c.sig.Params().At(i - 1).Type())
				e.store(c.st, p, mkTyped("cb.get", name, t, append([]*Term{s}, key...)...))
			}
		}))
	}
	typed("ReadASN1ObjectIdentifier", 1)
	typed("ReadASN1BitString", 1)
	typed("ReadASN1BitStringAsBytes", 1)
	typed("ReadASN1Boolean", 1)
	typed("ReadASN1UTCTime", 1)
	typed("ReadASN1GeneralizedTime", 1)
	typed("ReadASN1Enum", 1)
	typed("ReadASN1Int64WithTag", 1)
	typed("ReadUint8", 1)
	typed("ReadUint16", 1)
	typed("ReadBytes", 1)
	// absent: nothing changes; present: as ReadASN1
	optional := func(e *Engine, c *callCtx, tag *Term, present, out *Term) (outs []Outcome) {
		s := e.seqOf(c.st, e.load(c.st, c.args[0]))
		is := mk("cb.present", "", KBool, 0, s, tag)
		set := func(st *State, v *Term) {
			if present != nil && present != tNil {
				e.store(st, present, v)
			}
		}
		st2 := c.st.clone()
		if c.st.eval(is) != tFalse && s != tEmpty && c.st.assume(is) {
			cc := *c
			set(c.st, tTrue)
			outs = read("ASN1", func(e *Engine, c *callCtx, s *Term) ([]*Term, func(*callCtx)) {
				return []*Term{tag}, func(c *callCtx) {
					if out != nil {
						setOut(e, c, out, cbVal(s))
					}
				}
			})(e, &cc)
		}
		if st2.assume(bnot(is)) {
			set(st2, tFalse)
			outs = append(outs, Outcome{st: st2, res: tTrue})
		}
		return outs
	}
	reg(S+"ReadOptionalASN1", func(e *Engine, c *callCtx) []Outcome {
		return optional(e, c, c.args[3], c.args[2], c.args[1])
	})
	reg(S+"SkipOptionalASN1", func(e *Engine, c *callCtx) []Outcome {
		return optional(e, c, c.args[1], nil, nil)
	})
	reg(S+"ReadOptionalASN1Integer", func(e *Engine, c *callCtx) []Outcome {
		out, tag := c.args[1], c.args[2]
		key := cbytes("")
		var ptr *Term
		if out.op == "iface" {
			key, ptr = cbytes(out.s), out.a[0]
		}
		def := e.snap(c.st, c.args[3])
		return read("OptionalInteger", func(e *Engine, c *callCtx, s *Term) ([]*Term, func(*callCtx)) {
			return []*Term{key, tag, def}, func(c *callCtx) {
				if ptr != nil && ptr.op == "ptr" {
					e.store(c.st, ptr, mk("cb.optint", key.s, KInt, 0, s, tag, def))
				}
			}
		})(e, c)
	})
	reg(S+"ReadOptionalASN1Boolean", read("OptionalBoolean", func(e *Engine, c *callCtx, s *Term) ([]*Term, func(*callCtx)) {
		key := []*Term{c.args[2]}
		if len(c.args) > 3 {
			key = append(key, c.args[3])
		}
		return key, func(c *callCtx) {
			e.store(c.st, c.args[1], mk("cb.optbool", "", KBool, 0, append([]*Term{s}, key...)...))
		}
	}))
	reg(S+"ReadOptionalASN1OctetString", read("OptionalOctetString", func(e *Engine, c *callCtx, s *Term) ([]*Term, func(*callCtx)) {
		return []*Term{c.args[3]}, func(c *callCtx) {
			setOut(e, c, c.args[1], mk("cb.opt", "OctetString", KSeq, 0, s, c.args[3]))
			if c.args[2] != tNil {
				e.store(c.st, c.args[2], mk("cb.present", "", KBool, 0, s, c.args[3]))
			}
		}
	}))
	reg(V+"Empty", func(e *Engine, c *callCtx) []Outcome {
		return ret(c, mkEq0(seqLen(e.seqOf(c.st, c.args[0]))))
	})
	reg(V+"PeekASN1Tag", func(e *Engine, c *callCtx) []Outcome {
		return ret(c, mk("cb.present", "", KBool, 0, e.seqOf(c.st, c.args[0]), c.args[1]))
	})
	reg(S+"Skip", read("Skip", func(e *Engine, c *callCtx, s *Term) ([]*Term, func(*callCtx)) {
		return []*Term{c.args[1]}, func(c *callCtx) {}
	}))
	reg("(golang.org/x/crypto/cryptobyte/asn1.Tag).Constructed", func(e *Engine, c *callCtx) []Outcome {
		return ret(c, bOr(c.args[0], ci(0x20), 8))
	})
	reg("(golang.org/x/crypto/cryptobyte/asn1.Tag).ContextSpecific", func(e *Engine, c *callCtx) []Outcome {
		return ret(c, bOr(c.args[0], ci(0x80), 8))
	})
}

// setString stores a byte string into a *[]byte or *cryptobyte.String variable.
func (e *Engine) setString(c *callCtx, p, s *Term) {
	o := mkObj(mk("alloc", "cbs:"+siteOf(c.in())+"#"+c.id(), KVal, 0), nil)
	c.st.mem[o] = s
	n := seqLen(s)
	e.store(c.st, p, mk("slice", "", KVal, 0, mkPtr(o), tZero, n, n))
}

func (e *Engine) cbTag(s *Term) *Term {
	if t := e.cbTags[s]; t != nil {
		return t
	}
	return mk("cb.tag", "", KInt, 8, s)
}

func init() {
	// A URL parsed without an error is there.
	reg("net/url.Parse", func(_ *Engine, c *callCtx) []Outcome {
		p := mkTyped("app", "net/url.Parse", c.sig.Results(), c.args[0])
		st2 := c.st.clone()
		var outs []Outcome
		if c.st.assume(mkIsNil(p.a[1])) && c.st.assume(bnot(mkIsNil(p.a[0]))) {
			outs = append(outs, Outcome{st: c.st, res: p})
		}
		if st2.assume(bnot(mkIsNil(p.a[1]))) {
			outs = append(outs, Outcome{st: st2, res: p})
		}
		return outs
	})
}

func init() {
	impliedHooks = append(impliedHooks, func(c *Term) []*Term {
		if c.op == "cb.present" {
			return []*Term{mkGe0(iSub(seqLen(c.a[0]), tOne))}
		}
		return nil
	})
}

func init() {
	for _, n := range []string{"strings.LastIndexByte", "strings.IndexByte", "strings.Index", "strings.LastIndex", "bytes.IndexByte", "bytes.Index"} {
		reg(n, func(e *Engine, c *callCtx) []Outcome {
			t := pure(c.name, types.Typ[types.Int], e.snap(c.st, c.args[0]), e.snap(c.st, c.args[1]))
			c.st.assume(mkGe0(iAdd(t, tOne)))
			if c.args[0].k == KSeq {
				c.st.assume(mkGe0(iSub(iSub(seqLen(c.args[0]), tOne), t)))
			}
			return ret(c, t)
		})
	}
}
