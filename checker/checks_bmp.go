package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C16: BMPString encoding and decoding.

func checkBMP(c *Ctx) {
	enc := fnBySig(c, "pkcs12", "bmpString", "func(string) ([]byte, error)")
	dec := fnBySig(c, "pkcs12", "decodeBMPString", "func([]byte) (string, error)")
	if !c.oblige("anchor", "pkcs12.bmpString", 0, enc != nil, "the encoder of BMP strings is not found") {
		return
	}
	if !c.oblige("anchor", "pkcs12.decodeBMPString", 0, dec != nil, "the decoder of BMP strings is not found") {
		return
	}
	e := p12Engine(c, false)
	_, args, outs, ok := c.analyseWith(e, enc, nil)
	if !ok {
		return
	}
	c.noPanic(e, enc, outs)
	rs := mkRunes(args[0])
	n := seqLen(rs)
	b := bvar(rs)
	want := seqCat(mkRep(b, mkBE(2, seqSel(rs, b)), n), cbytes("\x00\x00"))
	allBMP := mkForall(b, mkGe0(iSub(ci(65535), seqSel(rs, b))), n)
	good := 0
	for _, o := range outs {
		if o.panic {
			continue
		}
		switch failed := errNil(o); {
		case failed == tTrue:
			good++
			c.oblige("success only when every character is in the Basic Multilingual Plane", short(enc), atPos(o), holds(o.st, allBMP), "no path fact excludes characters above U+FFFF")
			got := e.seqOf(o.st, o.r(0))
			c.oblige("two big-endian bytes for each character and a zero terminator", short(enc), atPos(o), sameSeq(o.st, got, want), "%s", firstDiff(got, want))
		case failed == tFalse:
			found := false
			for f := range o.st.facts {
				subterms(f, func(t *Term) {
					if !found && t.op == "sel" && t.a[0] == rs {
						found = holds(o.st, mkGe0(iSub(t, ci(65536)))) && holds(o.st, mkGe0(t.a[1])) && holds(o.st, mkGe0(iSub(iSub(n, t.a[1]), tOne)))
					}
				})
			}
			c.oblige("failure only for a character above U+FFFF", short(enc), atPos(o), found, "a string in the Basic Multilingual Plane may be refused")
		default:
			c.oblige("the outcome is decided", short(enc), atPos(o), false, "error may or may not be nil")
		}
	}
	c.oblige("some path succeeds", short(enc), enc.Pos(), good > 0, "")

	e = p12Engine(c, false)
	entry, args, outs, ok := c.analyseWith(e, dec, nil)
	if !ok {
		return
	}
	c.noPanic(e, dec, outs)
	c.bmpDecoder(e, dec, e.seqOf(entry, args[0]), outs)
}

// bmpDecoder: dec returns the characters of the big-endian UTF-16 units in in, without one terminator.
func (c *Ctx) bmpDecoder(e *Engine, dec *ssa.Function, in *Term, outs []Outcome) {
	good := 0
	l := seqLen(in)
	odd := mkEqInt(mkWrap(1, l), tOne)
	term := mkAnd(mkGe0(iSub(l, ci(2))), mkEq0(seqSel(in, iSub(l, ci(1)))), mkEq0(seqSel(in, iSub(l, ci(2)))))
	for _, o := range outs {
		if o.panic {
			continue
		}
		switch errNil(o) {
		case tFalse:
			c.oblige("failure only for an odd number of bytes", short(dec), atPos(o), holds(o.st, odd), "an even number of bytes may be refused")
		case tTrue:
			good++
			c.oblige("success only for an even number of bytes", short(dec), atPos(o), holds(o.st, bnot(odd)), "")
			ok := true
			got := o.r(0)
			for _, is := range []string{"terminated", "not terminated", "empty"} {
				s, x, cnt := o.st.clone(), term, iFdiv(l, ci(2))
				switch is {
				case "terminated":
					cnt = iSub(cnt, tOne)
				case "not terminated":
					x = mkAnd(bnot(term), mkGe0(iSub(l, ci(2))))
					if !s.assume(mkGe0(iSub(l, ci(2)))) {
						continue
					}
				case "empty":
					x, cnt = mkEq0(l), tZero
				}
				if s.assume(x) && !refuted(s, 0) {
					ok = ok && sameString(e, s, got, in, cnt)
				}
			}
			c.oblige("the characters are the big-endian pairs without the terminator", short(dec), atPos(o), ok, "%s on %s", got.str(12), pathFacts(o.st))
		default:
			c.oblige("the outcome is decided", short(dec), atPos(o), false, "error may or may not be nil")
		}
	}
	c.oblige("some path succeeds", short(dec), dec.Pos(), good > 0, "")
}

// sameString: got is the string of the UTF-16 units of the first n pairs of in.
func sameString(e *Engine, st *State, got, in, n *Term) bool {
	if got.op != "runes2str" {
		return false
	}
	d := got.a[0]
	if d.op != "app" || d.s != "unicode/utf16.Decode" {
		return false
	}
	units := e.seqOf(st, d.a[0])
	if !holds(st, mkEqInt(seqLen(units), n)) {
		return false
	}
	b := bvar(in)
	pair := os2ip(seqSub(in, iScale(b, 2), iAdd(iScale(b, 2), ci(2))))
	if units.op == "rep" {
		return substOne(units.a[1], units.a[0], b) == mkList([]*Term{pair}, false)
	}
	if units.op == "map" {
		return substOne(units.a[1], units.a[0], b) == pair
	}
	// element by element for an arbitrary index
	i := sym("i:unit", types.Typ[types.Int])
	s := st.clone()
	if !s.assume(mkGe0(i)) || !s.assume(mkGe0(iSub(iSub(n, i), tOne))) {
		return true // no units
	}
	return holds(s, mkEqInt(seqSel(units, i), substOne(pair, b, i)))
}

func init() {
	addCheck(&Check{id: "C16", rule: "abstract interpretation of the BMPString encoder and decoder: every return path against the UCS-2 formula", run: checkBMP})
}
