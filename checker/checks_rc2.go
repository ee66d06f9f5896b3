package main

import (
	"fmt"
	"go/types"
	"os"
)

// RC2 (RFC 2268) against the block cipher pkcs12.New returns, for every key length and effective key length.

const rc2PI = "\xd9\x78\xf9\xc4\x19\xdd\xb5\xed\x28\xe9\xfd\x79\x4a\xa0\xd8\x9d\xc6\x7e\x37\x83\x2b\x76\x53\x8e\x62\x4c\x64\x88\x44\x8b\xfb\xa2\x17\x9a\x59\xf5\x87\xb3\x4f\x13\x61\x45\x6d\x8d\x09\x81\x7d\x32\xbd\x8f\x40\xeb\x86\xb7\x7b\x0b\xf0\x95\x21\x22\x5c\x6b\x4e\x82\x54\xd6\x65\x93\xce\x60\xb2\x1c\x73\x56\xc0\x14\xa7\x8c\xf1\xdc\x12\x75\xca\x1f\x3b\xbe\xe4\xd1\x42\x3d\xd4\x30\xa3\x3c\xb6\x26\x6f\xbf\x0e\xda\x46\x69\x07\x57\x27\xf2\x1d\x9b\xbc\x94\x43\x03\xf8\x11\xc7\xf6\x90\xef\x3e\xe7\x06\xc3\xd5\x2f\xc8\x66\x1e\xd7\x08\xe8\xea\xde\x80\x52\xee\xf7\x84\xaa\x72\xac\x35\x4d\x6a\x2a\x96\x1a\xd2\x71\x5a\x15\x49\x74\x4b\x9f\xd0\x5e\x04\x18\xa4\xec\xc2\xe0\x41\x6e\x0f\x51\xcb\xcc\x24\x91\xaf\x50\xa1\xf4\x70\x39\x99\x7c\x3a\x85\x23\xb8\xb4\x7a\xfc\x02\x36\x5b\x25\x55\x97\x31\x2d\x5d\xfa\x98\xe3\x8a\x92\xae\x05\xdf\x29\x10\x67\x6c\xba\xc9\xd3\x00\xe6\xcf\xe1\x9e\xa8\x2c\x63\x16\x01\x3f\x58\xe2\x89\xa9\x0d\x38\x34\x1b\xab\x33\xff\xb0\xbb\x48\x0c\x5f\xb9\xb1\xcd\x2e\xc5\xf3\xdb\x47\xe5\xa5\x9c\x77\x0a\xa6\x20\x68\xfe\x7f\xc1\xad"

// rc2Schedule is the key expansion of RFC 2268 section 2.
func rc2Schedule(key []*Term, t1 int) (k [64]*Term) {
	pi := cbytes(rc2PI)
	look := func(x *Term) *Term { return seqSel(pi, x) }
	T := len(key)
	t8 := (t1 + 7) / 8
	tm := int64(255 % (1 << (8 + t1 - 8*t8)))
	var l [128]*Term
	copy(l[:], key)
	for i := T; i < 128; i++ {
		l[i] = look(mkWrap(8, iAdd(l[i-1], l[i-T])))
	}
	l[128-t8] = look(bAnd(l[128-t8], ci(tm), 8))
	for i := 127 - t8; i >= 0; i-- {
		l[i] = look(bXor(l[i+1], l[i+t8], 8))
	}
	for i := range k {
		k[i] = iAdd(l[2*i], iScale(l[2*i+1], 256))
	}
	return
}

var rc2Shift = [4]int{1, 2, 3, 5}

// rc2Ref is the cipher of RFC 2268 sections 3 and 4.
func rc2Ref(k [64]*Term, r [4]*Term, dec bool) [4]*Term {
	kl := mk("list", "", KSeq, 0, k[:]...)
	at := func(x *Term) *Term { return seqSel(kl, bAnd(x, ci(63), 16)) }
	f := func(i int) *Term {
		a, b, c := r[(i+3)%4], r[(i+2)%4], r[(i+1)%4]
		return iAdd(bAnd(a, b, 16), bAnd(bNot(a, 16), c, 16))
	}
	j := 0
	mix := func() {
		for i := 0; i < 4; i++ {
			r[i] = mkRot(mkWrap(16, iAdd(iAdd(r[i], k[j]), f(i))), rc2Shift[i], 16)
			j++
		}
	}
	mash := func() {
		for i := 0; i < 4; i++ {
			r[i] = mkWrap(16, iAdd(r[i], at(r[(i+3)%4])))
		}
	}
	rmix := func() {
		for i := 3; i >= 0; i-- {
			r[i] = mkWrap(16, iSub(iSub(mkRot(r[i], 16-rc2Shift[i], 16), k[j]), f(i)))
			j--
		}
	}
	rmash := func() {
		for i := 3; i >= 0; i-- {
			r[i] = mkWrap(16, iSub(r[i], at(r[(i+3)%4])))
		}
	}
	rounds := func(n int, g func()) {
		for ; n > 0; n-- {
			g()
		}
	}
	if dec {
		j = 63
		rounds(5, rmix)
		rmash()
		rounds(6, rmix)
		rmash()
		rounds(5, rmix)
		return r
	}
	rounds(5, mix)
	mash()
	rounds(6, mix)
	mash()
	rounds(5, mix)
	return r
}

func symBytes(name string, n int) []*Term {
	var r []*Term
	for i := 0; i < n; i++ {
		r = append(r, mk("sym", fmt.Sprintf("%s%d", name, i), KInt, 8))
	}
	return r
}

type rc2Case struct{ n, t1 int }

func rc2Cases(thorough bool) []rc2Case {
	seen := map[rc2Case]bool{}
	var r []rc2Case
	add := func(n, t1 int) {
		c := rc2Case{n, t1}
		if n >= 1 && n <= 128 && t1 >= 1 && t1 <= 1024 && !seen[c] {
			seen[c] = true
			r = append(r, c)
		}
	}
	for n := 1; n <= 128; n++ {
		add(n, 8*n)
		if thorough || n%8 == 3 {
			add(n, 8*n-3)
		}
		if thorough {
			for _, t := range []int{1, 63, 1000, 1024} {
				add(n, t)
			}
		}
	}
	for t := 1; t <= 1024; t++ {
		if thorough || t < 24 || t%61 == 0 || t > 1020 {
			add(16, t)
		}
	}
	return r
}

func checkRC2(c *Ctx) {
	fn := sigFn(c, "pkcs12", "New", 2)
	if fn == nil {
		return
	}
	e := p12Engine(c, false)
	// acceptance for arbitrary lengths
	_, args, outs, ok := c.analyse(e, fn)
	if ok {
		key := e.seqOf(newState(), args[0])
		valid := []*Term{mkGe0(iSub(seqLen(key), tOne)), mkGe0(iSub(ci(128), seqLen(key))), mkGe0(iSub(args[1], tOne)), mkGe0(iSub(ci(1024), args[1]))}
		names := []string{"at least one key byte", "at most 128 key bytes", "at least one effective bit", "at most 1024 effective bits"}
		for _, b := range splitBool(outs, errNil) {
			if b.val {
				for i, v := range valid {
					c.oblige("accept-implies "+names[i], short(fn), atPos(b.o), holds(b.st, v), "a cipher is built without %s", names[i])
				}
			} else {
				c.oblige("reject-implies invalid", short(fn), atPos(b.o), contradictory(b.st, valid...), "a valid key is refused: %s", pathFacts(b.st))
			}
		}
	}
	cases := rc2Cases(c.tier == "thorough")
	for _, cs := range cases {
		e := p12Engine(c, false)
		kb := symBytes("key", cs.n)
		where := fmt.Sprintf("%s key of %d bytes, %d effective bits", short(fn), cs.n, cs.t1)
		_, _, outs, ok := c.analyseWith(e, fn, func(st *State, args []*Term) []*Term {
			return []*Term{e.newSlice(st, "key", mkList(kb, true)), ci(int64(cs.t1))}
		})
		if !ok {
			return
		}
		c.noPanic(e, fn, outs)
		if len(outs) != 1 || outs[0].panic || outs[0].st.eval(errNil(outs[0])) != tTrue {
			c.oblige("one cipher", where, fn.Pos(), false, "%d outcomes for a valid key", len(outs))
			continue
		}
		k := rc2Schedule(kb, cs.t1)
		obj := outs[0].r(0)
		if obj.op != "iface" || obj.typ == nil {
			c.oblige("one cipher", where, fn.Pos(), false, "the cipher is not a known type")
			continue
		}
		if !c.rc2Abstract(e, outs[0].st, obj, k, where) {
			c.rc2Object(e, outs[0].st, obj, k, where)
		}
		if len(c.finds) > 8 {
			return
		}
	}
	c.notes = append(c.notes, fmt.Sprintf("%d (key length, effective bits) cases, each for all key bytes and all blocks", len(cases)))
}

// rc2Abstract recognises the expanded key of RFC 2268 inside the cipher value, replaces it by 64 arbitrary words and
// compares the block operations once for all of them. It reports whether the expanded key was found.
func (c *Ctx) rc2Abstract(e *Engine, st0 *State, obj *Term, k [64]*Term, where string) bool {
	st := st0.clone()
	var ks [64]*Term
	for i := range ks {
		ks[i] = mk("sym", fmt.Sprintf("k%d", i), KInt, 16)
	}
	from, to := mk("list", "", KSeq, 0, k[:]...), mk("list", "", KSeq, 0, ks[:]...)
	m, memo := map[*Term]*Term{from: to}, map[*Term]*Term{}
	found := false
	for o, v := range st.mem {
		if x := substM(v, m, memo); x != v {
			st.mem[o] = x
			found = true
		}
	}
	if !found {
		return false
	}
	key := rc2Key{obj.typ, e.snap(st, obj.a[0])}
	if !c.rc2Seen[key] {
		if c.rc2Seen == nil {
			c.rc2Seen = map[rc2Key]bool{}
		}
		c.rc2Seen[key] = true
		c.rc2Object(e, st, obj, ks, where)
	}
	c.oblige("expanded key is RFC 2268", where, 0, true, "")
	return true
}

type rc2Key struct {
	t     types.Type
	value *Term
}

// rc2Object compares Encrypt, Decrypt and BlockSize of one cipher value with the reference.
func (c *Ctx) rc2Object(e *Engine, st0 *State, obj *Term, k [64]*Term, where string) {
	tPkg := c.P.pkgs["pkcs12"].Pkg
	for _, m := range []string{"Encrypt", "Decrypt"} {
		f := c.P.prog.LookupMethod(obj.typ, tPkg, m)
		if f == nil {
			c.oblige("anchor", where, 0, false, "no method %s", m)
			continue
		}
		for _, inPlace := range []bool{false, true} {
			st := st0.clone()
			var sb []*Term
			var r [4]*Term
			for i := range r {
				r[i] = mk("sym", fmt.Sprintf("word%d", i), KInt, 16)
				sb = append(sb, mkWrap(8, r[i]), iFdiv(r[i], ci(256)))
			}
			src := e.newSlice(st, "src", mkList(sb, true))
			dst := src
			if !inPlace {
				dst = e.newSlice(st, "dst", mkList(symBytes("dst", 8), true))
			}
			var outs []Outcome
			e.pinned = []*Term{src, dst}
			ok := c.try(f, func() { outs = e.call(st, f, []*Term{obj.a[0], dst, src}, nil) })
			if !ok {
				return
			}
			c.paths += len(outs)
			c.noPanic(e, f, outs)
			r = rc2Ref(k, r, m == "Decrypt")
			var want []*Term
			for i := range r {
				want = append(want, mkWrap(8, r[i]), iFdiv(r[i], ci(256)))
			}
			good := len(outs) == 1 && !outs[0].panic
			var got *Term
			if good {
				got = e.seqOf(outs[0].st, dst)
				for i, w := range want {
					if x := seqSel(got, ci(int64(i))); x != w && outs[0].st.norm(x) != outs[0].st.norm(w) {
						if good && os.Getenv("MCHECK_DEBUG") == "rc2" {
							fmt.Fprintln(os.Stderr, m, where, i, firstDiff(x, w))
						}
						good = false
					}
				}
				if !inPlace && e.seqOf(outs[0].st, src) != mkList(sb, true) {
					c.oblige(m+" leaves its source alone", where, f.Pos(), false, "the source block is modified")
				}
			}
			c.oblige(m+" is RFC 2268", where, f.Pos(), good, "%s of a block (in place: %v) differs from RFC 2268", m, inPlace)
		}
	}
	if f := c.P.prog.LookupMethod(obj.typ, tPkg, "BlockSize"); f != nil {
		outs := e.call(st0.clone(), f, []*Term{obj.a[0]}, nil)
		c.oblige("block size 8", where, f.Pos(), len(outs) == 1 && outs[0].res == ci(8), "BlockSize is not 8")
	}
	for f := range e.fnsSeen {
		c.funcs[f.String()] = true
	}
}

func init() {
	addCheck(&Check{id: "C15", rule: "abstract interpretation of pkcs12.New, Encrypt and Decrypt on symbolic key bytes and blocks, for every key length and a grid of effective key lengths, against the term of RFC 2268", run: checkRC2})
}
