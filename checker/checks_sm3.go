package main

import (
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- reference terms

var sm3IV = []uint32{0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e}

func add32(xs ...*Term) *Term {
	r := tZero
	for _, x := range xs {
		r = iAdd(r, x)
	}
	return mkWrap(32, r)
}

func xor32(xs ...*Term) *Term {
	r := xs[0]
	for _, x := range xs[1:] {
		r = bXor(r, x, 32)
	}
	return r
}

// sm3Ref is the compression function of GB/T 32905 on chaining words h and message words w.
func sm3Ref(h [8]*Term, w0 [16]*Term) [8]*Term {
	p0 := func(x *Term) *Term { return xor32(x, mkRot(x, 9, 32), mkRot(x, 17, 32)) }
	p1 := func(x *Term) *Term { return xor32(x, mkRot(x, 15, 32), mkRot(x, 23, 32)) }
	var w [68]*Term
	copy(w[:], w0[:])
	for j := 16; j < 68; j++ {
		w[j] = xor32(p1(xor32(w[j-16], w[j-9], mkRot(w[j-3], 15, 32))), mkRot(w[j-13], 7, 32), w[j-6])
	}
	v := h
	for j := 0; j < 64; j++ {
		t := uint32(0x79cc4519)
		if j >= 16 {
			t = 0x7a879d8a
		}
		t = t<<(j%32) | t>>((32-j%32)%32)
		if j%32 == 0 {
			t = map[bool]uint32{true: 0x79cc4519, false: 0x7a879d8a}[j < 16]
		}
		a, b, c, d, e, f, g, hh := v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]
		a12 := mkRot(a, 12, 32)
		ss1 := mkRot(add32(a12, e, ci(int64(t))), 7, 32)
		ss2 := xor32(ss1, a12)
		var ff, gg *Term
		if j < 16 {
			ff, gg = xor32(a, b, c), xor32(e, f, g)
		} else {
			ff = bOr(bOr(bAnd(a, b, 32), bAnd(a, c, 32), 32), bAnd(b, c, 32), 32)
			gg = bOr(bAnd(e, f, 32), bAnd(bNot(e, 32), g, 32), 32)
		}
		tt1 := add32(ff, d, ss2, xor32(w[j], w[j+4]))
		tt2 := add32(gg, hh, ss1, w[j])
		v = [8]*Term{tt1, a, mkRot(b, 9, 32), c, p0(tt2), e, mkRot(f, 19, 32), g}
	}
	for i := range v {
		v[i] = xor32(v[i], h[i])
	}
	return v
}

// mkFoldc is word i of the chaining value after compressing seq (whole blocks) from the words in list.
func mkFoldc(i int, list, seq *Term) *Term {
	if seq == tEmpty {
		return list.a[i]
	}
	inner := list.a[0]
	if inner.op == "foldc" {
		all := len(list.a) == 8
		for j, x := range list.a {
			if x.op != "foldc" || x.s != strconv.Itoa(j) || x.a[0] != inner.a[0] || x.a[1] != inner.a[1] {
				all = false
			}
		}
		if all {
			return mkFoldc(i, inner.a[0], seqCat(inner.a[1], seq))
		}
	}
	return mk("foldc", strconv.Itoa(i), KInt, 32, list, seq)
}

func foldWords(h [8]*Term, seq *Term) (r [8]*Term) {
	l := mk("list", "", KSeq, 0, h[:]...)
	for i := range r {
		r[i] = mkFoldc(i, l, seq)
	}
	return
}

func bytesOfWords(h [8]*Term) *Term {
	var p []*Term
	for _, x := range h {
		p = append(p, mkBE(4, x))
	}
	return seqCat(p...)
}

func blocks64(n *Term) *Term { return iScale(iFdiv(n, ci(64)), 64) }

// seqSame compares sequences under the facts.
func seqSame(st *State, a, b *Term) bool {
	a, b = st.norm(st.norm(a)), st.norm(st.norm(b))
	if a == b {
		return true
	}
	return matchPieces(st, pieces(a), pieces(b))
}

func intSame(st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	a, b = st.norm(st.norm(a)), st.norm(st.norm(b))
	if a == b || st.eval(mkEqInt(a, b)) == tTrue {
		return true
	}
	if a.op == "foldc" && b.op == "foldc" && a.s == b.s && a.a[0] == b.a[0] {
		return seqSame(st, a.a[1], b.a[1])
	}
	// one side compresses nothing under the facts
	if a.op == "foldc" || b.op == "foldc" {
		if a.op != "foldc" {
			a, b = b, a
		}
		if st.eval(mkEq0(seqLen(a.a[1]))) == tTrue {
			i, _ := strconv.Atoi(a.s)
			return a.a[0].a[i] == b
		}
	}
	return false
}

func pieces(t *Term) []*Term {
	switch t.op {
	case "cat":
		return t.a
	case "sub":
		// a constant prefix of a constant string whose tail is one repeated byte
		if x := t.a[0]; x.op == "bytes" && t.a[1] == tZero {
			n := len(x.s)
			for n > 0 && x.s[n-1] == x.s[len(x.s)-1] {
				n--
			}
			if n < len(x.s) {
				return []*Term{cbytes(x.s[:n]), mkFill(ci(int64(x.s[len(x.s)-1])), iSub(t.a[2], ci(int64(n))))}
			}
		}
	}
	return []*Term{t}
}

// matchPieces aligns two piece lists, dropping pieces that are empty under the facts.
func matchPieces(st *State, a, b []*Term) bool {
	var fa, fb []*Term
	for _, x := range a {
		fa = append(fa, pieces(x)...)
	}
	for _, x := range b {
		fb = append(fb, pieces(x)...)
	}
	drop := func(l []*Term) []*Term {
		var o []*Term
		for _, x := range l {
			if n := st.norm((seqLen(x))); n == tZero || st.eval(mkEq0(n)) == tTrue {
				continue
			}
			if len(o) > 0 {
				p := o[len(o)-1]
				if m := seqJoin2(p, x); m != nil {
					o[len(o)-1] = m
					continue
				}
				if p.op == "sub" && x.op == "sub" && p.a[0] == x.a[0] && st.eval(mkEqInt(p.a[2], x.a[1])) == tTrue {
					o[len(o)-1] = mkSub0(p.a[0], p.a[1], x.a[2])
					continue
				}
				if p.op == "fill" && x.op == "fill" && p.a[0] == x.a[0] {
					o[len(o)-1] = mkFill(p.a[0], iAdd(p.a[1], x.a[1]))
					continue
				}
			}
			o = append(o, x)
		}
		return o
	}
	fa, fb = drop(fa), drop(fb)
	for len(fa) > 0 && len(fb) > 0 {
		x, y := fa[0], fb[0]
		if pieceSame(st, x, y) {
			fa, fb = fa[1:], fb[1:]
			continue
		}
		// split a fill or a window
		if r, ok := splitOff(st, x, y); ok {
			fa[0] = r
			fb = fb[1:]
			continue
		}
		if r, ok := splitOff(st, y, x); ok {
			fb[0] = r
			fa = fa[1:]
			continue
		}
		return false
	}
	return len(fa) == 0 && len(fb) == 0
}

// splitOff removes prefix y from x when both read the same base.
func splitOff(st *State, x, y *Term) (*Term, bool) {
	n := seqLen(y)
	if x.op == "fill" && y.op == "fill" && x.a[0] == y.a[0] && st.entails(mkGe0(iSub(seqLen(x), n))) {
		return mkFill(x.a[0], iSub(x.a[1], n)), true
	}
	if x.op == "fill" && y.op == "bytes" && isConst(x.a[0]) {
		for i := 0; i < len(y.s); i++ {
			if ci(int64(y.s[i])) != x.a[0] {
				return nil, false
			}
		}
		if st.entails(mkGe0(iSub(seqLen(x), n))) {
			return mkFill(x.a[0], iSub(x.a[1], n)), true
		}
	}
	bx, lx, hx := window(x)
	by, ly, _ := window(y)
	if bx == by && st.eval(mkEqInt(lx, ly)) == tTrue && st.entails(mkGe0(iSub(seqLen(x), n))) {
		return mkSub0(bx, iAdd(lx, n), hx), true
	}
	return nil, false
}

func window(x *Term) (b, lo, hi *Term) {
	if x.op == "sub" {
		return x.a[0], x.a[1], x.a[2]
	}
	return x, tZero, seqLen(x)
}

func pieceSame(st *State, x, y *Term) bool {
	if x == y {
		return true
	}
	if x.op == "be" && y.op == "be" && x.a[0] == y.a[0] {
		return intSame(st, x.a[1], y.a[1])
	}
	if x.op == "fill" && y.op == "fill" && x.a[0] == y.a[0] {
		return st.eval(mkEqInt((x.a[1]), (y.a[1]))) == tTrue
	}
	bx, lx, hx := window(x)
	by, ly, hy := window(y)
	return bx == by && st.eval(mkEqInt((lx), (ly))) == tTrue && st.eval(mkEqInt((hx), (hy))) == tTrue
}

// ---------------------------------------------------------------- locating the state

// digestShape says where the hash state lives, by type.
type digestShape struct {
	t              types.Type // the struct
	h, x, nx, cnt  int
	newFn, sumFn   *ssa.Function
	write, sum     *ssa.Function
	reset          *ssa.Function
	size, blockSiz *ssa.Function
}

func isWords8(t types.Type) bool {
	a, ok := t.Underlying().(*types.Array)
	return ok && a.Len() == 8 && intWidth(a.Elem()) == 32
}

func sm3Shape(c *Ctx, e *Engine) *digestShape {
	d := &digestShape{h: -1, x: -1, nx: -1, cnt: -1}
	d.newFn, d.sumFn = c.fn("sm3", "New"), c.fn("sm3", "Sum")
	if d.newFn == nil || d.sumFn == nil {
		return nil
	}
	_, _, outs, ok := c.analyse(e, d.newFn)
	if !ok || len(outs) != 1 || outs[0].panic || outs[0].res.op != "iface" || outs[0].res.typ == nil {
		c.oblige("anchor", "sm3.New", d.newFn.Pos(), false, "New does not return one concrete hash")
		return nil
	}
	pt := outs[0].res.typ
	d.t = deref(pt)
	s := structType(d.t)
	if s == nil {
		c.oblige("anchor", "sm3.New", d.newFn.Pos(), false, "the hash is not a pointer to a struct but %s", pt)
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		t := s.Field(i).Type()
		b, isB := t.Underlying().(*types.Basic)
		a, isA := t.Underlying().(*types.Array)
		switch {
		case isWords8(t):
			d.h = i
		case isA && isByteType(a.Elem()) && a.Len() == 64:
			d.x = i
		case isB && b.Kind() == types.Uint64 && d.cnt < 0:
			d.cnt = i
		case isB && b.Info()&types.IsInteger != 0:
			d.nx = i
		}
	}
	if d.h < 0 || d.x < 0 || d.nx < 0 || d.cnt < 0 {
		c.oblige("anchor", "sm3 state", d.newFn.Pos(), false, "cannot identify chaining words, buffer, fill level and byte count in %s", d.t)
		return nil
	}
	m := func(n string) *ssa.Function {
		f := c.P.prog.LookupMethod(pt, nil, n)
		if f == nil || f.Blocks == nil {
			c.oblige("anchor", "sm3 "+n, d.newFn.Pos(), false, "no method %s", n)
			return nil
		}
		return f
	}
	d.write, d.sum, d.reset, d.size, d.blockSiz = m("Write"), m("Sum"), m("Reset"), m("Size"), m("BlockSize")
	if d.write == nil || d.sum == nil || d.reset == nil || d.size == nil || d.blockSiz == nil {
		return nil
	}
	return d
}

// ---------------------------------------------------------------- the compression function

type compSummary struct {
	fn     *ssa.Function
	hArg   int
	hPath  []*Term // from the pointee to the words
	pArg   int
	single bool // compresses exactly one block
}

// wordsAt finds the pointer path from a parameter of type t to eight 32-bit words.
func wordsAt(t types.Type) ([]*Term, bool) {
	d := deref(t)
	if d == nil {
		return nil, false
	}
	if isWords8(d) {
		return nil, true
	}
	if s := structType(d); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			if isWords8(s.Field(i).Type()) {
				return []*Term{pField(d, i)}, true
			}
		}
	}
	return nil, false
}

func isByteParam(t types.Type) bool {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return isByteType(s.Elem())
	}
	if d := deref(t); d != nil {
		if a, ok := d.Underlying().(*types.Array); ok {
			return isByteType(a.Elem()) && a.Len() == 64
		}
	}
	return false
}

func loadWords(e *Engine, st *State, p *Term, path []*Term) (h [8]*Term) {
	seq := e.load(st, mkPtr(p.a[0], append(append([]*Term(nil), p.a[1:]...), path...)...))
	for i := range h {
		h[i] = seqSelC(seq, ci(int64(i)), st.cmp)
	}
	return
}

// sm3LoopHook recognises a loop that compresses consecutive blocks and gives its closed form.
func sm3LoopHook(diag *string) func(li *LoopInfo) map[*Term]*Term {
	return func(li *LoopInfo) map[*Term]*Term {
		var vs []*LoopVar
		for _, v := range li.vars {
			if v.cur == v.raw && v.raw.k == KInt && v.raw.op == "phi" && len(v.back) > 0 {
				same := true
				for _, b := range v.back {
					if b != v.back[0] {
						same = false
					}
				}
				if same {
					vs = append(vs, v)
				}
			}
		}
		if len(vs) < 8 {
			return nil
		}
		var slot [8]*LoopVar
		n := 0
		for _, v := range vs {
			i := wordIndex(v.init)
			if i >= 0 && slot[i] == nil {
				slot[i] = v
				n++
			}
		}
		if n != 8 {
			return nil
		}
		var h, h0 [8]*Term
		for i, v := range slot {
			h[i], h0[i] = v.raw, v.init
		}
		if b0 := slot[0].back[0]; b0.op == "foldc" {
			// every iteration compresses the next block
			l := mk("list", "", KSeq, 0, h[:]...)
			seq := b0.a[1]
			for i, v := range slot {
				if v.back[0] != mkFoldc(i, l, seq) {
					return nil
				}
			}
			first := substOne(seq, li.K, tZero)
			if seq.op != "sub" || hasTerm(seq.a[0], li.K) || seqLen(seq) != ci(64) || iSub(seq.a[1], iScale(li.K, 64)) != iSub(seq.a[2], iAdd(iScale(li.K, 64), ci(64))) {
				return nil
			}
			base := iSub(seq.a[1], iScale(li.K, 64))
			if hasTerm(base, li.K) || first == tEmpty {
				return nil
			}
			r := map[*Term]*Term{}
			f := foldWords(h0, mkSub0(seq.a[0], base, seq.a[1]))
			for i, v := range slot {
				r[v.raw] = f[i]
			}
			return r
		}
		S, lo := blockBase(slot[0].back[0])
		if S == nil || hasTerm(S, li.K) {
			*diag = "the message words are not sixteen big-endian words of one 64-byte block"
			return nil
		}
		lo0 := substOne(lo, li.K, tZero)
		if iSub(lo, lo0) != iScale(li.K, 64) {
			*diag = "block K does not start at byte 64K"
			return nil
		}
		if msg := compareRound(h, S, lo, func(i int) *Term { return slot[i].back[0] }); msg != "" {
			*diag = msg
			return nil
		}
		r := map[*Term]*Term{}
		f := foldWords(h0, mkSub0(S, lo0, lo))
		for i, v := range slot {
			r[v.raw] = f[i]
		}
		return r
	}
}

func compareRound(h [8]*Term, S, lo *Term, got func(i int) *Term) string {
	var w [16]*Term
	for j := range w {
		o := iAdd(lo, ci(int64(4*j)))
		w[j] = os2ip(seqSub(S, o, iAdd(o, ci(4))))
	}
	want := sm3Ref(h, w)
	for i := range want {
		if got(i) != want[i] {
			return "word " + strconv.Itoa(i) + " of the new chaining value is not the one the standard prescribes"
		}
	}
	return ""
}

// wordIndex identifies which chaining word an initial value is.
func wordIndex(t *Term) int {
	switch t.op {
	case "sel":
		if n, ok := constInt(t.a[1]); ok && n >= 0 && n < 8 {
			return int(n)
		}
	case "foldc":
		i, _ := strconv.Atoi(t.s)
		return i
	case "int":
		for i, v := range sm3IV {
			if t == ci(int64(v)) {
				return i
			}
		}
	case "sym":
		if len(t.s) > 1 && t.s[:len(t.s)-1] == "sm3.h" {
			return int(t.s[len(t.s)-1] - '0')
		}
	}
	return -1
}

// blockBase finds S and lo such that the big-endian words of t read S[lo:lo+64].
func blockBase(t *Term) (S, lo *Term) {
	type key struct{ s, lo *Term }
	starts := map[key]bool{}
	seen := map[*Term]bool{}
	var order []key
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "os2ip" && t.a[0].op == "sub" && iSub(t.a[0].a[2], t.a[0].a[1]) == ci(4) {
			k := key{t.a[0].a[0], t.a[0].a[1]}
			if !starts[k] {
				starts[k] = true
				order = append(order, k)
			}
			return
		}
		for _, x := range t.a {
			walk(x)
		}
	}
	walk(t)
	for _, k := range order {
		all := true
		for j := int64(1); j < 16; j++ {
			if !starts[key{k.s, iAdd(k.lo, ci(4*j))}] {
				all = false
				break
			}
		}
		if all {
			return k.s, k.lo
		}
	}
	return nil, nil
}

// compSummaries analyses every function of the package that could be the compression function.
func compSummaries(c *Ctx) (map[*ssa.Function]*compSummary, string) {
	r := map[*ssa.Function]*compSummary{}
	diag := ""
	sp := c.P.pkgs["sm3"]
	for _, fn := range c.P.allFuncs() {
		if fn.Pkg != sp || fn.Blocks == nil || fn.Signature.Results().Len() != 0 {
			continue
		}
		s := &compSummary{fn: fn, hArg: -1, pArg: -1}
		for i, p := range fn.Params {
			if path, ok := wordsAt(p.Type()); ok && s.hArg < 0 {
				s.hArg, s.hPath = i, path
			} else if isByteParam(p.Type()) && s.pArg < 0 {
				s.pArg = i
			}
		}
		if s.hArg < 0 || s.pArg < 0 || len(fn.Params) != 2 {
			continue
		}
		engines := len(c.P.engines)
		msg := s.derive(c)
		if msg == "" {
			r[fn] = s
		} else {
			c.P.engines = c.P.engines[:engines] // not a compression function: analysed where it is called
			diag += short(fn) + ": " + msg + "; "
		}
	}
	return r, diag
}

// derive analyses the function on arbitrary state and data and compares its effect with the standard.
func (s *compSummary) derive(c *Ctx) string {
	e := newEngine(c.P)
	e.initPackages("sm3")
	diag := ""
	e.loopHook = sm3LoopHook(&diag)
	defer c.fnSeen(e)
	msg := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				if a, ok := r.(abortError); ok {
					msg = "the analysis gave up: " + a.msg
					return
				}
				panic(r)
			}
		}()
		st, args := e.rootState(s.fn)
		st.assume(bnot(mkIsNil(args[s.hArg])))
		if deref(s.fn.Params[s.pArg].Type()) != nil {
			st.assume(bnot(mkIsNil(args[s.pArg])))
		}
		h := loadWords(e, st, args[s.hArg], s.hPath)
		S := e.seqOf(st, args[s.pArg])
		entry := st.clone()
		outs := e.call(st, s.fn, args, nil)
		c.paths += len(outs)
		n := 0
		for _, o := range outs {
			if o.panic {
				continue
			}
			n++
			got := loadWords(e, o.st, args[s.hArg], s.hPath)
			all := foldWords(h, seqSub(S, tZero, blocks64(seqLen(S))))
			isAll := true
			for i := range got {
				if !intSame(o.st, got[i], all[i]) {
					isAll = false
				}
			}
			if !isAll {
				m := compareRound(h, S, tZero, func(i int) *Term { return got[i] })
				if m != "" {
					if diag != "" {
						m = diag
					}
					msg = m
					return
				}
				s.single = true
			}
			// nothing else changes
			for ob, cont := range o.st.mem {
				if ob.a[0].op == "alloc" {
					continue
				}
				w := entry.content(ob)
				if ob == args[s.hArg].a[0] {
					ptr := mkPtr(ob, append(append([]*Term(nil), args[s.hArg].a[1:]...), s.hPath...)...)
					l := mk("list", "", KSeq, 0, h[:]...)
					a, b := entry.clone(), o.st.clone()
					e.store(a, ptr, l)
					e.store(b, ptr, l)
					w, cont = a.content(ob), b.content(ob)
				}
				if w != cont {
					msg = "it changes more than the chaining value: " + cont.str(4)
					return
				}
			}
		}
		if n == 0 {
			msg = "it never returns"
		}
	}()
	return msg
}

// apply performs the summarised compression on the caller's state.
func (s *compSummary) apply(e *Engine, st *State, args []*Term) []Outcome {
	if args[s.hArg].op != "ptr" {
		return nil
	}
	h := loadWords(e, st, args[s.hArg], s.hPath)
	S := e.seqOf(st, args[s.pArg])
	n := st.norm(blocks64((seqLen(S))))
	if s.single {
		if !st.entails(mkGe0(iSub(seqLen(S), ci(64)))) {
			return nil
		}
		n = ci(64)
	}
	f := foldWords(h, seqSubC(S, tZero, n, st.cmp))
	ptr := mkPtr(args[s.hArg].a[0], append(append([]*Term(nil), args[s.hArg].a[1:]...), s.hPath...)...)
	e.store(st, ptr, mkT("list", "", KSeq, 0, types.Typ[types.Uint32], f[:]...))
	return []Outcome{{st: st}}
}

func sm3Engine(c *Ctx, sums map[*ssa.Function]*compSummary, extra func(fn *ssa.Function, st *State, args []*Term) []Outcome) *Engine {
	e := newEngine(c.P)
	e.initPackages("sm3")
	d := ""
	e.loopHook = sm3LoopHook(&d)
	e.callHook = func(fn *ssa.Function, st *State, args []*Term) []Outcome {
		if s := sums[fn]; s != nil {
			return s.apply(e, st, args)
		}
		if extra != nil {
			return extra(fn, st, args)
		}
		return nil
	}
	return e
}

func checkSM3Compress(c *Ctx) {
	e0 := newEngine(c.P)
	e0.initPackages("sm3")
	d := sm3Shape(c, e0)
	if d == nil {
		return
	}
	sums, diag := compSummaries(c)
	used := map[*ssa.Function]bool{}
	reach := map[*ssa.Function]bool{}
	reachable(d.write, reach)
	for f := range sums {
		if reach[f] {
			used[f] = true
		}
	}
	for f := range sums {
		c.oblige("compression equals the standard", short(f), f.Pos(), true, "")
		c.sites++
	}
	c.oblige("Write compresses with the standard function", "sm3.Write", d.write.Pos(), len(used) > 0, "no function reachable from Write computes the standard's compression: %s", diag)
	// the initial value
	st0, _, outs, ok := c.analyse(e0, d.newFn)
	_ = st0
	if ok {
		for _, o := range outs {
			if o.panic {
				c.oblige("initial value", "sm3.New", d.newFn.Pos(), false, "New can panic")
				continue
			}
			d.checkIV(c, e0, o.st, o.res.a[0], "sm3.New", d.newFn)
		}
	}
	e1 := newEngine(c.P)
	e1.initPackages("sm3")
	_, args, outs, ok := c.analyse(e1, d.reset)
	if ok {
		for _, o := range outs {
			if o.panic {
				c.oblige("initial value", "sm3.Reset", d.reset.Pos(), false, "Reset can panic")
				continue
			}
			d.checkIV(c, e1, o.st, args[0], "sm3.Reset", d.reset)
		}
	}
}

func reachable(f *ssa.Function, seen map[*ssa.Function]bool) {
	if f == nil || seen[f] {
		return
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Function); ok {
					reachable(g, seen)
				}
			}
		}
	}
}

func (d *digestShape) get(e *Engine, st *State, p *Term) (h [8]*Term, x, nx, cnt *Term) {
	v := e.load(st, p)
	hs := fld(v, d.t, d.h)
	for i := range h {
		h[i] = seqSelC(hs, ci(int64(i)), st.cmp)
	}
	return h, fld(v, d.t, d.x), fld(v, d.t, d.nx), fld(v, d.t, d.cnt)
}

func (d *digestShape) set(e *Engine, st *State, p *Term, h [8]*Term, x, nx, cnt *Term) {
	v := e.load(st, p)
	v = setFld(v, d.t, d.h, mkT("list", "", KSeq, 0, types.Typ[types.Uint32], h[:]...))
	v = setFld(v, d.t, d.x, x)
	v = setFld(v, d.t, d.nx, nx)
	v = setFld(v, d.t, d.cnt, cnt)
	e.store(st, p, v)
}

func (d *digestShape) checkIV(c *Ctx, e *Engine, st *State, p *Term, where string, fn *ssa.Function) {
	h, _, nx, cnt := d.get(e, st, p)
	for i := range h {
		c.oblige("initial value", where+" word "+strconv.Itoa(i), fn.Pos(), h[i] == ci(int64(sm3IV[i])), "is %s", h[i].str(6))
	}
	c.oblige("empty state", where, fn.Pos(), nx == tZero && cnt == tZero, "fill level %s, byte count %s", nx.str(4), cnt.str(4))
}

// invState is an arbitrary state that satisfies the invariant of the hash.
func (d *digestShape) invState(e *Engine, st *State, p *Term) {
	var h [8]*Term
	for i := range h {
		h[i] = mk("sym", "sm3.h"+strconv.Itoa(i), KInt, 32)
	}
	x := mkTyped("sym", "sm3.x", structType(d.t).Field(d.x).Type())
	nx := mk("sym", "sm3.nx", KInt, 6)
	q := mk("sym", "sm3.q", KInt, 0)
	st.assume(mkGe0(nx))
	st.assume(mkGe0(iSub(ci(63), nx)))
	st.assume(mkGe0(q))
	d.set(e, st, p, h, x, nx, mkWrap(64, iAdd(iScale(q, 64), nx)))
}

// writeContract applies the proved contract of Write.
func (d *digestShape) writeContract(e *Engine, st *State, args []*Term) []Outcome {
	if args[0].op != "ptr" {
		return nil
	}
	h, x, nx, cnt := d.get(e, st, args[0])
	x, nx, cnt = st.norm(x), st.norm(nx), st.norm(cnt)
	if seqLen(x) != ci(64) || !holds(st, mkGe0(nx)) || !holds(st, mkGe0(iSub(ci(63), nx))) || !intSame(st, mkWrap(6, cnt), mkWrap(6, nx)) {
		e.abort("Write is called on a state that may violate the invariant: nx=%s len=%s buffer of %s", nx.str(5), cnt.str(5), seqLen(x).str(5))
	}
	p := e.seqOf(st, args[1])
	S := seqCat(seqSubC(x, tZero, nx, st.cmp), p)
	total := iAdd(nx, seqLen(p))
	n1 := st.norm(blocks64((total)))
	f := foldWords(h, seqSubC(S, tZero, n1, st.cmp))
	nx1 := iSub(total, n1)
	rest := seqSubC(S, n1, total, st.cmp)
	k := st.fresh("sm3.write")
	junk := mkT("fixed", "", KSeq, 0, types.Typ[types.Uint8], iSub(ci(64), nx1), mk("phi", "sm3.tail#"+strconv.Itoa(k), KSeq, 0))
	x1 := seqCat(rest, junk)
	if seqLen(x1) != ci(64) {
		x1 = mkT("fixed", "", KSeq, 0, types.Typ[types.Uint8], ci(64), x1)
	}
	d.set(e, st, args[0], f, x1, nx1, mkWrap(64, iAdd(cnt, seqLen(p))))
	return []Outcome{{st: st, res: mk("tuple", "", KVal, 0, seqLen(p), tNil)}}
}

func (c *Ctx) noPanic(e *Engine, fn *ssa.Function, outs []Outcome) {
	for _, o := range outs {
		if o.panic {
			c.oblige("no panic", short(fn), atPos(o), refuted(o.st, 0), "a panic is reachable: %s", o.st.sortedFacts())
		}
	}
	for k, o := range e.obls {
		if o.bad > 0 {
			c.oblige("in bounds", k, o.instr.Pos(), false, "%s", o.detail)
		}
	}
	c.oblige("in bounds", short(fn), fn.Pos(), true, "")
}

func checkSM3Stream(c *Ctx) {
	e0 := newEngine(c.P)
	e0.initPackages("sm3")
	d := sm3Shape(c, e0)
	if d == nil {
		return
	}
	sums, diag := compSummaries(c)
	if len(sums) == 0 {
		c.oblige("compression", "sm3", d.write.Pos(), false, "no function computes the standard's compression: %s", diag)
		return
	}
	prep := func(e *Engine) func(st *State, args []*Term) []*Term {
		return func(st *State, args []*Term) []*Term {
			d.invState(e, st, args[0])
			return args
		}
	}
	// Write
	e := sm3Engine(c, sums, nil)
	in, args, outs, ok := c.analyseWith(e, d.write, prep(e))
	if ok {
		h, x, nx, cnt := d.get(e, in, args[0])
		p := e.seqOf(in, args[1])
		total := iAdd(nx, seqLen(p))
		n1 := blocks64(total)
		S := seqCat(seqSub(x, tZero, nx), p)
		for _, o := range splitMins(outs) {
			if o.panic {
				continue
			}
			w := short(d.write)
			pos := atPos(o)
			h1, x1, nx1, cnt1 := d.get(e, o.st, args[0])
			S, total, n1, cnt := o.apply(S), o.apply(total), o.apply(n1), o.apply(cnt)
			want := foldWords(h, seqSubC(S, tZero, o.st.norm(n1), o.st.cmp))
			good := true
			for i := range h1 {
				good = good && intSame(o.st, h1[i], want[i])
			}
			c.oblige("Write compresses every complete block once, in order", w, pos, good, "the chaining value is %s, want %s", h1[0].str(8), want[0].str(8))
			c.oblige("Write keeps the incomplete block", w, pos, intSame(o.st, nx1, iSub(total, n1)) &&
				seqSame(o.st, seqSubC(x1, tZero, nx1, o.st.cmp), seqSubC(S, o.st.norm(n1), total, o.st.cmp)), "fill level %s, buffer %s", nx1.str(8), x1.str(8))
			c.oblige("Write counts every byte", w, pos, intSame(o.st, cnt1, mkWrap(64, iAdd(cnt, seqLen(p)))), "byte count %s", cnt1.str(8))
			c.oblige("Write reports len(p) and no error", w, pos, o.res != nil && o.res.op == "tuple" && intSame(o.st, o.r(0), seqLen(p)) && o.st.eval(mkIsNil(o.r(1))) == tTrue, "returns %s", o.res.str(6))
			c.oblige("the input is not modified", w, pos, e.seqOf(o.st, args[1]) == p, "the data was written to")
		}
		c.noPanic(e, d.write, outs)
	}
	contract := func(e **Engine) func(fn *ssa.Function, st *State, args []*Term) []Outcome {
		return func(fn *ssa.Function, st *State, args []*Term) []Outcome {
			if fn == d.write {
				return d.writeContract(*e, st, args)
			}
			return nil
		}
	}
	// Sum
	var e2 *Engine
	e2 = sm3Engine(c, sums, contract(&e2))
	in, args, outs, ok = c.analyseWith(e2, d.sum, prep(e2))
	if ok {
		h, x, nx, cnt := d.get(e2, in, args[0])
		pre := e2.seqOf(in, args[1])
		before := e2.load(in, args[0])
		for _, o := range outs {
			if o.panic {
				continue
			}
			got := e2.seqOf(o.st, o.res)
			d.checkSum(c, o, got, pre, h, seqSub(x, tZero, nx), cnt, nx, d.sum)
			c.oblige("Sum leaves the state unchanged", short(d.sum), atPos(o), e2.load(o.st, args[0]) == before, "the state becomes %s", e2.load(o.st, args[0]).str(5))
		}
		c.noPanic(e2, d.sum, outs)
	}
	// the one-shot function
	var e3 *Engine
	e3 = sm3Engine(c, sums, contract(&e3))
	in, args, outs, ok = c.analyse(e3, d.sumFn)
	if ok {
		data := e3.seqOf(in, args[0])
		var iv [8]*Term
		for i, v := range sm3IV {
			iv[i] = ci(int64(v))
		}
		n := seqLen(data)
		for _, o := range outs {
			if o.panic {
				continue
			}
			d.checkSum(c, o, e3.seqOf(o.st, o.res), tEmpty, iv, data, n, n, d.sumFn)
			c.oblige("the input is not modified", short(d.sumFn), atPos(o), e3.seqOf(o.st, args[0]) == data, "the data was written to")
		}
		c.noPanic(e3, d.sumFn, outs)
	}
	// New and Reset start empty; sizes
	_, _, outs, ok = c.analyse(e0, d.newFn)
	if ok {
		for _, o := range outs {
			if !o.panic {
				d.checkIV(c, e0, o.st, o.res.a[0], "sm3.New", d.newFn)
			}
		}
	}
	e1 := newEngine(c.P)
	e1.initPackages("sm3")
	_, args, outs, ok = c.analyse(e1, d.reset)
	if ok {
		for _, o := range outs {
			if !o.panic {
				d.checkIV(c, e1, o.st, args[0], "sm3.Reset", d.reset)
			}
		}
	}
	for _, s := range []struct {
		f *ssa.Function
		n int64
	}{{d.size, 32}, {d.blockSiz, 64}} {
		_, _, outs, ok := c.analyse(newEngine(c.P), s.f)
		if ok {
			for _, o := range outs {
				c.oblige("sizes", short(s.f), s.f.Pos(), !o.panic && o.res == ci(s.n), "is %v, want %d", o.res, s.n)
			}
		}
	}
}

// checkSum: got == pre || words of the chaining value after h over tail || 80 || 0.. || bit length.
func (d *digestShape) checkSum(c *Ctx, o Outcome, got, pre *Term, h [8]*Term, tail, cnt, tailLen *Term, fn *ssa.Function) {
	m := iSub(tailLen, blocks64(tailLen))
	okAny := false
	var detail string
	for _, z := range []*Term{iSub(ci(55), m), iSub(ci(119), m)} {
		s := o.st.clone()
		// this padding length is the one with 0 <= z < 64
		if !s.assume(mkGe0(z)) || !s.assume(mkGe0(iSub(ci(63), z))) {
			continue
		}
		if refuted(s, 0) {
			continue
		}
		msg := seqCat(tail, cbytes("\x80"), mkFill(tZero, z), mkBE(8, mkWrap(64, iScale(cnt, 8))))
		want := seqCat(pre, bytesOfWords(foldWords(h, msg)))
		okAny = seqSame(s, got, want)
		if !okAny {
			detail = "got " + s.norm((got)).str(9) + " want " + s.norm((want)).str(9)
			break
		}
	}
	c.oblige("the digest is the compression of the padded message", short(fn), atPos(o), okAny, "%s", detail)
}

func init() {
	addCheck(&Check{id: "C08", rule: engineRule, run: checkSM3Compress, trusted: []string{"math/bits, encoding/binary and the Go memory model behave as documented", "golang.org/x/tools/go/ssa"}})
	addCheck(&Check{id: "C09", rule: engineRule, run: checkSM3Stream, trusted: []string{"math/bits, encoding/binary and the Go memory model behave as documented", "golang.org/x/tools/go/ssa"}})
}

// splitMins divides the outcomes by the alternatives of their facts and by which operand every minimum takes,
// and replaces quantities the facts fix.
func splitMins(outs []Outcome) []Outcome {
	var r []Outcome
	fuel := 4000
	for len(outs) > 0 {
		o := outs[0]
		outs = outs[1:]
		if fuel--; fuel < 0 {
			return append(r, outs...)
		}
		if o.panic {
			r = append(r, o)
			continue
		}
		with := func(x, y *Term, facts ...*Term) {
			st := o.st.clone()
			for _, f := range facts {
				if !st.assume(f) {
					return
				}
			}
			n := o
			n.st = st
			if x != nil {
				p := &path{st, map[ssa.Value]*Term{}}
				(&Engine{}).substPath(p, x, y, nil)
				n.st = p.st
				n.subst = append(append([][2]*Term(nil), n.subst...), [2]*Term{x, y})
				if n.res != nil {
					n.res = substOne(n.res, x, y)
				}
			}
			if !refuted(n.st, 0) {
				outs = append(outs, n)
			}
		}
		// disjunctions
		split := false
		for _, f := range o.st.sortedFacts() {
			if f.op == "or" && o.st.facts[f] {
				old := o.st
				o.st = old.clone()
				delete(o.st.facts, f)
				o.st.entC = map[*Term]int8{}
				for _, alt := range f.a {
					with(nil, nil, alt)
				}
				split = true
				break
			}
		}
		if split {
			continue
		}
		var m *Term
		find := func(t *Term) {
			if m == nil {
				m = findOp(t, "min", map[*Term]bool{})
			}
		}
		for f := range o.st.facts {
			find(f)
		}
		for _, c := range o.st.mem {
			find(c)
		}
		if o.res != nil {
			find(o.res)
		}
		if m != nil {
			with(m, m.a[0], mkGe0(iSub(m.a[1], m.a[0])))
			with(m, m.a[1], mkGe0(iSub(iSub(m.a[0], m.a[1]), tOne)))
			continue
		}
		// a symbol fixed by the facts
		pinned := false
		atoms := map[*Term]bool{}
		for f := range o.st.facts {
			if f.op == "ge0" || f.op == "eq0" {
				for a := range toPoly(f.a[0]) {
					if a.op == "sym" {
						atoms[a] = true
					}
				}
			}
		}
		for a := range atoms {
			if o.st.entails(mkGe0(iNeg(a))) && o.st.entails(mkGe0(a)) {
				with(a, tZero)
				pinned = true
				break
			}
		}
		if !pinned {
			r = append(r, o)
		}
	}
	return r
}

func findOp(t *Term, op string, seen map[*Term]bool) *Term {
	if seen[t] {
		return nil
	}
	seen[t] = true
	for _, x := range t.a {
		if r := findOp(x, op, seen); r != nil {
			return r
		}
	}
	if t.op == op {
		return t
	}
	return nil
}

// apply carries a term of the entry state over to a refined outcome.
func (o Outcome) apply(t *Term) *Term {
	for _, p := range o.subst {
		t = substOne(t, p[0], p[1])
	}
	return t
}
