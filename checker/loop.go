package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// LoopVar is one loop-carried quantity of a summarised loop.
type LoopVar struct {
	name string
	init *Term
	cur  *Term // value at the header of iteration K
	raw  *Term // the arbitrary value used before a closed form was found
	back []*Term
}

// LoopInfo is the summary of one non-unrolled loop.
type LoopInfo struct {
	fn     *ssa.Function
	header *ssa.BasicBlock
	K      *Term
	vars   []*LoopVar
	backs  []*path // states at the back edges
	entry  *State  // state at loop entry
	hdr    *State  // generic header state
	nexit  int
}

type loopResult struct {
	exits []exitPath
	rets  []Outcome
}

const maxUnroll = 1200

var debugLoop = os.Getenv("MCHECK_DEBUG") == "loop"

func (e *Engine) execLoop(fn *ssa.Function, info *cfgInfo, l *loopT, p *path) loopResult {
	if e.unrollable(fn, info, l, p) {
		if r, ok := e.unroll(fn, info, l, p.clone()); ok {
			e.recordEnd(fn, l, "")
			return r
		}
	}
	return e.summarise(fn, info, l, p)
}

// constStep runs one iteration's header and reports whether a loop-exit test folds to a constant.
func (e *Engine) unrollable(fn *ssa.Function, info *cfgInfo, l *loopT, p *path) bool {
	q := p.clone()
	e.quiet++
	defer func() { e.quiet-- }()
	steps := e.steps
	defer func() { e.steps = steps }()
	// follow straight-line blocks from the header to the first exit test
	b := l.header
	for hops := 0; hops < 8; hops++ {
		last := b.Instrs[len(b.Instrs)-1]
		r := &region{e: e, fn: fn, info: info, loop: l}
		for _, in := range b.Instrs[:len(b.Instrs)-1] {
			switch in := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			case *ssa.Call:
				if _, ok := in.Call.Value.(*ssa.Builtin); ok || isPeek(&in.Call) {
					outs := e.doCall(q.st, q, in, &in.Call)
					if outs[0].res != nil {
						q.env[in] = outs[0].res
					}
					continue
				}
				if isTest(&in.Call, 3) {
					// a condition written as a function of its own
					outs := e.doCall(q.st, q, in, &in.Call)
					if len(outs) == 1 && !outs[0].panic && outs[0].res != nil {
						q.st = outs[0].st
						q.env[in] = outs[0].res
						continue
					}
				}
				return false
			default:
				if e.simple(r, q, in) != nil {
					return false
				}
			}
		}
		switch last := last.(type) {
		case *ssa.If:
			exits := !l.body[b.Succs[0]] || !l.body[b.Succs[1]]
			c := e.val(q, last.Cond)
			if c != tTrue && c != tFalse && exits && (e.knownLists || e.fewTrips(q.st, c)) {
				c = q.st.eval(c)
			}
			if c == tTrue || c == tFalse {
				return exits && constDriven(last.Cond, l, q)
			}
			return false
		case *ssa.Jump:
			nb := b.Succs[0]
			if nb == l.header || !l.body[nb] {
				return false
			}
			r.edge(b, nb, q, func(_, _ *ssa.BasicBlock, _ *path) {})
			b = nb
		default:
			return false
		}
	}
	return false
}

// isPeek: the call looks at the input of a DER reader without consuming it.
func isPeek(call *ssa.CallCommon) bool {
	f := call.StaticCallee()
	if f == nil {
		return false
	}
	switch f.String() {
	case "(golang.org/x/crypto/cryptobyte.String).Empty", "(golang.org/x/crypto/cryptobyte.String).PeekASN1Tag",
		"(golang.org/x/crypto/cryptobyte/asn1.Tag).ContextSpecific", "(golang.org/x/crypto/cryptobyte/asn1.Tag).Constructed":
		return true
	}
	return false
}

// isTest: the call only computes a truth value from its arguments, without loops, effects or further calls.
func isTest(call *ssa.CallCommon, depth int) bool {
	f := call.StaticCallee()
	if depth == 0 || f == nil || f.Blocks == nil || len(f.FreeVars) > 0 || f.Signature.Results().Len() != 1 || !isBoolT(f.Signature.Results().At(0).Type()) {
		return false
	}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return false
			}
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store, *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select:
				return false
			case *ssa.Call:
				if _, ok := in.Call.Value.(*ssa.Builtin); !ok && !isPeek(&in.Call) && !isTest(&in.Call, depth-1) {
					return false
				}
			}
		}
	}
	return true
}

// fewTrips: c compares a small constant with a quantity the facts pin down to a small constant.
func (e *Engine) fewTrips(st *State, c *Term) bool {
	if len(c.a) != 1 || c.op != "ge0" && c.op != "eq0" {
		return false
	}
	for v := int64(-8); v <= 8; v++ {
		d := iSub(c.a[0], ci(v))
		if st.entails(mkGe0(d)) && st.entails(mkGe0(iScale(d, -1))) {
			return true
		}
	}
	return false
}

// constDriven: the exit test depends on values that change with the iteration (not `for true`).
func constDriven(c ssa.Value, l *loopT, q *path) bool {
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value, d int) bool
	visit = func(v ssa.Value, d int) bool {
		if d > 8 || seen[v] {
			return false
		}
		seen[v] = true
		in, ok := v.(ssa.Instruction)
		if !ok || !l.body[in.Block()] {
			return false
		}
		if ph, ok := v.(*ssa.Phi); ok && ph.Block() == l.header {
			return true
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op.String() == "*" {
			return true // loaded variable
		}
		if nx, ok := v.(*ssa.Next); ok && nx.IsString {
			return true
		}
		for _, op := range in.Operands(nil) {
			if *op != nil && visit(*op, d+1) {
				return true
			}
		}
		return false
	}
	return visit(c, 0)
}

func (e *Engine) unroll(fn *ssa.Function, info *cfgInfo, l *loopT, p *path) (loopResult, bool) {
	var res loopResult
	cur := []*path{p}
	for it := 0; it < maxUnroll; it++ {
		r := &region{e: e, fn: fn, info: info, loop: l}
		r.run(l.header, cur, nil)
		res.exits = append(res.exits, r.exits...)
		res.rets = append(res.rets, r.rets...)
		if len(r.backs) == 0 {
			return res, true
		}
		var next []*path
		for _, b := range r.backs {
			next = append(next, b.p)
		}
		next = e.mergePaths(next, info.live[l.header])
		if len(next) > 24 && !(e.noMerge && len(next) <= 2000) {
			return res, false
		}
		for _, q := range next {
			if !e.unrollable(fn, info, l, q) {
				return res, false
			}
		}
		cur = next
	}
	return res, false
}

// ---------------------------------------------------------------- summaries

type loopVarRef struct {
	phi  *ssa.Phi
	part string // "", "off", "len", "cap", "content"
	obj  *Term  // memory object
	leaf []int  // path of struct fields / list elements inside the object
}

func leafGet(c *Term, leaf []int, tmpl *Term) *Term {
	for i, k := range leaf {
		_ = i
		switch c.op {
		case "struct", "list", "hashst":
			c = c.a[k]
		default:
			// expand a symbolic struct using the template's type
			if tmpl != nil && tmpl.op == "struct" && tmpl.typ != nil {
				c = fld(c, tmpl.typ, k)
			} else if tmpl != nil && tmpl.op == "list" {
				c = seqSel(c, ci(int64(k)))
			}
		}
		if tmpl != nil && len(tmpl.a) > k {
			tmpl = tmpl.a[k]
		} else {
			tmpl = nil
		}
	}
	return c
}

func leafSet(c *Term, leaf []int, v *Term, tmpl *Term) *Term {
	if len(leaf) == 0 {
		return v
	}
	k := leaf[0]
	var sub *Term
	if tmpl != nil && len(tmpl.a) > k {
		sub = tmpl.a[k]
	}
	switch c.op {
	case "struct", "list", "hashst":
		na := append([]*Term(nil), c.a...)
		na[k] = leafSet(c.a[k], leaf[1:], v, sub)
		if c.op == "list" {
			return mkT("list", c.s, KSeq, 0, c.typ, na...)
		}
		return mkT(c.op, c.s, c.k, c.w, c.typ, na...)
	}
	if tmpl != nil && tmpl.op == "struct" && tmpl.typ != nil {
		return setFld(c, tmpl.typ, k, leafSet(fld(c, tmpl.typ, k), leaf[1:], v, sub))
	}
	if tmpl != nil && tmpl.op == "list" {
		el := make([]*Term, len(tmpl.a))
		for j := range el {
			el[j] = seqSel(c, ci(int64(j)))
		}
		el[k] = leafSet(el[k], leaf[1:], v, sub)
		return mkT("list", tmpl.s, KSeq, 0, tmpl.typ, el...)
	}
	return v
}

// diffLeaves lists the leaves at which two contents differ.
func diffLeaves(a, b *Term, pre []int, out *[][]int) {
	if a == b {
		return
	}
	comp := func(t *Term) bool { return t.op == "struct" || t.op == "hashst" || (t.op == "list" && len(t.a) <= 16) }
	switch {
	case comp(a) && comp(b) && a.op == b.op && len(a.a) == len(b.a):
		for i := range a.a {
			diffLeaves(a.a[i], b.a[i], append(append([]int(nil), pre...), i), out)
		}
	case b.op == "struct" && b.typ != nil && a.k == KVal && a.op != "struct":
		for i := range b.a {
			diffLeaves(fld(a, b.typ, i), b.a[i], append(append([]int(nil), pre...), i), out)
		}
	case b.op == "list" && len(b.a) <= 16 && a.k == KSeq && a.op != "bytes" && seqLen(a) == ci(int64(len(b.a))):
		for i := range b.a {
			diffLeaves(seqSel(a, ci(int64(i))), b.a[i], append(append([]int(nil), pre...), i), out)
		}
	default:
		*out = append(*out, pre)
	}
}

type lvar struct {
	key     string
	ref     loopVarRef
	init    *Term
	hdr     *Term // value assigned at the generic header
	fresh   *Term // the arbitrary symbol
	state   string
	tmpl    *Term
	facts   []*Term // candidate invariants (Houdini)
	content bool    // a slice kept in memory, followed by its contents
	window  *Term   // a slice kept in memory (this one at entry) of which only the start moves; the offset is followed
}

// windowOf: back is what is left of the slice init after dropping elements from its front.
func windowOf(init, back *Term) bool {
	return init.op == "slice" && back.op == "slice" && back.a[0] == init.a[0] && iAdd(back.a[1], back.a[2]) == iAdd(init.a[1], init.a[2]) && iAdd(back.a[1], back.a[3]) == iAdd(init.a[1], init.a[3])
}

// leafWidth is the unsigned width of the integer stored at a leaf of an object, 0 if unknown.
func leafWidth(t types.Type, tmpl *Term, leaf []int) int {
	for _, k := range leaf {
		if t == nil && tmpl != nil && tmpl.op == "struct" {
			t = tmpl.typ
		}
		if t == nil {
			if tmpl != nil && tmpl.op == "list" && tmpl.typ != nil {
				t, tmpl = tmpl.typ, nil
				continue
			}
			return 0
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			if k >= u.NumFields() {
				return 0
			}
			t = u.Field(k).Type()
		case *types.Array:
			t = u.Elem()
		default:
			return 0
		}
		if tmpl != nil && len(tmpl.a) > k {
			tmpl = tmpl.a[k]
		} else {
			tmpl = nil
		}
	}
	if t == nil {
		return 0
	}
	return intWidth(t)
}

func freshLike(init *Term, name string, typ *Term) *Term {
	switch init.k {
	case KInt:
		return mkT("phi", name, KInt, 0, nil)
	case KBool:
		return mk("phi", name, KBool, 0)
	case KSeq:
		return mkT("phi", name, KSeq, 0, seqElemType(init))
	}
	return mkT("phi", name, KVal, 0, init.typ)
}

func (e *Engine) summarise(fn *ssa.Function, info *cfgInfo, l *loopT, p *path) loopResult {
	site := fn.String() + ".loop" + strconv.Itoa(l.header.Index)
	n := p.st.fresh(site)
	id := site + "#" + strconv.Itoa(n)
	start := len(termTab)
	K := mk("phi", "K:"+id, KInt, 0)
	entry := p.clone()

	vars := map[string]*lvar{}
	var order []string
	addVar := func(v *lvar) *lvar {
		if o, ok := vars[v.key]; ok {
			return o
		}
		vars[v.key] = v
		order = append(order, v.key)
		return v
	}
	var phis []*ssa.Phi
	for _, in := range l.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
	}
	mode := map[*ssa.Phi]string{}
	for _, ph := range phis {
		mode[ph] = "inv" // optimistic: loop-invariant
	}
	objVars := map[*Term]bool{}
	var invFacts []*Term // facts assumed at the generic header
	rejected := map[*Term]bool{}
	closed := map[string]*Term{} // closed forms found so far, by var key
	hooked := false

	forkLen := map[*ssa.Phi]int64{} // nil, or a slice of that constant length nothing else refers to
	forkObj := func(ph *ssa.Phi) *Term { return mkObj(mk("alloc", id+":"+ph.Name()+".buf", KVal, 0), nil) }
	newHeader := func() *path {
		h := entry.clone()
		h.st.ctr[site] = n + 1
		for _, ph := range phis {
			iv := entry.env[ph]
			k := ph.Name()
			get := func(part string, init *Term) *Term {
				key := "phi:" + k + "." + part
				v := addVar(&lvar{key: key, ref: loopVarRef{phi: ph, part: part}, init: init})
				if v.fresh == nil {
					v.fresh = freshLike(init, id+":"+k+"."+part, nil)
					if w := intWidth(ph.Type()); w > 0 && init.k == KInt {
						v.fresh = mk("phi", id+":"+k+"."+part, KInt, w)
					}
				}
				if c, ok := closed[key]; ok {
					v.hdr = c
				} else {
					v.hdr = v.fresh
				}
				return v.hdr
			}
			switch mode[ph] {
			case "inv":
				h.env[ph] = iv
			case "window": // same backing store, moving window
				off := get("off", iv.a[1])
				end := iAdd(iv.a[1], iv.a[2])
				cend := iAdd(iv.a[1], iv.a[3])
				h.env[ph] = mk("slice", "", KVal, 0, iv.a[0], off, iSub(end, off), iSub(cend, off))
			case "window2":
				off, ln, cp := get("off", iv.a[1]), get("len", iv.a[2]), get("cap", iv.a[3])
				h.env[ph] = mk("slice", "", KVal, 0, iv.a[0], off, ln, cp)
			case "content":
				init := e.seqOf(entry.st, iv)
				c := get("content", init)
				o := mkObj(mk("alloc", id+":"+k, KVal, 0), nil)
				h.st.mem[o] = c
				h.env[ph] = mk("slice", "", KVal, 0, mkPtr(o), tZero, seqLen(c), mk("cap", "", KInt, 0, mk("seqid", id+":"+k, KSeq, 0, c)))
			case "nilfork":
				h.env[ph] = tNil
			case "scalar":
				h.env[ph] = get("", iv)
			default: // opaque
				h.env[ph] = mkTyped("phi", id+":"+k, ph.Type())
			}
		}
		objs := make([]*Term, 0, len(objVars))
		for o := range objVars {
			objs = append(objs, o)
		}
		sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
		for _, key := range order {
			v := vars[key]
			if v.ref.obj == nil {
				continue
			}
			if v.content {
				if v.fresh == nil {
					v.fresh = freshLike(v.init, id+":"+key, nil)
				}
				v.hdr = v.fresh
				if c, ok := closed[key]; ok {
					v.hdr = c
				}
				o := mkObj(mk("alloc", id+":"+key, KVal, 0), nil)
				h.st.mem[o] = v.hdr
				sl := mk("slice", "", KVal, 0, mkPtr(o), tZero, seqLen(v.hdr), mk("cap", "", KInt, 0, mk("seqid", id+":"+key, KSeq, 0, v.hdr)))
				h.st.mem[v.ref.obj] = leafSet(h.st.content(v.ref.obj), v.ref.leaf, sl, v.tmpl)
				continue
			}
			if v.window != nil {
				if v.fresh == nil {
					v.fresh = freshLike(v.init, id+":"+key, nil)
				}
				v.hdr = v.fresh
				if c, ok := closed[key]; ok {
					v.hdr = c
				}
				w := v.window
				h.st.mem[v.ref.obj] = leafSet(h.st.content(v.ref.obj), v.ref.leaf, mk("slice", "", KVal, 0, w.a[0], v.hdr, iSub(iAdd(w.a[1], w.a[2]), v.hdr), iSub(iAdd(w.a[1], w.a[3]), v.hdr)), v.tmpl)
				continue
			}
			if v.fresh == nil {
				nm := id + ":" + key
				if v.init.k == KVal && v.init.op == "slice" {
					b := mkT("phi", nm, KSeq, 0, nil)
					v.fresh = mk("slice", "", KVal, 0, mkPtr(mkObj(b, nil)), tZero, seqLen(b), mk("cap", "", KInt, 0, b))
				} else {
					v.fresh = freshLike(v.init, nm, nil)
					if w := leafWidth(v.ref.obj.typ, v.tmpl, v.ref.leaf); w > 0 && v.init.k == KInt {
						v.fresh = mk("phi", nm, KInt, w)
					}
				}
			}
			v.hdr = v.fresh
			if c, ok := closed[key]; ok {
				v.hdr = c
			}
			h.st.mem[v.ref.obj] = leafSet(h.st.content(v.ref.obj), v.ref.leaf, v.hdr, v.tmpl)
		}
		if !h.st.assume(mkGe0(K)) {
			return h
		}
		for _, f := range invFacts {
			h.st.assume(f)
		}
		return h
	}

	// forks lists the header states: h, and those in which a lazily made buffer exists already
	forks := func(h *path) []*path {
		hs := []*path{h}
		for _, ph := range phis {
			if mode[ph] != "nilfork" {
				continue
			}
			n := ci(forkLen[ph])
			for _, x := range hs[:len(hs):len(hs)] {
				y := x.clone()
				o := forkObj(ph)
				et := ph.Type().Underlying().(*types.Slice).Elem()
				y.st.mem[o] = mkT("fixed", "", KSeq, 0, et, n, mkT("phi", id+":"+ph.Name()+".buf", KSeq, 0, et))
				y.env[ph] = mk("slice", "", KVal, 0, mkPtr(o), tZero, n, n)
				hs = append(hs, y)
			}
		}
		return hs
	}
	// lazyBuf: at every back edge ph is nil or a buffer of one constant length that nothing else refers to
	lazyBuf := func(ph *ssa.Phi, backs []exitPath) bool {
		n := int64(-1)
		for _, b := range backs {
			v := b.p.env[ph]
			if v == tNil {
				continue
			}
			if v.op != "slice" || v.a[1] != tZero || v.a[2] != v.a[3] || v.a[0].op != "ptr" || len(v.a[0].a) == 0 {
				return false
			}
			c, ok := constInt(v.a[2])
			if !ok || n >= 0 && c != n {
				return false
			}
			n = c
			o := v.a[0].a[0]
			if o.a[0].op != "alloc" {
				return false
			}
			if _, old := entry.st.mem[o]; old {
				return false
			}
			for _, q := range phis {
				if q != ph && b.p.env[q] != nil && hasTerm(b.p.env[q], o) {
					return false
				}
			}
			for x, c := range b.p.st.mem {
				if x != o && hasTerm(c, o) {
					return false
				}
			}
		}
		if n < 0 || mode[ph] == "nilfork" && n != forkLen[ph] {
			return false
		}
		forkLen[ph] = n
		return true
	}

	var final *region
	var hdr *path
	for round := 0; ; round++ {
		if round > 14 {
			e.imprec["loop did not stabilise: "+site]++
			break
		}
		e.quiet++
		hdr = newHeader()
		hstart := hdr.clone()
		r := &region{e: e, fn: fn, info: info, loop: l}
		logLen := len(e.loopLog)
		r.run(l.header, forks(hdr), nil)
		e.loopLog = e.loopLog[:logLen]
		e.quiet--
		changed := false

		// phis that are not invariant
		for _, ph := range phis {
			iv := entry.env[ph]
			switch mode[ph] {
			case "inv":
				bad := false
				for _, b := range r.backs {
					if b.p.env[ph] != iv {
						bad = true
					}
				}
				if bad {
					changed = true
					switch {
					case iv.k == KInt || iv.k == KBool || iv.k == KSeq:
						mode[ph] = "scalar"
					case e.iterForms && iv == tNil && isSliceT(ph) && lazyBuf(ph, r.backs):
						mode[ph] = "nilfork"
					case iv.op == "slice" && backsSameBase(r.backs, ph, iv):
						mode[ph] = "window"
					case iv.op == "slice" || iv == tNil && isSliceT(ph):
						mode[ph] = "content"
					default:
						mode[ph] = "opaque"
					}
				}
			case "nilfork":
				if !lazyBuf(ph, r.backs) {
					mode[ph] = "content"
					changed = true
				}
			case "window":
				for _, b := range r.backs {
					bv := b.p.env[ph]
					if bv.op != "slice" || bv.a[0] != iv.a[0] {
						mode[ph] = "content"
						changed = true
						break
					}
					if iAdd(bv.a[1], bv.a[2]) != iAdd(iv.a[1], iv.a[2]) || iAdd(bv.a[1], bv.a[3]) != iAdd(iv.a[1], iv.a[3]) {
						mode[ph] = "window2"
						changed = true
						break
					}
				}
			case "window2":
				for _, b := range r.backs {
					bv := b.p.env[ph]
					if bv.op != "slice" || bv.a[0] != iv.a[0] {
						mode[ph] = "content"
						changed = true
						break
					}
				}
			}
		}
		if changed {
			continue
		}
		// memory modified by the body
		for _, b := range r.backs {
			for o, c := range b.p.st.mem {
				if _, ok := hstart.st.mem[o]; !ok && o.a[0].op == "alloc" {
					continue // allocated inside the body
				}
				hc := hstart.st.content(o)
				if hc == c {
					continue
				}
				var leaves [][]int
				diffLeaves(hc, c, nil, &leaves)
				tmpl := c
				for _, lf := range leaves {
					key := fmt.Sprintf("mem:%d:%v", o.id, lf)
					if _, ok := vars[key]; ok {
						continue
					}
					init := leafGet(entry.st.content(o), lf, tmpl)
					grow := e.grownSlice(entry.st, init, leafGet(c, lf, tmpl), len(lf) == 0)
					if grow {
						init = e.seqOf(entry.st, init)
					}
					nv := &lvar{key: key, ref: loopVarRef{obj: o, leaf: lf}, init: init, tmpl: tmpl, content: grow}
					if !grow && windowOf(init, leafGet(c, lf, tmpl)) {
						nv.window, nv.init = init, init.a[1]
					}
					addVar(nv)
					objVars[o] = true
					changed = true
				}
			}
		}
		if changed {
			continue
		}
		for _, key := range order {
			if v := vars[key]; v.window != nil {
				for _, b := range r.backs {
					if !windowOf(v.window, leafGet(b.p.st.content(v.ref.obj), v.ref.leaf, v.tmpl)) {
						v.init, v.window, v.fresh, v.state, v.facts = v.window, nil, nil, "", nil
						delete(closed, key)
						changed = true
						break
					}
				}
			}
		}
		if changed {
			continue
		}
		// current back values
		backVal := func(v *lvar, b *path) *Term {
			if v.content {
				return e.seqOf(b.st, leafGet(b.st.content(v.ref.obj), v.ref.leaf, v.tmpl))
			}
			if v.window != nil {
				return leafGet(b.st.content(v.ref.obj), v.ref.leaf, v.tmpl).a[1]
			}
			if v.ref.obj != nil {
				return leafGet(b.st.content(v.ref.obj), v.ref.leaf, v.tmpl)
			}
			bv := b.env[v.ref.phi]
			switch v.ref.part {
			case "off":
				return bv.a[1]
			case "len":
				return bv.a[2]
			case "cap":
				return bv.a[3]
			case "content":
				return e.seqOf(b.st, bv)
			}
			return bv
		}
		// verify and discover closed forms
		for _, key := range order {
			v := vars[key]
			if !varActive(v, mode) {
				continue
			}
			if _, ok := closed[key]; ok {
				// a closed form must be reproduced by the body: back == closed[K+1]
				want := substOne(closed[key], K, iAdd(K, tOne))
				for _, b := range r.backs {
					got := e.freeze(entry.st, b.p.st, e.canonSeq(b.p.st, backVal(v, b.p)))
					if got != want && !e.sameStep(v, closed[key], got, K, b.p.st) {
						if debugLoop {
							fmt.Fprintf(os.Stderr, "loop %s: closed form of %s broken: got %s want %s\n", id, key, got.str(12), want.str(12))
						}
						closed[key] = nil
						break
					}
				}
				if closed[key] == nil {
					delete(closed, key)
					v.state = "tried"
					changed = true
				}
				continue
			}
			if v.state == "tried" {
				continue
			}
			var bvs []*Term
			for _, b := range r.backs {
				bvs = append(bvs, e.freeze(entry.st, b.p.st, e.canonSeq(b.p.st, backVal(v, b.p))))
			}
			if len(bvs) == 0 {
				continue
			}
			if c := e.closedForm(v, bvs, r.backs, K, id, false); c != nil {
				if debugLoop {
					fmt.Fprintf(os.Stderr, "loop %s: %s := %s\n", id, key, c.str(8))
				}
				closed[key] = c
				changed = true
			} else if debugLoop {
				for _, b := range bvs {
					fmt.Fprintf(os.Stderr, "loop %s: %s open: init %s back %s\n", id, key, v.init.str(6), b.str(30))
				}
			}
		}
		if changed {
			continue
		}
		// sequences of which only the length is known
		for _, key := range order {
			v := vars[key]
			if _, ok := closed[key]; ok || !varActive(v, mode) || v.state != "" || v.fresh.k != KSeq {
				continue
			}
			var bvs []*Term
			for _, b := range r.backs {
				bvs = append(bvs, backVal(v, b.p))
			}
			if e.closedForm(v, bvs, r.backs, K, id, true); v.state == "len" {
				changed = true
			}
		}
		if changed {
			continue
		}
		// invariants from the facts established at every back edge
		cands := e.candidates(r, hstart, entry, K, vars, order, closed, mode, backVal)
		for _, c := range cands {
			if rejected[c] {
				continue
			}
			has := false
			for _, f := range invFacts {
				if f == c {
					has = true
				}
			}
			if !has {
				invFacts = append(invFacts, c)
				changed = true
			}
		}
		if changed {
			continue
		}
		// drop the assumed invariants the body does not preserve
		var keep []*Term
		for _, f := range invFacts {
			ok := true
			if f.op != "forall" {
				for _, b := range r.backs {
					m := map[*Term]*Term{K: iAdd(K, tOne)}
					for _, key := range order {
						v := vars[key]
						if !varActive(v, mode) {
							continue
						}
						if _, c := closed[key]; !c && v.fresh.k == KInt {
							m[v.fresh] = backVal(v, b.p)
						}
					}
					if b.p.st.eval(substM(f, m, map[*Term]*Term{})) != tTrue {
						ok = false
						break
					}
				}
			}
			if ok {
				keep = append(keep, f)
			} else {
				rejected[f] = true
				changed = true
			}
		}
		invFacts = keep
		if changed {
			continue
		}
		if e.loopHook != nil && !hooked {
			hooked = true
			li := e.loopInfo(fn, l, K, vars, order, mode, r, backVal, entry, hstart)
			if m := e.loopHook(li); len(m) > 0 {
				for _, key := range order {
					v := vars[key]
					if c, ok := m[v.fresh]; ok {
						closed[key] = c
						v.state = "hook"
						changed = true
					}
				}
			}
			if changed {
				continue
			}
		}
		break
	}
	// final, recorded round
	hdr = newHeader()
	hs := hdr.st.clone()
	final = &region{e: e, fn: fn, info: info, loop: l}
	final.run(l.header, forks(hdr), nil)
	backVal := func(v *lvar, b *path) *Term {
		if v.content {
			return e.seqOf(b.st, leafGet(b.st.content(v.ref.obj), v.ref.leaf, v.tmpl))
		}
		if v.window != nil {
			return leafGet(b.st.content(v.ref.obj), v.ref.leaf, v.tmpl).a[1]
		}
		if v.ref.obj != nil {
			return leafGet(b.st.content(v.ref.obj), v.ref.leaf, v.tmpl)
		}
		bv := b.env[v.ref.phi]
		switch v.ref.part {
		case "off":
			return bv.a[1]
		case "len":
			return bv.a[2]
		case "cap":
			return bv.a[3]
		case "content":
			return e.seqOf(b.st, bv)
		}
		return bv
	}
	li := e.loopInfo(fn, l, K, vars, order, mode, final, backVal, entry, &path{hs, nil})
	if e.quiet == 0 {
		e.loopLog = append(e.loopLog, li)
	}
	if e.quiet == 0 {
		var heads []*Term
		var hv []*lvar
		for _, key := range order {
			if v := vars[key]; varActive(v, mode) && v.hdr != nil {
				heads, hv = append(heads, v.hdr), append(hv, v)
			}
		}
		var outs []*State
		for _, x := range final.exits {
			outs = append(outs, x.p.st)
		}
		for _, o := range final.rets {
			outs = append(outs, o.st)
		}
		e.recordEnd(fn, l, e.endsWhy(id, start, K, final.backs, outs, hs, heads, func(i int, b *path) *Term { return backVal(hv[i], b) }))
	}
	// resolve K on the exits taken because a relaxed guard failed
	res := loopResult{rets: final.rets, exits: final.exits}
	for i := range res.exits {
		e.resolveK(res.exits[i].p, K, invFacts, info.live[res.exits[i].to])
	}
	for i := range res.rets {
		_ = i
	}
	return res
}

func contains(l []*Term, x *Term) bool {
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}

func isSliceT(v ssa.Value) bool { return strings.HasPrefix(v.Type().Underlying().String(), "[]") }

func backsSameBase(bs []exitPath, ph *ssa.Phi, iv *Term) bool {
	for _, b := range bs {
		bv := b.p.env[ph]
		if bv.op != "slice" || bv.a[0] != iv.a[0] {
			return false
		}
	}
	return true
}

func varActive(v *lvar, mode map[*ssa.Phi]string) bool {
	if v.fresh == nil {
		return false
	}
	if v.ref.phi == nil {
		return true
	}
	switch mode[v.ref.phi] {
	case "window":
		return v.ref.part == "off"
	case "window2":
		return v.ref.part == "off" || v.ref.part == "len" || v.ref.part == "cap"
	case "content":
		return v.ref.part == "content"
	case "scalar":
		return v.ref.part == ""
	}
	return false
}

func (e *Engine) loopInfo(fn *ssa.Function, l *loopT, K *Term, vars map[string]*lvar, order []string, mode map[*ssa.Phi]string, r *region, backVal func(*lvar, *path) *Term, entry, h *path) *LoopInfo {
	li := &LoopInfo{fn: fn, header: l.header, K: K, entry: entry.st, hdr: h.st, nexit: len(r.exits) + len(r.rets)}
	for _, key := range order {
		v := vars[key]
		if !varActive(v, mode) {
			continue
		}
		lv := &LoopVar{name: key, init: v.init, cur: v.hdr, raw: v.fresh}
		for _, b := range r.backs {
			lv.back = append(lv.back, backVal(v, b.p))
		}
		li.vars = append(li.vars, lv)
	}
	for _, b := range r.backs {
		li.backs = append(li.backs, b.p)
	}
	return li
}

// sameStep accepts a body result that extends a repeated or pointwise closed form.
func (e *Engine) sameStep(v *lvar, closed, got, K *Term, st *State) bool {
	if v.state == "hook" {
		return true
	}
	want := substOne(closed, K, iAdd(K, tOne))
	if got == want {
		return true
	}
	if closed.op == "orfold" && bOr(closed, substOne(closed.a[1], closed.a[0], K), closed.w) == got {
		return true
	}
	if closed.k == KSeq {
		for _, exp := range e.stepsOf(closed, want, K, st) {
			if exp == got || st.norm(exp) == st.norm(got) {
				return true
			}
		}
	}
	if st.norm(got) == st.norm(want) {
		return true
	}
	if got.k == KInt && want.k == KInt {
		if st.eval(mkEqInt(got, want)) == tTrue {
			return true
		}
	}
	return false
}

// stepsOf lists equivalent forms of closed[K+1] written in terms of closed[K].
func (e *Engine) stepsOf(closed, want, K *Term, st *State) []*Term {
	var out []*Term
	last := closed
	if closed.op == "cat" {
		last = closed.a[len(closed.a)-1]
	}
	if last.op == "rep" && last.a[2] == K {
		out = append(out, seqCat(closed, substOne(last.a[1], last.a[0], K)))
	}
	if last.op == "fill" && last.a[1] == K {
		out = append(out, seqCat(closed, mkList([]*Term{last.a[0]}, true)), seqCat(closed, mkList([]*Term{last.a[0]}, false)))
	}
	if last.op == "map" && last.a[2] == K {
		x := []*Term{substOne(last.a[1], last.a[0], K)}
		out = append(out, seqCat(closed, mkList(x, true)), seqCat(closed, mkList(x, false)))
	}
	switch closed.op {
	case "iter":
		return append(out, substOne(closed.a[1], closed.a[0], closed))
	case "blkmap":
		init, w := closed.a[0], closed.a[2]
		lo := iAdd(closed.a[1], iMul(w, K))
		hi := iAdd(lo, w)
		return append(out, seqCat(seqSubC(closed, tZero, lo, st.cmp), substOne(closed.a[4], closed.a[3], seqSubC(init, lo, hi, st.cmp)), seqSubC(init, hi, seqLen(init), st.cmp)))
	}
	if closed.op == "pw" {
		out = append(out, seqUpdC(closed, iAdd(closed.a[1], K), substOne(closed.a[3], closed.a[2], K), st.cmp))
	} else {
		n := seqLen(closed)
		out = append(out, seqCat(closed, seqSubC(want, n, seqLen(want), st.cmp)))
	}
	return out
}

func bvar(piece *Term) *Term {
	for i := 0; ; i++ {
		b := mk("bvar", strconv.Itoa(i), KInt, 0)
		if !hasTerm(piece, b) {
			return b
		}
	}
}

// closedForm finds the value of v at the header of iteration K.
func (e *Engine) closedForm(v *lvar, bvs []*Term, backs []exitPath, K *Term, id string, lenOnly bool) *Term {
	phi := v.fresh
	// unchanged
	same := true
	for _, b := range bvs {
		if b != phi {
			same = false
		}
	}
	if same {
		return v.init
	}
	if phi.k == KInt && phi.w > 0 && v.init == tZero {
		b0 := bvs[0]
		for _, b := range bvs[1:] {
			if b != b0 {
				b0 = nil
				break
			}
		}
		if b0 != nil && b0.op == "anf" {
			if g := substOne(b0, phi, tZero); !hasPhiExcept(g, id, K) && !hasTerm(g, phi) && bOr(phi, g, phi.w) == b0 {
				b := bvar(g)
				return mkOrfold(b, substOne(g, K, b), K, phi.w)
			}
		}
	}
	if phi.k == KInt {
		var step *Term
		for _, b := range bvs {
			d := iSub(b, phi)
			// modular counters
			if d.op != "int" && b.op == "wrap" {
				d = iSub(b.a[0], phi)
			}
			if hasPhi(d, id) && !loopInvariantStep(d, id, K) {
				return nil
			}
			if step != nil && step != d {
				return nil
			}
			step = d
		}
		if hasTerm(step, K) || hasPhi(step, id) {
			return nil
		}
		r := iAdd(v.init, iMul(step, K))
		if phi.w > 0 {
			return mkWrap(phi.w, r)
		}
		return r
	}
	if phi.k == KSeq {
		// accumulation
		var piece *Term
		for _, b := range bvs {
			var pc *Term
			if b.op == "cat" && b.a[0] == phi {
				pc = seqCat(b.a[1:]...)
			}
			if pc == nil || (piece != nil && pc != piece) {
				piece = nil
				break
			}
			piece = pc
		}
		if piece != nil && !hasPhiExcept(piece, id, K) {
			b := bvar(piece)
			return seqCat(v.init, mkRep(b, substOne(piece, K, b), K))
		}
		// pointwise update at base+K
		var upd *Term
		for _, b := range bvs {
			if b.op != "upd" || b.a[0] != phi || (upd != nil && b != upd) {
				upd = nil
				break
			}
			upd = b
		}
		if upd != nil {
			idx := upd.a[1]
			base := iSub(idx, K)
			if !hasTerm(base, K) && !hasPhi(base, id) {
				f := upd.a[2]
				// reads of the sequence itself are allowed at the same index only
				own := seqSel(phi, idx)
				f = substOne(f, own, seqSel(v.init, idx))
				if !hasPhiExcept(f, id, K) {
					b := bvar(f)
					return mkPW(v.init, base, b, substOne(f, K, b), K)
				}
			}
		}
		if e.iterForms && len(bvs) > 0 {
			b0 := bvs[0]
			for _, b := range bvs[1:] {
				if b != b0 {
					b0 = nil
					break
				}
			}
			if b0 != nil {
				if c := blockForm(v.init, phi, b0, K, id); c != nil {
					return c
				}
				if c := iterForm(v.init, phi, b0, K, id); c != nil {
					return c
				}
			}
		}
		// only the length is known
		ln := lenOnly
		for _, b := range bvs {
			if seqLen(b) != seqLen(phi) {
				ln = false
			}
		}
		if ln && v.state != "len" {
			v.state = "len"
			l := seqLen(v.init)
			old := v.fresh
			v.fresh = mkT("fixed", "", KSeq, 0, seqElemType(v.init), l, old)
		}
		return nil
	}
	return nil
}

// canonSeq rewrites minimal encodings whose length the path determines to fixed-width encodings.
func (e *Engine) canonSeq(st *State, t *Term) *Term {
	if !e.iterForms || t.k != KSeq || !hasOp(t, "minbe") {
		return t
	}
	m := map[*Term]*Term{}
	var walk func(t *Term)
	seen := map[*Term]bool{}
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "cat" {
			for i := len(t.a) - 1; i >= 0; i-- {
				if p := t.a[i]; p.op == "minbe" {
					if n, ok := constInt(st.norm(seqLen(p))); ok && n > 0 {
						m[p] = mkBE(n, p.a[0])
					} else if n, ok := constSpan(st, seqLen(p)); ok {
						m[p] = mkBE(n, p.a[0])
					}
				}
			}
		}
		for _, x := range t.a {
			walk(x)
		}
	}
	walk(t)
	if len(m) == 0 {
		return t
	}
	return substM(t, m, map[*Term]*Term{})
}

// constSpan: the facts pin x to one small constant.
func constSpan(st *State, x *Term) (int64, bool) {
	for _, n := range []int64{8, 16, 20, 32, 64} {
		if st.entails(mkGe0(iSub(x, ci(n)))) && st.entails(mkGe0(iSub(ci(n), x))) {
			return n, true
		}
	}
	return 0, false
}

func seqVar(body *Term, t types.Type) *Term {
	for i := 0; ; i++ {
		b := mkT("bvarseq", strconv.Itoa(i), KSeq, 0, t)
		if !hasTerm(body, b) {
			return b
		}
	}
}

// iterForm: the back value is a function of the sequence alone.
func iterForm(init, phi, back, K *Term, id string) *Term {
	if hasTerm(back, K) || !hasTerm(back, phi) {
		return nil
	}
	b := seqVar(back, seqElemType(init))
	body := substOne(back, phi, b)
	if hasPhi(body, id) {
		return nil
	}
	return mkIter(b, body, K, init)
}

// mkIter is body applied n times to init.
func mkIter(b, body, n, init *Term) *Term {
	if c, ok := constInt(n); ok && c >= 0 && c <= 8 {
		for ; c > 0; c-- {
			init = substOne(body, b, init)
		}
		return init
	}
	return mkT("iter", "", KSeq, 0, seqElemType(init), b, body, n, init)
}

// blockForm: the back value replaces block K (of constant width) by a function of that block.
func blockForm(init, phi, back, K *Term, id string) *Term {
	if back.op != "cat" || len(back.a) < 2 {
		return nil
	}
	first, last := back.a[0], back.a[len(back.a)-1]
	if first.op != "sub" || first.a[0] != phi || first.a[1] != tZero || last.op != "sub" || last.a[0] != phi || last.a[2] != seqLen(phi) {
		return nil
	}
	lo, hi := first.a[2], last.a[1]
	w, ok := constInt(iSub(hi, lo))
	if !ok || w <= 0 {
		return nil
	}
	base := iSub(lo, iScale(K, w))
	if hasTerm(base, K) || hasPhi(base, id) {
		return nil
	}
	mid := seqCat(back.a[1 : len(back.a)-1]...)
	if seqLen(mid) != ci(w) {
		return nil
	}
	b := seqVar(mid, seqElemType(init))
	body := substOne(mid, seqSubC(phi, lo, hi, constCmp), b)
	if hasPhi(body, id) || hasTerm(body, K) {
		return nil
	}
	return mkBlkmap(init, base, ci(w), b, body, K)
}

// mkBlkmap is init with the n blocks of w elements from base replaced by body(block).
func mkBlkmap(init, base, w, b, body, n *Term) *Term {
	if n == tZero {
		return init
	}
	return mkT("blkmap", "", KSeq, 0, seqElemType(init), init, base, w, b, body, n)
}

// mkPW is init with [base, base+count) replaced by f(b), b in [0,count).
func mkPW(init, base, b, f, count *Term) *Term {
	if count == tZero {
		return init
	}
	return mkT("pw", "", KSeq, 0, seqElemType(init), init, base, b, f, count)
}

func loopInvariantStep(d *Term, id string, K *Term) bool { return false }

func hasPhi(t *Term, id string) bool { return hasPhiX(t, id, nil, map[*Term]bool{}) }
func hasPhiExcept(t *Term, id string, K *Term) bool {
	return hasPhiX(t, id, K, map[*Term]bool{})
}

func hasPhiX(t *Term, id string, K *Term, seen map[*Term]bool) bool {
	if seen[t] || t == K {
		return false
	}
	seen[t] = true
	if t.op == "phi" && strings.Contains(t.s, id) {
		return true
	}
	for _, x := range t.a {
		if hasPhiX(x, id, K, seen) {
			return true
		}
	}
	return false
}

// candidates proposes invariants that hold at loop entry.
func (e *Engine) candidates(r *region, h, entry *path, K *Term, vars map[string]*lvar, order []string, closed map[string]*Term, mode map[*ssa.Phi]string, backVal func(*lvar, *path) *Term) []*Term {
	var out []*Term
	if len(r.backs) == 0 {
		return nil
	}
	base := map[*Term]*Term{K: tZero}
	var open []*lvar
	for _, key := range order {
		v := vars[key]
		if !varActive(v, mode) {
			continue
		}
		if _, ok := closed[key]; !ok && v.fresh.k == KInt {
			base[v.fresh] = v.init
			open = append(open, v)
		}
	}
	// what is left of a moving window, whose start is a function of K
	var windows []*Term
	for _, key := range order {
		v := vars[key]
		c, ok := closed[key]
		if !ok || !varActive(v, mode) {
			continue
		}
		if w := v.window; w != nil {
			windows = append(windows, iSub(iAdd(w.a[1], w.a[2]), c))
		} else if v.ref.part == "off" && mode[v.ref.phi] == "window" {
			iv := entry.env[v.ref.phi]
			windows = append(windows, iSub(iAdd(iv.a[1], iv.a[2]), c))
		}
	}
	add := func(f *Term) {
		if f == tTrue || f == tFalse {
			return
		}
		if entry.st.eval(substM(f, base, map[*Term]*Term{})) == tTrue {
			out = append(out, f)
		}
	}
	for _, w := range windows {
		add(mkGe0(w))
	}
	for _, v := range open {
		add(mkGe0(v.fresh))
		add(mkGe0(iSub(v.fresh, v.init)))
		add(mkGe0(iSub(v.init, v.fresh)))
		if v.ref.part == "off" && mode[v.ref.phi] == "window" {
			iv := entry.env[v.ref.phi]
			add(mkGe0(iSub(iAdd(iv.a[1], iv.a[2]), v.fresh)))
		}
		if w := v.window; w != nil {
			add(mkGe0(iSub(iAdd(w.a[1], w.a[2]), v.fresh)))
		}
	}
	// relations between open variables
	if len(open) <= 6 {
		for i, v := range open {
			for _, w := range open[i+1:] {
				d := iSub(iAdd(v.fresh, w.fresh), iAdd(v.init, w.init))
				add(mkGe0(d))
				add(mkGe0(iNeg(d)))
				d = iSub(iSub(v.fresh, w.fresh), iSub(v.init, w.init))
				add(mkGe0(d))
				add(mkGe0(iNeg(d)))
			}
		}
	}
	// facts common to all back edges
	common := map[*Term]bool{}
	for f, val := range r.backs[0].p.st.facts {
		if hv, ok := h.st.facts[f]; ok && hv == val {
			continue
		}
		all := true
		for _, b := range r.backs[1:] {
			if bv, ok := b.p.st.facts[f]; !ok || bv != val {
				all = false
			}
		}
		if !all {
			continue
		}
		c := f
		if !val {
			c = bnot(f)
		}
		common[c] = true
	}
	keys := make([]*Term, 0, len(common))
	for c := range common {
		keys = append(keys, c)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	id := strings.TrimPrefix(K.s, "K:")
	for _, c := range keys {
		if !hasTerm(c, K) {
			// a bound on an open variable: relax by its step
			if c.op == "ge0" {
				for _, v := range open {
					if hasTerm(c, v.fresh) {
						for _, b := range r.backs {
							d := iSub(backVal(v, b.p), v.fresh)
							if d.op == "int" && d.n.Sign() != 0 {
								add(substOne(c, v.fresh, iSub(v.fresh, d)))
							}
						}
						add(c)
					}
				}
			}
			continue
		}
		if hasPhiExcept(c, id, K) {
			continue
		}
		if c.op == "ge0" {
			add(substOne(c, K, iSub(K, tOne)))
			if !elementTest(c, K) {
				continue
			}
		}
		if c.op == "or" || c.op == "forall" {
			continue
		}
		if c.op == "not" && c.a[0].op == "eq0" {
			if k, ok := toPoly(c.a[0].a[0])[K]; ok && k.IsInt64() && (k.Int64() == 1 || k.Int64() == -1) {
				add(mkGe0(iScale(c.a[0].a[0], -k.Int64())))
			}
		}
		b := bvar(c)
		out = append(out, mk("forall", "", KBool, 0, b, substOne(c, K, b), K))
	}
	if d := elementCases(r, h, K, id); d != nil {
		b := bvar(d)
		out = append(out, mk("forall", "", KBool, 0, b, substOne(d, K, b), K))
	}
	return out
}

// elementCases is what the ways round the loop, taken together, say about the element of the iteration: a condition on a
// single element, one case for each way.
func elementCases(r *region, h *path, K *Term, id string) *Term {
	if len(r.backs) < 2 || len(r.backs) > 40 {
		return nil
	}
	var el *Term
	var cases []*Term
	for _, bk := range r.backs {
		var cs []*Term
		for f, val := range bk.p.st.facts {
			if hv, ok := h.st.facts[f]; ok && hv == val || !hasTerm(f, K) || hasOp(f, "forall") || hasPhiExcept(f, id, K) {
				continue
			}
			x, ok := soleElement(f, K)
			if !ok || el != nil && x != el {
				continue
			}
			el = x
			if !val {
				f = bnot(f)
			}
			cs = append(cs, f)
		}
		if len(cs) == 0 {
			return nil
		}
		sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
		cases = append(cases, bnot(mkAnd(cs...)))
	}
	return bnot(mkAnd(cases...))
}

// soleElement: the element of a sequence at the position of the iteration, when the condition is about nothing else.
func soleElement(f, K *Term) (el *Term, ok bool) {
	ok = true
	var visit func(t *Term)
	visit = func(t *Term) {
		switch {
		case t.op == "sel" && hasTerm(t.a[1], K):
			if el != nil && el != t {
				ok = false
			}
			el = t
			return
		case len(t.a) == 0 && t.op != "int" && t.op != "true" && t.op != "false":
			ok = false
		case t.op == "app" || t.op == "phi" || t.op == "len":
			ok = false
		}
		for _, x := range t.a {
			visit(x)
		}
	}
	visit(f)
	return el, ok && el != nil
}

// resolveK replaces K by its exit value when a relaxed guard p(K-1)>=0 fails as p(K)<0.
func (e *Engine) resolveK(p *path, K *Term, inv []*Term, live map[ssa.Value]bool) {
	for _, f := range p.st.sortedFacts() {
		if f.op != "eq0" || !p.st.facts[f] {
			continue
		}
		q := toPoly(f.a[0])
		k, ok := q[K]
		if !ok || !k.IsInt64() || (k.Int64() != 1 && k.Int64() != -1) {
			continue
		}
		val := iSub(K, iScale(f.a[0], k.Int64()))
		if hasTerm(val, K) {
			continue
		}
		e.substPath(p, K, val, live)
		return
	}
	for _, f := range inv {
		if f.op != "ge0" || !hasTerm(f, K) {
			continue
		}
		q := toPoly(f.a[0]) // p(K-1)
		c, ok := q[K]
		if !ok || c.Sign() >= 0 {
			continue
		}
		nonlin := false
		rest := poly{}
		for m, k := range q {
			if m == K {
				continue
			}
			if hasTerm(m, K) {
				nonlin = true
			}
			rest[m] = k
		}
		if nonlin {
			continue
		}
		a := new(big.Int).Neg(c) // p(K-1) = rest - a*K  =>  p(K) = rest - a - a*K
		pK := fromPoly(polyAddScaled(q, poly{tOne: a}, big.NewInt(-1)))
		if !p.st.entails(mkGe0(iSub(ci(-1), pK))) {
			continue
		}
		// a*K <= rest < a*(K+1)  =>  K = floor(rest/a)
		val := iFdiv(fromPoly(rest), cbig(a))
		e.substPath(p, K, val, live)
		return
	}
}

func (e *Engine) substPath(p *path, x, y *Term, live map[ssa.Value]bool) {
	m := map[*Term]*Term{x: y}
	memo := map[*Term]*Term{}
	for v, t := range p.env {
		if live == nil || live[v] {
			p.env[v] = p.st.norm(substM(t, m, memo))
		}
	}
	for o, c := range p.st.mem {
		p.st.mem[o] = substM(c, m, memo)
	}
	nf := map[*Term]bool{}
	old := p.st.facts
	p.st.facts = nf
	p.st.entC = map[*Term]int8{}
	keys := make([]*Term, 0, len(old))
	for f := range old {
		keys = append(keys, f)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	for _, f := range keys {
		g := substM(f, m, memo)
		if !old[f] {
			g = bnot(g)
		}
		if !p.st.assume(g) {
			p.st.dead = true
		}
	}
	for o, c := range p.st.mem {
		if hasOp(c, "pw") {
			p.st.mem[o] = finishPW(c, p.st)
		}
	}
}

func hasOp(t *Term, op string) bool {
	if t.op == op {
		return true
	}
	for _, x := range t.a {
		if hasOp(x, op) {
			return true
		}
	}
	return false
}

// finishPW turns a completed pointwise update into a splice.
func finishPW(t *Term, st *State) *Term {
	if t.op == "pw" {
		init, base, b, f, n := t.a[0], t.a[1], t.a[2], t.a[3], t.a[4]
		if st.eval(mkGe0(n)) == tTrue {
			mid := mkMapSeq(b, f, n)
			return seqCat(seqSubC(init, tZero, base, st.cmp), mid, seqSubC(init, iAdd(base, n), seqLen(init), st.cmp))
		}
		return t
	}
	if len(t.a) == 0 || !hasOp(t, "pw") {
		return t
	}
	na := make([]*Term, len(t.a))
	for i, x := range t.a {
		na[i] = finishPW(x, st)
	}
	return rebuild(t, na)
}

// elementTest: c is a condition on an element selected by K (and K occurs nowhere else).
// onlyIndex: K occurs in t only as the index of an element.
func onlyIndex(t, K *Term) bool {
	if t == K {
		return false
	}
	for i, x := range t.a {
		if t.op == "sel" && i == 1 && x == K {
			continue
		}
		if !onlyIndex(x, K) {
			return false
		}
	}
	return true
}

func elementTest(c, K *Term) bool {
	if c.op != "ge0" {
		return false
	}
	found := false
	for m := range toPoly(c.a[0]) {
		if m == K {
			return false
		}
		if m != nil && hasTerm(m, K) {
			if !onlyIndex(m, K) {
				return false
			}
			found = true
		}
	}
	return found
}

// freeze replaces, in the elements an iteration appends, slices of storage allocated by that
// iteration by their contents.
func (e *Engine) freeze(before, st *State, t *Term) *Term {
	if !e.freezeElems || t.k != KSeq {
		return t
	}
	if t.op == "upd" {
		if x := e.freezeD(before, st, t.a[2], 0); x != t.a[2] {
			return seqUpdC(t.a[0], t.a[1], x, st.cmp)
		}
	}
	if t.op != "cat" {
		return t
	}
	na := append([]*Term{}, t.a...)
	for i, x := range na {
		if x.op == "list" {
			na[i] = e.freezeD(before, st, x, 0)
		}
	}
	return seqCat(na...)
}

func (e *Engine) freezeD(before, st *State, v *Term, d int) *Term {
	if d > 10 {
		return v
	}
	switch v.op {
	case "slice":
		if len(v.a[0].a) == 0 || v.a[0].op != "ptr" {
			return v
		}
		o := v.a[0].a[0]
		if _, ok := before.mem[o]; ok {
			return v
		}
		if _, ok := baseMem[o]; ok {
			return v
		}
		if _, ok := st.mem[o]; !ok {
			return v
		}
		return e.freezeD(before, st, e.seqOf(st, v), d+1)
	case "struct", "list", "cat":
		ch := false
		na := make([]*Term, len(v.a))
		for i, x := range v.a {
			na[i] = e.freezeD(before, st, x, d+1)
			ch = ch || na[i] != x
		}
		if ch {
			if v.op == "cat" {
				return seqCat(na...)
			}
			return mkT(v.op, v.s, v.k, v.w, v.typ, na...)
		}
	}
	return v
}

// grownSlice: a slice kept in memory is replaced by one with other backing storage (append).
func (e *Engine) grownSlice(before *State, init, back *Term, variable bool) bool {
	if variable && init.op == "slice" && back.op == "slice" && back.a[0] == init.a[0] && back.a[1] == init.a[1] && init.a[2] == tZero && back.a[2] != tZero {
		return true // appended within the capacity of an empty slice
	}
	if !e.freezeElems && !variable || back.op != "slice" || back.a[0].op != "ptr" || len(back.a[0].a) == 0 || back.a[0].a[0].a[0].op != "alloc" {
		return false
	}
	if _, old := before.mem[back.a[0].a[0]]; old {
		return false
	}
	return init == tNil || init.op == "slice" && init.a[0] != back.a[0]
}
