package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Outcome is one way a call can end.
type Outcome struct {
	st    *State
	res   *Term // nil, a value, or a tuple
	panic bool
	at    ssa.Instruction // return or panic site
	fn    *ssa.Function
	subst [][2]*Term // replacements applied by a refinement
}

// path is one partition at a program point.
type path struct {
	st  *State
	env map[ssa.Value]*Term
}

func (p *path) clone() *path {
	e := make(map[ssa.Value]*Term, len(p.env)+8)
	for k, v := range p.env {
		e[k] = v
	}
	return &path{p.st.clone(), e}
}

// Obligation is a runtime check that must never fail.
type Obligation struct {
	kind   string
	instr  ssa.Instruction
	fn     *ssa.Function
	ok     int
	bad    int
	detail string
	state  *State
}

type Model func(e *Engine, c *callCtx) []Outcome

type callCtx struct {
	st    *State
	name  string
	args  []*Term
	instr ssa.CallInstruction
	fn    *ssa.Function // caller
	sig   *types.Signature
	env   map[ssa.Value]*Term
}

type Engine struct {
	P           *Program
	models      map[string]Model
	depth       int
	stack       []*ssa.Function
	quiet       int
	obls        map[string]*Obligation
	loopLog     []*LoopInfo
	loopHook    func(*LoopInfo) map[*Term]*Term
	callHook    func(fn *ssa.Function, st *State, args []*Term) []Outcome // optional summary for an in-module call
	unmod       map[string]int
	imprec      map[string]int
	steps       int
	maxSteps    int
	maxPaths    int
	curLoop     []*LoopInfo
	curveParams *Term // its parameters, as seen by curve operations
	curve       *Term // the SM2 curve value, when key parameters are bound to it
	freezeElems bool
	runesOf     func(st *State, s *Term) *Term // the characters of a string known byte by byte, nil if it is not
	knownLists  bool                           // the facts fix the numbers of elements of the lists taken apart by loops
	cbTags      map[*Term]*Term                // the tags of DER elements, where fixed
	noMerge     bool                           // keep paths with equal states apart
	iterForms   bool                           // closed forms for iterated functions and block-wise updates
	pinned      []*Term                        // objects kept alive by an analysis
	frames      []map[ssa.Value]*Term          // environments of the active callers
	fnsSeen     map[*ssa.Function]bool
	local       map[string]bool // module functions replaced by their own property's summary
}

func newEngine(p *Program) *Engine {
	e := &Engine{P: p, models: stdModels, obls: map[string]*Obligation{}, unmod: map[string]int{}, imprec: map[string]int{}, maxSteps: 60_000_000, maxPaths: 160, fnsSeen: map[*ssa.Function]bool{}}
	p.engines = append(p.engines, e)
	return e
}

type abortError struct{ msg string }

func (e *Engine) abort(f string, a ...any) { panic(abortError{fmt.Sprintf(f, a...)}) }

// ---------------------------------------------------------------- memory access

func mkPtr(obj *Term, path ...*Term) *Term {
	return mk("ptr", "", KVal, 0, append([]*Term{obj}, path...)...)
}

func pField(t types.Type, i int) *Term {
	return mkT("pf", tstr(t)+"#"+strconv.Itoa(i), KVal, i, t)
}

func pIndex(i *Term) *Term { return mk("ix", "", KVal, 0, i) }

func (e *Engine) load(st *State, p *Term) *Term {
	if p.op != "ptr" {
		return mk("deref", "", KVal, 0, p)
	}
	c := st.content(p.a[0])
	for _, x := range p.a[1:] {
		c = e.project(st, c, x)
	}
	return c
}

func (e *Engine) project(st *State, c, x *Term) *Term {
	if x.op == "pf" {
		return fld(c, x.typ, x.w)
	}
	r := seqSelC(c, x.a[0], st.cmp)
	if e.knownLists && r.op == "sel" && c.op == "cat" && r.a[0] != c && r.a[1].op != "int" {
		return seqSelC(r.a[0], st.pin(r.a[1]), st.cmp)
	}
	return r
}

func (e *Engine) store(st *State, p, v *Term) {
	if p.op != "ptr" {
		e.imprec["store through unknown pointer"]++
		return
	}
	o := p.a[0]
	st.mem[o] = e.update(st, st.content(o), p.a[1:], v)
	if root := o.a[0]; root.op != "alloc" {
		st.event(&Event{kind: "write", name: root.String(), args: []*Term{p, v}})
	}
}

func (e *Engine) update(st *State, c *Term, path []*Term, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	x := path[0]
	if x.op == "pf" {
		return setFld(c, x.typ, x.w, e.update(st, fld(c, x.typ, x.w), path[1:], v))
	}
	el := v
	if len(path) > 1 {
		el = e.update(st, seqSelC(c, x.a[0], st.cmp), path[1:], v)
	}
	return seqUpdC(c, x.a[0], el, st.cmp)
}

// seqOf is the content of a slice, string or nil.
func (e *Engine) seqOf(st *State, v *Term) *Term {
	switch {
	case v == tNil:
		return tEmpty
	case v.op == "slice":
		return seqSubC(e.load(st, v.a[0]), v.a[1], iAdd(v.a[1], v.a[2]), st.cmp)
	case v.k == KSeq:
		return v
	case v.op == "ptr": // pointer to array
		return e.load(st, v)
	}
	return mk("seqof", "", KSeq, 0, v)
}

func (e *Engine) lenOf(st *State, v *Term) *Term {
	switch {
	case v == tNil:
		return tZero
	case v.op == "slice":
		return v.a[2]
	case v.k == KSeq:
		return seqLen(v)
	case v.op == "ptr":
		return seqLen(e.load(st, v))
	}
	return mk("len", "", KInt, 0, v)
}

// newSlice allocates a fresh backing store with the given content.
func (e *Engine) newSlice(st *State, site string, content *Term) *Term {
	o := e.alloc(st, site)
	st.mem[o] = content
	n := seqLen(content)
	return mk("slice", "", KVal, 0, mkPtr(o), tZero, n, n)
}

func (e *Engine) alloc(st *State, site string) *Term {
	return mkObj(mk("alloc", site+"#"+strconv.Itoa(st.fresh(site)), KVal, 0), nil)
}

func (e *Engine) newPtr(st *State, site string, content *Term) *Term {
	o := e.alloc(st, site)
	st.mem[o] = content
	return mkPtr(o)
}

// writeSeq overwrites v[at:at+len(src)] for a slice value.
func (e *Engine) writeSeq(st *State, v, at, src *Term) {
	if v.op != "slice" || src == tEmpty {
		return
	}
	old := e.load(st, v.a[0])
	e.store(st, v.a[0], seqSplice(old, iAdd(v.a[1], at), src, st.cmp))
}

func siteOf(in ssa.Instruction) string {
	fn := in.Parent()
	i := 0
	for j, x := range in.Block().Instrs {
		if x == in {
			i = j
			break
		}
	}
	return fn.String() + ":" + strconv.Itoa(in.Block().Index) + "." + strconv.Itoa(i)
}

// snap makes the value independent of the heap, for use as an argument of a pure function.
func (e *Engine) snap(st *State, v *Term) *Term { return e.snapD(st, v, 0) }

func (e *Engine) snapD(st *State, v *Term, d int) *Term {
	if d > 14 || v == nil {
		return v
	}
	switch v.op {
	case "ptr":
		if _, ok := st.mem[v.a[0]]; !ok {
			if _, ok := baseMem[v.a[0]]; !ok && len(v.a) == 1 {
				return v.a[0].a[0]
			}
		}
		c := e.load(st, v)
		if c.op == "hashst" {
			return c
		}
		return mk("ref", "", KVal, 0, e.snapD(st, c, d+1))
	case "slice":
		return e.snapD(st, e.seqOf(st, v), d+1)
	case "map":
		if x := e.snapD(st, v.a[1], d+1); x != v.a[1] {
			return mkMapSeq(v.a[0], x, v.a[2])
		}
		return v
	case "rep":
		if x := e.snapD(st, v.a[1], d+1); x != v.a[1] {
			return mkRep(v.a[0], x, v.a[2])
		}
		return v
	case "struct", "iface", "list", "tuple", "cat":
		ch := false
		na := make([]*Term, len(v.a))
		for i, x := range v.a {
			na[i] = e.snapD(st, x, d+1)
			ch = ch || na[i] != x
		}
		if ch {
			if v.op == "cat" {
				return seqCat(na...)
			}
			return mkT(v.op, v.s, v.k, v.w, v.typ, na...)
		}
	}
	return v
}

// ---------------------------------------------------------------- function execution

func (e *Engine) call(st *State, fn *ssa.Function, args, bind []*Term) []Outcome {
	if fn.Blocks == nil {
		e.abort("no body: %s", fn)
	}
	for _, f := range e.stack {
		if f == fn {
			n := 0
			for _, g := range e.stack {
				if g == fn {
					n++
				}
			}
			if n > 3 {
				e.abort("recursion through %s", fn)
			}
		}
	}
	if len(e.stack) > 60 {
		e.abort("call depth")
	}
	e.fnsSeen[fn] = true
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	p := &path{st, map[ssa.Value]*Term{}}
	for i, pr := range fn.Params {
		p.env[pr] = args[i]
	}
	for i, fv := range fn.FreeVars {
		p.env[fv] = bind[i]
	}
	r := &region{e: e, fn: fn, info: e.P.cfg(fn)}
	r.run(fn.Blocks[0], []*path{p}, nil)
	for _, o := range r.rets {
		e.collect(o.st, nil, nil, o.res)
	}
	return e.mergeOutcomes(r.rets)
}

// mergeOutcomes joins outcomes that are equal up to facts.
func (e *Engine) mergeOutcomes(os []Outcome) []Outcome {
	if len(os) < 2 || e.noMerge && len(os) <= e.maxPaths {
		return os
	}
	var out []Outcome
	for _, o := range os {
		if o.res != nil && !o.panic {
			o.res = o.st.norm(o.res)
		}
		merged := false
		for i := range out {
			if out[i].panic != o.panic || (out[i].res == nil) != (o.res == nil) {
				continue
			}
			if o.st.ev != out[i].st.ev && !sameEvents(o.st.ev, out[i].st.ev) {
				continue
			}
			u := newIso(o.st, out[i].st)
			res := out[i].res
			if o.res != nil {
				r, ok := u.val(o.res, res)
				if !ok {
					continue
				}
				res = r
			}
			if m := u.merge(); m != nil {
				out[i].st, out[i].res = m, res
				merged = true
				break
			}
		}
		if !merged {
			out = append(out, o)
		}
	}
	return out
}

// mergeStates joins two states with equal memory and events; facts are intersected.
func mergeStates(a, b *State, _ any) *State {
	if a == b {
		return a
	}
	if a.ev != b.ev && !sameEvents(a.ev, b.ev) {
		return nil
	}
	// memory: objects present in both must agree; objects missing in one are unreachable there
	for o, c := range a.mem {
		if d, ok := b.mem[o]; ok {
			if c != d {
				if a.norm(c) == b.norm(d) {
					continue
				}
				return nil
			}
		} else if o.a[0].op != "alloc" {
			if b.content(o) != c {
				return nil
			}
		}
	}
	for o, d := range b.mem {
		if _, ok := a.mem[o]; !ok && o.a[0].op != "alloc" {
			if a.content(o) != d {
				return nil
			}
		}
	}
	m := a.clone()
	for o, d := range b.mem {
		if c, ok := m.mem[o]; ok && c != d {
			m.mem[o] = a.norm(c)
		} else {
			m.mem[o] = d
		}
	}
	joinFacts(m, a, b)
	for k, v := range b.ctr {
		if v > m.ctr[k] {
			m.ctr[k] = v
		}
	}
	return m
}

func joinFacts(m, a, b *State) {
	m.facts = map[*Term]bool{}
	m.entC = map[*Term]int8{}
	var onlyA, onlyB []*Term
	for f, v := range a.facts {
		if w, ok := b.facts[f]; ok && v == w {
			m.facts[f] = v
		} else {
			onlyA = append(onlyA, f)
		}
	}
	for f := range b.facts {
		if _, ok := m.facts[f]; !ok {
			onlyB = append(onlyB, f)
		}
	}
	sort.Slice(onlyA, func(i, j int) bool { return onlyA[i].id < onlyA[j].id })
	sort.Slice(onlyB, func(i, j int) bool { return onlyB[i].id < onlyB[j].id })
	keep := func(f *Term, v bool, other *State) {
		c := f
		if !v {
			c = bnot(f)
		}
		if other.eval(c) == tTrue {
			m.facts[f] = v
		}
	}
	if len(onlyA) <= 24 {
		for _, f := range onlyA {
			keep(f, a.facts[f], b)
		}
	}
	if len(onlyB) <= 24 {
		for _, f := range onlyB {
			keep(f, b.facts[f], a)
		}
	}
	// remember the disjunction of what distinguished the two
	conj := func(fs []*Term, st *State) *Term {
		var el []*Term
		for _, f := range fs {
			if _, ok := m.facts[f]; ok {
				continue
			}
			if st.facts[f] {
				el = append(el, f)
			} else {
				el = append(el, bnot(f))
			}
		}
		if len(el) == 1 {
			return el[0]
		}
		sort.Slice(el, func(i, j int) bool { return el[i].id < el[j].id })
		return mk("and", "", KBool, 0, el...)
	}
	if len(onlyA) == 0 || len(onlyB) == 0 || len(onlyA)+len(onlyB) > 80 {
		return
	}
	ca, cb := conj(onlyA, a), conj(onlyB, b)
	if (ca.op == "and" && len(ca.a) == 0) || (cb.op == "and" && len(cb.a) == 0) || ca == bnot(cb) {
		return
	}
	var alts []*Term
	add := func(c *Term) {
		if c.op == "or" {
			alts = append(alts, c.a...)
		} else {
			alts = append(alts, c)
		}
	}
	add(ca)
	add(cb)
	sort.Slice(alts, func(i, j int) bool { return alts[i].id < alts[j].id })
	m.facts[mk("or", "", KBool, 0, alts...)] = true
}

// forAlts checks f on every disjunct of some disjunctive fact, or on s itself.
func forAlts(s *State, f func(*State) bool) bool { return forAltsD(s, f, 0) }

func forAltsD(s *State, f func(*State) bool, d int) bool {
	if f(s) {
		return true
	}
	if d > 12 {
		return false
	}
	for c, v := range s.facts {
		if !v || c.op != "or" {
			continue
		}
		all := true
		for _, alt := range c.a {
			n := s.clone()
			delete(n.facts, c)
			n.entC = map[*Term]int8{}
			if !n.assume(alt) {
				continue // impossible alternative
			}
			if !forAltsD(n, f, d+1) {
				all = false
				break
			}
		}
		if all {
			return true
		}
	}
	return false
}

func sameEvents(a, b *Event) bool {
	for a != b {
		if a == nil || b == nil {
			return false
		}
		if a.kind != b.kind || a.name != b.name || a.at != b.at || len(a.args) != len(b.args) || len(a.res) != len(b.res) {
			return false
		}
		for i := range a.args {
			if a.args[i] != b.args[i] {
				return false
			}
		}
		for i := range a.res {
			if a.res[i] != b.res[i] {
				return false
			}
		}
		a, b = a.prev, b.prev
	}
	return true
}

// ---------------------------------------------------------------- regions

type exitPath struct {
	p        *path
	from, to *ssa.BasicBlock
}

type region struct {
	e     *Engine
	fn    *ssa.Function
	info  *cfgInfo
	loop  *loopT // nil for the whole function
	rets  []Outcome
	exits []exitPath
	backs []exitPath
}

// run executes the region from block b; header is the loop header when the region is a loop body.
func (r *region) run(b *ssa.BasicBlock, entry []*path, _ any) {
	pending := map[int][]*path{}
	order := r.info.order
	push := func(from, to *ssa.BasicBlock, p *path) {
		if r.loop != nil {
			if to == r.loop.header {
				r.backs = append(r.backs, exitPath{p, from, to})
				return
			}
			if !r.loop.body[to] {
				r.exits = append(r.exits, exitPath{p, from, to})
				return
			}
		}
		pending[order[to]] = append(pending[order[to]], p)
	}
	pending[order[b]] = entry
	first := true
	for len(pending) > 0 {
		best := -1
		for k := range pending {
			if best < 0 || k < best {
				best = k
			}
		}
		blk := r.info.rpo[best]
		paths := pending[best]
		delete(pending, best)
		if !(first && r.loop != nil) {
			paths = r.e.mergePaths(paths, r.info.live[blk])
		}
		isEntry := first
		first = false
		if l := r.info.loopOf[blk]; l != nil && !(r.loop == l && isEntry) {
			for _, p := range paths {
				lr := r.e.execLoop(r.fn, r.info, l, p)
				r.rets = append(r.rets, lr.rets...)
				for _, x := range lr.exits {
					push(x.from, x.to, x.p)
				}
			}
			continue
		}
		for _, p := range paths {
			r.block(blk, p, push)
		}
	}
}

// widthKnown rewrites a minimal encoding to its fixed-width form once a branch has decided its width.
func (e *Engine) widthKnown(p *path, c *Term) {
	for c.op == "not" {
		c = c.a[0]
	}
	if c.op != "ge0" {
		return
	}
	for m := range toPoly(c.a[0]) {
		if m.op == "len" && m.a[0].op == "minbe" && isCoordLike(m.a[0].a[0]) && p.st.entails(mkGe0(iSub(m, ci(32)))) {
			e.substPath(p, m.a[0], mkBE(32, m.a[0].a[0]), nil)
		}
	}
}

// objsIn lists the heap objects mentioned in t.
var objsMemo = map[*Term][]*Term{}

func objsIn(t *Term) []*Term {
	if t == nil || len(t.a) == 0 {
		return nil
	}
	if r, ok := objsMemo[t]; ok {
		return r
	}
	var r []*Term
	seen := map[*Term]bool{}
	add := func(o *Term) {
		if !seen[o] {
			seen[o] = true
			r = append(r, o)
		}
	}
	if t.op == "obj" {
		add(t)
	}
	for _, x := range t.a {
		for _, o := range objsIn(x) {
			add(o)
		}
	}
	objsMemo[t] = r
	return r
}

// collect drops the allocations no live value, caller, event or other object refers to.
func (e *Engine) collect(st *State, env map[ssa.Value]*Term, live map[ssa.Value]bool, extra ...*Term) {
	seen := map[*Term]bool{}
	var work []*Term
	root := func(t *Term) {
		for _, o := range objsIn(t) {
			if !seen[o] {
				seen[o] = true
				work = append(work, o)
			}
		}
	}
	for v := range live {
		if t := env[v]; t != nil {
			root(t)
		}
	}
	for _, t := range extra {
		root(t)
	}
	for _, f := range e.frames {
		for _, t := range f {
			root(t)
		}
	}
	for _, o := range e.pinned {
		root(o)
	}
	for ev := st.ev; ev != nil; ev = ev.prev {
		for _, t := range ev.args {
			root(t)
		}
		for _, t := range ev.res {
			root(t)
		}
	}
	// what a package variable leads to stays, also where it was changed
	for o, c := range st.mem {
		if _, base := baseMem[o]; base {
			seen[o] = true
			root(c)
		} else if o.a[0].op != "alloc" {
			root(c)
		}
	}
	for len(work) > 0 {
		o := work[len(work)-1]
		work = work[:len(work)-1]
		if c, ok := st.mem[o]; ok {
			root(c)
		}
	}
	for o := range st.mem {
		if o.a[0].op == "alloc" && !seen[o] {
			delete(st.mem, o)
		}
	}
}

func (e *Engine) mergePaths(ps []*path, live map[ssa.Value]bool) []*path {
	if len(ps) < 2 || e.noMerge && len(ps) <= e.maxPaths {
		return ps
	}
	for _, p := range ps {
		e.collect(p.st, p.env, live)
	}
	var out []*path
	for _, p := range ps {
		done := false
		for i, q := range out {
			if m := isoEnv(p, q, live); m != nil {
				out[i] = m
				done = true
				break
			}
		}
		if !done {
			out = append(out, p)
		}
	}
	if len(out) > e.maxPaths {
		out = e.forceMerge(out, live)
	}
	return out
}

// forceMerge joins all paths, replacing differing values by opaque joins.
func (e *Engine) forceMerge(ps []*path, live map[ssa.Value]bool) []*path {
	e.imprec["forced join"]++
	acc := ps[0].clone()
	for _, p := range ps[1:] {
		n := strconv.Itoa(acc.st.fresh("join"))
		for v := range live {
			a, b := acc.env[v], p.env[v]
			if a != b && a != nil {
				acc.env[v] = joinVal(n, a, b)
			}
		}
		st := acc.st
		for o, d := range p.st.mem {
			if c, ok := st.mem[o]; ok {
				if c != d {
					st.mem[o] = joinVal(n, c, d)
				}
			} else if o.a[0].op == "alloc" {
				st.mem[o] = d
			} else if c := st.content(o); c != d {
				st.mem[o] = joinVal(n, c, d)
			}
		}
		for o, c := range st.mem {
			if _, ok := p.st.mem[o]; !ok && o.a[0].op != "alloc" {
				if d := p.st.content(o); c != d {
					st.mem[o] = joinVal(n, c, d)
				}
			}
		}
		old := st.clone()
		joinFacts(st, old, p.st)
		for k, v := range p.st.ctr {
			if v > st.ctr[k] {
				st.ctr[k] = v
			}
		}
		if st.ev != p.st.ev && !sameEvents(st.ev, p.st.ev) {
			st.event(&Event{kind: "join"})
		}
	}
	return []*path{acc}
}

func joinVal(n string, a, b *Term) *Term {
	if a == nil || b == nil {
		return a
	}
	if a.op == "struct" && b.op == "struct" && a.s == b.s && len(a.a) == len(b.a) {
		el := make([]*Term, len(a.a))
		for i := range el {
			el[i] = a.a[i]
			if a.a[i] != b.a[i] {
				el[i] = joinVal(n, a.a[i], b.a[i])
			}
		}
		return mkT("struct", a.s, KVal, 0, a.typ, el...)
	}
	j := mkT("join", n, a.k, 0, a.typ, a, b)
	if a.op == "slice" || b.op == "slice" {
		q := mk("join", n, KSeq, 0, a, b)
		return mk("slice", "", KVal, 0, mkPtr(mkObj(q, nil)), tZero, mk("len", "", KInt, 0, q), mk("cap", "", KInt, 0, q))
	}
	if a.op == "ptr" || b.op == "ptr" {
		var et types.Type
		if a.op == "ptr" && len(a.a) == 1 {
			et = a.a[0].typ
		}
		if et == nil && b.op == "ptr" && len(b.a) == 1 {
			et = b.a[0].typ
		}
		return mkPtr(mkObj(mk("join", n, KVal, 0, a, b), et))
	}
	return j
}

func (r *region) block(b *ssa.BasicBlock, p *path, push func(from, to *ssa.BasicBlock, p *path)) {
	r.instrs(b, p, 0, push)
}

func (r *region) edge(from, to *ssa.BasicBlock, p *path, push func(from, to *ssa.BasicBlock, p *path)) {
	// evaluate the phis of to along this edge
	idx := -1
	for i, pr := range to.Preds {
		if pr == from {
			idx = i
		}
	}
	var vals []*Term
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, r.e.val(p, ph.Edges[idx]))
	}
	for i, ph := range phis {
		p.env[ph] = vals[i]
	}
	push(from, to, p)
}

func (r *region) instrs(b *ssa.BasicBlock, p *path, i int, push func(from, to *ssa.BasicBlock, p *path)) {
	e := r.e
	e.P.seen[b] = true
	for ; i < len(b.Instrs); i++ {
		e.steps++
		if e.steps > e.maxSteps {
			e.abort("step budget exceeded in %s", r.fn)
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			c := p.st.eval(e.val(p, in.Cond))
			if c == tTrue {
				r.edge(b, b.Succs[0], p, push)
				return
			}
			if c == tFalse {
				r.edge(b, b.Succs[1], p, push)
				return
			}
			q := p.clone()
			if p.st.assume(c) {
				e.widthKnown(p, c)
				r.edge(b, b.Succs[0], p, push)
			}
			if q.st.assume(bnot(c)) {
				e.widthKnown(q, c)
				r.edge(b, b.Succs[1], q, push)
			}
			return
		case *ssa.Jump:
			r.edge(b, b.Succs[0], p, push)
			return
		case *ssa.Return:
			var res *Term
			switch len(in.Results) {
			case 0:
			case 1:
				res = e.val(p, in.Results[0])
			default:
				el := make([]*Term, len(in.Results))
				for j, v := range in.Results {
					el[j] = e.val(p, v)
				}
				res = mk("tuple", "", KVal, 0, el...)
			}
			r.rets = append(r.rets, Outcome{st: p.st, res: res, at: in, fn: r.fn})
			return
		case *ssa.Panic:
			e.oblige(p.st, "panic", in, tFalse)
			r.rets = append(r.rets, Outcome{st: p.st, res: e.val(p, in.X), panic: true, at: in, fn: r.fn})
			return
		case *ssa.Call:
			outs := e.doCall(p.st, p, in, &in.Call)
			for j, o := range outs {
				if o.panic {
					r.rets = append(r.rets, o)
					continue
				}
				q := p
				if j < len(outs)-1 {
					q = &path{nil, make(map[ssa.Value]*Term, len(p.env)+4)}
					for k, v := range p.env {
						q.env[k] = v
					}
				}
				q.st = o.st
				if o.res != nil {
					q.env[in] = o.res
				}
				if j < len(outs)-1 {
					r.instrs(b, q, i+1, push)
				} else {
					p = q
				}
			}
			if len(outs) == 0 || outs[len(outs)-1].panic {
				return
			}
			continue
		default:
			if q := e.simple(r, p, in.(ssa.Instruction)); q != nil {
				// forked: q continues with the alternative
				r.instrs(b, q, i+1, push)
			}
		}
	}
}

func (e *Engine) oblige(st *State, kind string, in ssa.Instruction, cond *Term) bool {
	ok := st.eval(cond) == tTrue
	if e.quiet == 0 {
		key := kind + "@" + siteOf(in)
		o := e.obls[key]
		if o == nil {
			o = &Obligation{kind: kind, instr: in, fn: in.Parent()}
			e.obls[key] = o
		}
		if ok {
			o.ok++
		} else {
			if o.bad == 0 {
				o.detail = cond.str(5)
				o.state = st.clone()
			}
			o.bad++
		}
	}
	if !ok && cond != tFalse {
		st.assume(cond)
	}
	return ok
}

// ---------------------------------------------------------------- values

func (e *Engine) val(p *path, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x)
	case *ssa.Global:
		return globalPtr(x)
	case *ssa.Function:
		return fnTerm(x)
	case *ssa.Builtin:
		return mk("builtin", x.Name(), KVal, 0)
	}
	t, ok := p.env[v]
	if !ok {
		e.abort("unbound value %s in %s", v.Name(), v.Parent())
	}
	return t
}

func globalPtr(g *ssa.Global) *Term {
	t := deref(g.Type())
	base := mkT("global", g.String(), KVal, 0, t)
	return mkPtr(mkObj(base, t))
}

func fnTerm(f *ssa.Function, bind ...*Term) *Term {
	t := mk("fn", f.String()+"@"+strconv.Itoa(int(f.Pos())), KVal, 0, bind...)
	t.fn = f
	return t
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroValue(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return cbool(constant.BoolVal(c.Value))
	case constant.String:
		return cbytes(constant.StringVal(c.Value))
	case constant.Int:
		b, ok := constant.Val(c.Value).(*big.Int)
		if !ok {
			b = big.NewInt(constant.Val(c.Value).(int64))
		}
		if w := intWidth(c.Type()); w > 0 && b.Sign() < 0 {
			b = new(big.Int).Mod(b, pow2(w))
		}
		return cbig(b)
	}
	return mk("const", c.Value.ExactString(), KVal, 0)
}

// simple executes a non-control instruction; it may return a forked path.
func (e *Engine) simple(r *region, p *path, in ssa.Instruction) *path {
	st := p.st
	switch in := in.(type) {
	case *ssa.Alloc:
		o := e.alloc(st, siteOf(in))
		t := deref(in.Type())
		o.typ = t
		st.mem[o] = zeroValue(t)
		p.env[in] = mkPtr(o)
	case *ssa.BinOp:
		v := e.binop(st, in, e.val(p, in.X), e.val(p, in.Y))
		p.env[in] = v
		if st.mayOverflow(in.Type(), v) {
			half := pow2(63)
			var forks []*path
			for _, over := range []bool{true, false} {
				q := p.clone()
				beyond, back := mkGe0(iSub(v, cbig(half))), iSub(v, cbig(pow2(64)))
				if !over {
					beyond, back = mkGe0(iSub(iNeg(v), cbig(new(big.Int).Add(half, big.NewInt(1))))), iAdd(v, cbig(pow2(64)))
				}
				if q.st.assume(beyond) && !contradictory(q.st, tTrue) {
					q.env[in] = back
					forks = append(forks, q)
				}
				st.assume(bnot(beyond))
			}
			if len(forks) == 1 {
				return forks[0]
			}
			if len(forks) == 2 {
				p.env[in] = mkTyped("overflow", "", in.Type(), v)
			}
		}
	case *ssa.UnOp:
		x := e.val(p, in.X)
		switch in.Op {
		case token.MUL:
			e.nilCheck(st, in, x)
			v := e.load(st, x)
			p.env[in] = e.retype(v, in.Type())
		case token.SUB:
			p.env[in] = st.wrap(intWidth(in.Type()), iNeg(x))
		case token.XOR:
			p.env[in] = bNot(x, intWidth(in.Type()))
		case token.NOT:
			p.env[in] = bnot(x)
		default:
			p.env[in] = mkTyped("unop", in.Op.String(), in.Type(), x)
		}
	case *ssa.ChangeInterface:
		p.env[in] = e.val(p, in.X)
	case *ssa.ChangeType:
		p.env[in] = e.val(p, in.X)
	case *ssa.Convert:
		p.env[in] = e.convert(st, in, e.val(p, in.X), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		p.env[in] = e.convert(st, in, e.val(p, in.X), in.X.Type(), in.Type())
	case *ssa.Extract:
		t := e.val(p, in.Tuple)
		if t.op == "tuple" {
			p.env[in] = t.a[in.Index]
		} else {
			p.env[in] = mkTyped("proj", strconv.Itoa(in.Index), in.Type(), t)
		}
	case *ssa.Field:
		p.env[in] = fld(e.val(p, in.X), in.X.Type(), in.Field)
	case *ssa.FieldAddr:
		x := e.val(p, in.X)
		e.nilCheck(st, in, x)
		if x.op != "ptr" {
			x = mkPtr(mkObj(x, deref(in.X.Type())))
		}
		p.env[in] = mkPtr(x.a[0], append(append([]*Term(nil), x.a[1:]...), pField(deref(in.X.Type()), in.Field))...)
	case *ssa.Index:
		x, i := e.val(p, in.X), e.val(p, in.Index)
		e.bounds(st, in, i, e.lenOf(st, x))
		p.env[in] = seqSelC(e.seqOf(st, x), i, st.cmp)
	case *ssa.IndexAddr:
		x, i := e.val(p, in.X), e.val(p, in.Index)
		if _, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			e.nilCheck(st, in, x)
			n := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			e.bounds(st, in, i, ci(n))
			p.env[in] = mkPtr(x.a[0], append(append([]*Term(nil), x.a[1:]...), pIndex(i))...)
			break
		}
		e.bounds(st, in, i, e.lenOf(st, x))
		if x.op == "slice" {
			p.env[in] = mkPtr(x.a[0].a[0], append(append([]*Term(nil), x.a[0].a[1:]...), pIndex(iAdd(x.a[1], i)))...)
		} else {
			p.env[in] = mkPtr(mkObj(mk("elem", "", KVal, 0, x, i), deref(in.Type())))
		}
	case *ssa.Lookup:
		x, i := e.val(p, in.X), e.val(p, in.Index)
		if _, ok := in.X.Type().Underlying().(*types.Basic); ok { // string index
			e.bounds(st, in, i, e.lenOf(st, x))
			p.env[in] = seqSelC(e.seqOf(st, x), i, st.cmp)
			break
		}
		p.env[in] = e.mapLookup(st, in, x, i)
	case *ssa.MakeClosure:
		var b []*Term
		for _, v := range in.Bindings {
			b = append(b, e.val(p, v))
		}
		p.env[in] = fnTerm(in.Fn.(*ssa.Function), b...)
	case *ssa.MakeInterface:
		x := e.val(p, in.X)
		t := mkT("iface", tstr(in.X.Type()), KVal, 0, in.X.Type(), x)
		p.env[in] = t
	case *ssa.MakeMap:
		o := e.alloc(st, siteOf(in))
		st.mem[o] = mk("map0", "", KVal, 0)
		p.env[in] = mkPtr(o)
	case *ssa.MapUpdate:
		m, k, v := e.val(p, in.Map), e.val(p, in.Key), e.val(p, in.Value)
		if m.op == "ptr" {
			e.store(st, m, mk("mapset", "", KVal, 0, e.load(st, m), e.snap(st, k), v))
		}
	case *ssa.MakeSlice:
		n := e.val(p, in.Len)
		e.oblige(st, "makeslice", in, mkGe0(n))
		t := in.Type().Underlying().(*types.Slice).Elem()
		o := e.alloc(st, siteOf(in))
		if c, ok := constInt(n); ok && c >= 0 && c <= 1024 && !isByteType(t) {
			el := make([]*Term, c)
			for i := range el {
				el[i] = zeroValue(t)
			}
			l := mkList(el, false)
			if l.typ == nil && c > 0 {
				l.typ = t
			}
			st.mem[o] = l
		} else {
			st.mem[o] = mkFill(zeroValue(t), n)
		}
		p.env[in] = mk("slice", "", KVal, 0, mkPtr(o), tZero, n, e.val(p, in.Cap))
	case *ssa.Slice:
		p.env[in] = e.sliceOp(p, in)
	case *ssa.Store:
		a := e.val(p, in.Addr)
		e.nilCheck(st, in, a)
		e.store(st, a, e.val(p, in.Val))
	case *ssa.TypeAssert:
		return e.typeAssert(p, in)
	case *ssa.Range:
		x := e.val(p, in.X)
		if x.k == KSeq {
			// an iterator is a counter over the runes
			rs := mkRunes(x)
			if e.runesOf != nil {
				if r := e.runesOf(st, x); r != nil {
					rs = r
				}
			}
			p.env[in] = mk("runeiter", "", KVal, 0, e.newPtr(st, "iter:"+siteOf(in), tZero), rs)
			break
		}
		p.env[in] = mk("range", siteOf(in)+strconv.Itoa(st.fresh(siteOf(in))), KVal, 0, x)
	case *ssa.Next:
		it := e.val(p, in.Iter)
		if it.op == "runeiter" {
			i, rs := e.load(st, it.a[0]), it.a[1]
			e.store(st, it.a[0], iAdd(i, tOne))
			p.env[in] = mk("tuple", "", KVal, 0, mkGe0(iSub(iSub(seqLen(rs), tOne), i)), mk("runeoff", "", KInt, 0, rs, i), seqSel(rs, i))
			break
		}
		n := strconv.Itoa(st.fresh(siteOf(in)))
		tt := in.Type().(*types.Tuple)
		el := []*Term{mk("next.ok", n, KBool, 0, it)}
		for i := 1; i < tt.Len(); i++ {
			if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
				el = append(el, tNil)
				continue
			}
			el = append(el, mkTyped("next."+strconv.Itoa(i), n, tt.At(i).Type(), it))
		}
		p.env[in] = mk("tuple", "", KVal, 0, el...)
	case *ssa.SliceToArrayPointer:
		x := e.val(p, in.X)
		n := deref(in.Type()).Underlying().(*types.Array).Len()
		e.oblige(st, "bounds", in, mkGe0(iSub(e.lenOf(st, x), ci(n))))
		p.env[in] = e.newPtr(st, siteOf(in), seqSubC(e.seqOf(st, x), tZero, ci(n), st.cmp))
	case *ssa.RunDefers:
	case *ssa.Defer:
		st.event(&Event{kind: "defer", at: in, fn: in.Parent()})
		e.imprec["defer"]++
	case *ssa.Go, *ssa.Send, *ssa.Select:
		st.event(&Event{kind: "concurrency", at: in, fn: in.Parent()})
		e.imprec["concurrency"]++
		if v, ok := in.(ssa.Value); ok {
			p.env[v] = mkTyped("concurrent", siteOf(in), v.Type())
		}
	default:
		e.abort("unsupported instruction %T in %s", in, r.fn)
	}
	return nil
}

// retype gives an untyped opaque term the structure of its Go type.
func (e *Engine) retype(v *Term, t types.Type) *Term {
	if v.op != "deref" || v.typ != nil {
		return v
	}
	return mkTyped(v.op, v.s, t, v.a...)
}

func (e *Engine) nilCheck(st *State, in ssa.Instruction, x *Term) {
	n := mkIsNil(x)
	if n == tFalse {
		return
	}
	e.oblige(st, "nil", in, bnot(n))
}

func (e *Engine) bounds(st *State, in ssa.Instruction, i, n *Term) {
	e.oblige(st, "bounds", in, mkGe0(i))
	e.oblige(st, "bounds", in, mkGe0(iSub(iSub(n, tOne), i)))
}

func (e *Engine) sliceOp(p *path, in *ssa.Slice) *Term {
	st := p.st
	x := e.val(p, in.X)
	var lo, hi, max *Term
	lo = tZero
	if in.Low != nil {
		lo = e.val(p, in.Low)
	}
	if in.High != nil {
		hi = e.val(p, in.High)
	}
	if in.Max != nil {
		max = e.val(p, in.Max)
	}
	var base, off, ln, cp *Term
	switch {
	case x == tNil:
		base, off, ln, cp = nil, tZero, tZero, tZero
	case x.op == "slice":
		base, off, ln, cp = x.a[0], x.a[1], x.a[2], x.a[3]
	case x.k == KSeq: // string
		if hi == nil {
			hi = seqLen(x)
		}
		e.sliceBounds(st, in, lo, hi, seqLen(x))
		return seqSubC(x, lo, hi, st.cmp)
	case x.op == "ptr": // pointer to array
		e.nilCheck(st, in, x)
		n := ci(in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		base, off, ln, cp = x, tZero, n, n
	default:
		return mkTyped("sliceof", "", in.Type(), x, lo)
	}
	if hi == nil {
		hi = ln
	}
	lim := cp
	if max != nil {
		lim = max
		e.oblige(st, "bounds", in, mkGe0(iSub(cp, max)))
	}
	e.sliceBounds(st, in, lo, hi, lim)
	if base == nil {
		return tNil
	}
	// re-slicing past the length exposes bytes beyond it; they are part of the backing content when known
	return mk("slice", "", KVal, 0, base, iAdd(off, lo), iSub(hi, lo), iSub(lim, lo))
}

func (e *Engine) sliceBounds(st *State, in ssa.Instruction, lo, hi, lim *Term) {
	e.oblige(st, "bounds", in, mkGe0(lo))
	e.oblige(st, "bounds", in, mkGe0(iSub(hi, lo)))
	e.oblige(st, "bounds", in, mkGe0(iSub(lim, hi)))
}

func (e *Engine) convert(st *State, in ssa.Instruction, x *Term, from, to types.Type) *Term {
	fu, tu := from.Underlying(), to.Underlying()
	if tb, ok := tu.(*types.Basic); ok {
		switch {
		case tb.Info()&types.IsInteger != 0:
			if x.k == KInt {
				if w := intWidth(to); w > 0 {
					return st.wrap(w, x)
				}
				switch tb.Kind() {
				case types.Int8, types.Int16, types.Int32:
					bits := map[types.BasicKind]int{types.Int8: 8, types.Int16: 16, types.Int32: 32}[tb.Kind()]
					half := pow2(bits - 1)
					if st.entails(mkGe0(iAdd(x, cbig(half)))) && st.entails(mkGe0(iSub(cbig(new(big.Int).Sub(half, big1)), x))) {
						return x
					}
					return mk("signed", strconv.Itoa(bits), KInt, 0, x)
				}
				return x
			}
		case tb.Info()&types.IsString != 0:
			if x.k == KInt {
				return mk("runestr", "", KSeq, 0, x)
			}
			if sl, ok := fu.(*types.Slice); ok && !isByteType(sl.Elem()) {
				return mk("runes2str", "", KSeq, 0, e.seqOf(st, x))
			}
			return e.seqOf(st, x)
		}
		return mkTyped("conv", tstr(to), to, x)
	}
	if sl, ok := tu.(*types.Slice); ok {
		if fb, ok := fu.(*types.Basic); ok && fb.Info()&types.IsString != 0 {
			if isByteType(sl.Elem()) {
				return e.newSlice(st, siteOf(in), x)
			}
			q := mkRunes(x)
			return e.newSlice(st, siteOf(in), q)
		}
	}
	return x
}

func (e *Engine) binop(st *State, in *ssa.BinOp, x, y *Term) *Term {
	t := in.X.Type()
	if x.k == KInt && y.k == KInt {
		w := intWidth(t)
		switch in.Op {
		case token.ADD:
			return st.wrap(w, iAdd(x, y))
		case token.SUB:
			return st.wrap(w, iSub(x, y))
		case token.MUL:
			return st.wrap(w, iMul(x, y))
		case token.QUO, token.REM:
			e.oblige(st, "divzero", in, bnot(mkEq0(y)))
			if y.op == "int" && y.n.Sign() > 0 && (w > 0 || st.entails(mkGe0(x))) {
				if in.Op == token.QUO {
					return iFdiv(x, y)
				}
				if isPow2(y) {
					return mkWrap(y.n.BitLen()-1, x)
				}
				return iSub(x, iMul(iFdiv(x, y), y))
			}
			if x.op == "int" && y.op == "int" && y.n.Sign() != 0 {
				if in.Op == token.QUO {
					return cbig(new(big.Int).Quo(x.n, y.n))
				}
				return cbig(new(big.Int).Rem(x.n, y.n))
			}
			if st.entails(mkGe0(x)) && st.entails(mkGe0(iSub(y, tOne))) {
				// x = q*y + r with 0 <= r < y
				q, r := mk("arith", "/", KInt, w, x, y), mk("arith", "%", KInt, w, x, y)
				for _, f := range []*Term{mkGe0(q), mkGe0(r), mkGe0(iSub(iSub(y, tOne), r)), mkEq0(iSub(x, iAdd(iMul(q, y), r)))} {
					st.assume(f)
				}
				if in.Op == token.QUO {
					return q
				}
				return r
			}
			return mk("arith", in.Op.String(), KInt, w, x, y)
		case token.AND:
			return st.narrow(w, bAnd(x, y, w))
		case token.OR:
			return bOr(x, y, w)
		case token.XOR:
			return bXor(x, y, w)
		case token.AND_NOT:
			return bAndNot(x, y, w)
		case token.SHL:
			if n, ok := constInt(y); ok && n >= 0 && n < 4096 {
				return st.wrap(w, iMul(x, cbig(pow2(int(n)))))
			}
			if x.op == "int" {
				return st.wrap(w, iMul(x, mk("pow2", "", KInt, 0, y)))
			}
			return mk("arith", "<<", KInt, w, x, y)
		case token.SHR:
			if n, ok := constInt(y); ok && n >= 0 && n < 4096 {
				return iFdiv(x, cbig(pow2(int(n))))
			}
			return mk("arith", ">>", KInt, w, x, y)
		case token.EQL:
			return mkEqInt(x, y)
		case token.NEQ:
			return bnot(mkEqInt(x, y))
		case token.LSS:
			return mkGe0(iSub(iSub(y, x), tOne))
		case token.LEQ:
			return mkGe0(iSub(y, x))
		case token.GTR:
			return mkGe0(iSub(iSub(x, y), tOne))
		case token.GEQ:
			return mkGe0(iSub(x, y))
		}
	}
	switch in.Op {
	case token.EQL:
		return mkEq(x, y)
	case token.NEQ:
		return bnot(mkEq(x, y))
	case token.ADD:
		if x.k == KSeq && y.k == KSeq {
			return seqCat(x, y)
		}
	case token.LSS:
		if x.k == KSeq && y.k == KSeq {
			return mkGe0(iSub(ci(-1), mk("bcmp", "", KInt, 0, x, y)))
		}
	}
	return mkTyped("binop", in.Op.String(), in.Type(), x, y)
}

func (s *State) narrow(w int, t *Term) *Term {
	if t.op == "wrap" {
		return s.wrap(t.w, t.a[0])
	}
	return t
}

func typeIs(x *Term, t types.Type) *Term {
	s := tstr(t)
	if types.IsInterface(t) {
		s += "!"
	}
	return mk("typeis", s, KBool, 0, x)
}

func (e *Engine) typeAssert(p *path, in *ssa.TypeAssert) *path {
	st := p.st
	x := e.val(p, in.X)
	T := in.AssertedType
	set := func(q *path, v *Term, ok bool) {
		if in.CommaOk {
			q.env[in] = mk("tuple", "", KVal, 0, v, cbool(ok))
		} else {
			q.env[in] = v
		}
	}
	fail := func(q *path) {
		set(q, zeroValue(T), false)
	}
	known, holds := false, false
	switch x.op {
	case "nil":
		known, holds = true, false
	case "iface":
		known = true
		if types.IsInterface(T) {
			holds = types.Implements(x.typ, T.Underlying().(*types.Interface))
		} else {
			holds = types.Identical(x.typ, T)
		}
	case "hashobj", "errnew", "blockobj", "cbcobj":
		known, holds = types.IsInterface(T), true
	}
	value := func() *Term {
		if types.IsInterface(T) {
			return x
		}
		if x.op == "iface" {
			return x.a[0]
		}
		return mkTyped("asserted", tstr(T), T, x)
	}
	if !known {
		c := st.eval(typeIs(x, T))
		if c == tTrue {
			known, holds = true, true
		} else if c == tFalse {
			known, holds = true, false
		}
	}
	if known {
		if holds {
			set(p, value(), true)
		} else {
			if !in.CommaOk {
				e.oblige(st, "typeassert", in, tFalse)
			}
			fail(p)
		}
		return nil
	}
	c := typeIs(x, T)
	if !in.CommaOk {
		e.oblige(st, "typeassert", in, c)
		set(p, value(), true)
		return nil
	}
	q := p.clone()
	okP := p.st.assume(c)
	okQ := q.st.assume(bnot(c))
	set(p, value(), true)
	fail(q)
	if okP && okQ {
		return q
	}
	if okQ {
		p.st, p.env = q.st, q.env
	}
	return nil
}

func (e *Engine) mapLookup(st *State, in *ssa.Lookup, m, k *Term) *Term {
	kk := e.snap(st, k)
	var et types.Type
	if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
		et = mt.Elem()
	}
	ret := func(v *Term, ok *Term) *Term {
		if in.CommaOk {
			return mk("tuple", "", KVal, 0, v, ok)
		}
		return v
	}
	if m == tNil {
		return ret(zeroValue(et), tFalse)
	}
	c := m
	if m.op == "ptr" {
		c = e.load(st, m)
	}
	for c.op == "mapset" {
		q := st.eval(mkEq(c.a[1], kk))
		if q == tTrue {
			return ret(c.a[2], tTrue)
		}
		if q != tFalse {
			break
		}
		c = c.a[0]
	}
	if c.op == "map0" {
		return ret(zeroValue(et), tFalse)
	}
	return ret(mkTyped("lookup", "", et, c, kk), mk("haskey", "", KBool, 0, c, kk))
}

// ---------------------------------------------------------------- calls

func (e *Engine) doCall(st *State, p *path, in ssa.CallInstruction, cc *ssa.CallCommon) []Outcome {
	var args []*Term
	for _, a := range cc.Args {
		args = append(args, e.val(p, a))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return []Outcome{{st: st, res: e.builtin(st, in, b, args, cc)}}
	}
	c := &callCtx{st: st, args: args, instr: in, fn: in.Parent(), sig: cc.Signature(), env: p.env}
	if cc.IsInvoke() {
		recv := e.val(p, cc.Value)
		c.args = append([]*Term{recv}, args...)
		return e.invoke(c, recv, cc.Method, cc.Value.Type())
	}
	var fn *ssa.Function
	var bind []*Term
	if f := cc.StaticCallee(); f != nil {
		fn = f
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			bind = e.val(p, mc).a
		}
	} else {
		v := e.val(p, cc.Value)
		if v.op == "fn" && v.fn != nil {
			fn, bind = v.fn, v.a
		} else {
			c.name = "dynamic"
			c.args = append([]*Term{v}, args...)
			e.nilCheck(st, in, v)
			return e.opaque(c)
		}
	}
	return e.callFn(c, fn, bind)
}

func (e *Engine) callFn(c *callCtx, fn *ssa.Function, bind []*Term) []Outcome {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	c.name = name
	c.sig = fn.Signature
	if m, ok := e.models[name]; ok {
		return m(e, c)
	}
	if m, ok := localModels[name]; ok && e.local[name] {
		return m(e, c)
	}
	if fn.Blocks != nil && (e.P.inModule(fn) || e.P.isWrapper(fn)) {
		if e.callHook != nil {
			if outs := e.callHook(fn, c.st, c.args); outs != nil {
				return outs
			}
		}
		return e.callFrom(c, c.st, fn, c.args, bind)
	}
	return e.opaque(c)
}

// callFrom analyses fn called at c, whose caller's values stay alive meanwhile.
func (e *Engine) callFrom(c *callCtx, st *State, fn *ssa.Function, args, bind []*Term) []Outcome {
	if c.env != nil {
		e.frames = append(e.frames, c.env)
		defer func() { e.frames = e.frames[:len(e.frames)-1] }()
	}
	return e.call(st, fn, args, bind)
}

func (e *Engine) invoke(c *callCtx, recv *Term, m *types.Func, it types.Type) []Outcome {
	st := c.st
	switch recv.op {
	case "hashobj":
		return hashMethod(e, c, recv, m.Name())
	case "blockobj":
		return blockMethod(e, c, recv, m.Name())
	case "cbcobj":
		return cbcMethod(e, c, recv, m.Name())
	}
	if recv.op == "iface" && recv.typ != nil {
		if f := e.P.prog.LookupMethod(recv.typ, m.Pkg(), m.Name()); f != nil {
			c.args = append([]*Term{recv.a[0]}, c.args[1:]...)
			return e.callFn(c, f, nil)
		}
	}
	e.nilCheck(st, c.instr.(ssa.Instruction), recv)
	name := "invoke:" + typeName(it) + "." + m.Name()
	c.name = name
	if md, ok := e.models[name]; ok {
		return md(e, c)
	}
	// models keyed by method name for symbolic receivers
	if md, ok := e.models["method:"+m.Name()]; ok {
		if r := md(e, c); r != nil {
			return r
		}
	}
	return e.opaque(c)
}

// opaque models an unknown external call as a pure function of its arguments.
func (e *Engine) opaque(c *callCtx) []Outcome {
	var as []*Term
	for _, a := range c.args {
		as = append(as, e.snap(c.st, a))
	}
	if e.quiet == 0 {
		e.unmod[c.name]++
	}
	res := resultOf(c, as...)
	if !isPure(c.name) {
		for i, a := range c.args {
			e.havoc(c, a, i, as)
		}
	}
	c.st.event(&Event{kind: "call", name: c.name, args: as, res: resList(res), fn: c.fn, at: c.instr})
	return []Outcome{{st: c.st, res: res}}
}

func resList(t *Term) []*Term {
	if t == nil {
		return nil
	}
	if t.op == "tuple" {
		return t.a
	}
	return []*Term{t}
}

func resultOf(c *callCtx, as ...*Term) *Term {
	rs := c.sig.Results()
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return mkTyped("app", c.name, rs.At(0).Type(), as...)
	}
	return mkTyped("app", c.name, rs, as...)
}

func (e *Engine) builtin(st *State, in ssa.CallInstruction, b *ssa.Builtin, args []*Term, cc *ssa.CallCommon) *Term {
	site := siteOf(in)
	switch b.Name() {
	case "ssa:wrapnilchk":
		e.oblige(st, "nil", in, bnot(mkIsNil(args[0])))
		return args[0]
	case "len":
		if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
			return mk("maplen", "", KInt, 0, args[0])
		}
		return e.lenOf(st, args[0])
	case "cap":
		if args[0].op == "slice" {
			return args[0].a[3]
		}
		return e.lenOf(st, args[0])
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		x, y := e.seqOf(st, args[0]), e.seqOf(st, args[1])
		if args[0].op == "slice" && y == tEmpty {
			return args[0]
		}
		var et types.Type
		if sl, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
			et = sl.Elem()
		}
		c := seqCat(x, y)
		if c.typ == nil && et != nil {
			c.typ = et
		}
		n := seqLen(c)
		if a0 := args[0]; a0.op == "slice" && a0.a[0].a[0].a[0].op == "alloc" && st.entails(mkGe0(iSub(a0.a[3], n))) {
			// fits into the spare capacity: written in place
			e.writeSeq(st, a0, a0.a[2], y)
			return mk("slice", "", KVal, 0, a0.a[0], a0.a[1], n, a0.a[3])
		}
		o := e.alloc(st, site)
		st.mem[o] = c
		if args[0].op == "slice" && args[0].a[0].a[0].a[0].op != "alloc" {
			if _, fresh := constInt(iSub(args[0].a[3], args[0].a[2])); !fresh || args[0].a[3] != args[0].a[2] {
				// spare capacity may be overwritten
				st.event(&Event{kind: "append-spare", args: []*Term{args[0], args[1]}, fn: in.Parent(), at: in})
			}
		}
		return mk("slice", "", KVal, 0, mkPtr(o), tZero, n, mk("cap", "", KInt, 0, mk("seqid", "", KSeq, 0, c)))
	case "copy":
		dst, src := args[0], e.seqOf(st, args[1])
		ld, ls := e.lenOf(st, dst), seqLen(src)
		var n *Term
		if s, ok := st.cmp(iSub(ld, ls)); ok {
			if s >= 0 {
				n = ls
			} else {
				n = ld
			}
		} else {
			n = mkMin(ld, ls)
		}
		e.writeSeq(st, dst, tZero, seqSubC(src, tZero, n, st.cmp))
		return n
	case "min", "max":
		r := args[0]
		for _, x := range args[1:] {
			s, ok := st.cmp(iSub(r, x))
			switch {
			case ok && (s <= 0) == (b.Name() == "min"):
			case ok:
				r = x
			case b.Name() == "min":
				r = mkMin(r, x)
			default:
				r = iNeg(mkMin(iNeg(r), iNeg(x)))
			}
		}
		return r
	case "panic":
		return nil
	case "print", "println":
		st.event(&Event{kind: "call", name: "builtin." + b.Name(), args: args, fn: in.Parent(), at: in})
		return nil
	case "delete", "clear":
		if args[0].op == "slice" {
			e.writeSeq(st, args[0], tZero, mkFill(tZero, args[0].a[2]))
		} else if args[0].op == "ptr" {
			e.store(st, args[0], mk("mapdel", "", KVal, 0, e.load(st, args[0])))
		}
		return nil
	}
	if v, ok := in.(ssa.Value); ok && v.Type() != nil {
		if tp, ok := v.Type().(*types.Tuple); ok && tp.Len() == 0 {
			return nil
		}
		return mkTyped("builtin", b.Name(), v.Type(), args...)
	}
	return nil
}

func mkMin(x, y *Term) *Term {
	if x == y {
		return x
	}
	if d := iSub(x, y); d.op == "int" {
		if d.n.Sign() <= 0 {
			return x
		}
		return y
	}
	if x.id > y.id {
		x, y = y, x
	}
	return mk("min", "", KInt, 0, x, y)
}

func posOf(p *Program, in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	pos := in.Pos()
	if pos == token.NoPos {
		// nearest positioned instruction in the block
		for _, x := range in.Block().Instrs {
			if x.Pos() != token.NoPos {
				pos = x.Pos()
			}
		}
	}
	if pos == token.NoPos && in.Parent() != nil {
		pos = in.Parent().Pos()
	}
	s := p.prog.Fset.Position(pos).String()
	return strings.TrimPrefix(s, p.dir+"/")
}

// mkRunes is the sequence of code points of a string (U+FFFD for invalid encodings).
func mkRunes(s *Term) *Term { return mkT("str2runes", "", KSeq, 0, types.Typ[types.Rune], s) }
