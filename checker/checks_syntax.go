package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The syntax of domain names and mail addresses: the recogniser is run on abstract strings, each a sequence of byte classes,
// and has to decide every one of them as the grammar does. A class is a range of bytes that the grammar treats alike, so a
// recogniser that divides a class, or answers otherwise for it, is found.

type byteRange struct{ lo, hi int64 }

const atextBytes = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ!#$%&'*+-/=?^_`{|}~."

func isAtext(b int64) bool { return b < 128 && strings.IndexByte(atextBytes, byte(b)) >= 0 }

func isQtext(b int64) bool {
	return b == 11 || b == 12 || b == 32 || b == 33 || b == 127 || 1 <= b && b <= 8 || 14 <= b && b <= 31 || 35 <= b && b <= 91 || 93 <= b && b <= 126
}

func isQuotable(b int64) bool {
	return b == 11 || b == 12 || 1 <= b && b <= 9 || 14 <= b && b <= 127
}

func isLabelByte(b int64) bool { return 33 <= b && b <= 126 }

// domainSyntax: nothing, or labels of printable characters, none empty, separated by dots.
func domainSyntax(s []int64) bool {
	if len(s) == 0 {
		return true
	}
	n := 0
	for _, b := range append(append([]int64{}, s...), '.') {
		if b == '.' {
			if n == 0 {
				return false
			}
			n = 0
			continue
		}
		if !isLabelByte(b) {
			return false
		}
		n++
	}
	return true
}

// mailboxSyntax: a quoted string, or atoms and escaped characters with dots between them only; then @ and a domain.
func mailboxSyntax(s []int64) bool {
	if len(s) == 0 {
		return false
	}
	i := 0
	if s[0] == '"' {
		for i = 1; ; i++ {
			if i >= len(s) {
				return false
			}
			if s[i] == '"' {
				i++
				break
			}
			if s[i] == '\\' {
				if i++; i >= len(s) || !isQuotable(s[i]) {
					return false
				}
			} else if !isQtext(s[i]) {
				return false
			}
		}
	} else {
		var local []int64
		for i < len(s) {
			if s[i] == '\\' {
				if i++; i >= len(s) {
					return false
				}
			} else if !isAtext(s[i]) {
				break
			}
			local = append(local, s[i])
			i++
		}
		if len(local) == 0 || local[0] == '.' || local[len(local)-1] == '.' {
			return false
		}
		for k := 1; k < len(local); k++ {
			if local[k] == '.' && local[k-1] == '.' {
				return false
			}
		}
	}
	return i < len(s) && s[i] == '@' && domainSyntax(s[i+1:])
}

func byteKind(b int64) string {
	k := fmt.Sprint(isAtext(b), isQtext(b), isQuotable(b), isLabelByte(b), b < 128)
	if strings.IndexByte("\".@\\", byte(b)) >= 0 {
		k += string(rune(b))
	}
	return k
}

// byteClasses divides the bytes into ranges of one kind each; few has one range of every kind.
func byteClasses() (all, few []byteRange) {
	seen := map[string]int{}
	for b := int64(0); b < 256; b++ {
		if n := len(all); n > 0 && byteKind(all[n-1].lo) == byteKind(b) {
			all[n-1].hi = b
			continue
		}
		all = append(all, byteRange{b, b})
	}
	for _, r := range all {
		k := byteKind(r.lo)
		if i, ok := seen[k]; !ok {
			seen[k] = len(few)
			few = append(few, r)
		} else if r.hi-r.lo > few[i].hi-few[i].lo {
			few[i] = r
		}
	}
	return
}

// concreteStrings gives the string functions their meaning on strings whose bytes are told apart by the facts.
func concreteStrings(e *Engine) {
	known := func(st *State, v *Term) ([]*Term, bool) {
		s := e.seqOf(st, v)
		n, ok := constInt(seqLen(s))
		if !ok {
			return nil, false
		}
		r := make([]*Term, n)
		for i := range r {
			r[i] = seqSelC(s, ci(int64(i)), st.cmp)
		}
		return r, true
	}
	// at: is pat at position i of s? Fact or nil.
	at := func(st *State, s, pat []*Term, i int) (bool, bool) {
		sure := true
		for j, p := range pat {
			switch st.eval(mkEqInt(s[i+j], p)) {
			case tFalse:
				return false, true
			case tTrue:
			default:
				sure = false
			}
		}
		return true, sure
	}
	find := func(last, bytePat, boolean bool) func(next Model) Model {
		return func(next Model) Model {
			return func(e *Engine, c *callCtx) []Outcome {
				s, ok := known(c.st, c.args[0])
				var pat []*Term
				if bytePat {
					pat = []*Term{c.args[1]}
				} else if ok {
					pat, ok = known(c.st, c.args[1])
				}
				if !ok {
					return next(e, c)
				}
				r := -1
				for k := 0; k+len(pat) <= len(s); k++ {
					i := k
					if last {
						i = len(s) - len(pat) - k
					}
					yes, sure := at(c.st, s, pat, i)
					if !sure {
						return next(e, c)
					}
					if yes {
						r = i
						break
					}
				}
				if boolean {
					return ret(c, cbool(r >= 0))
				}
				return ret(c, ci(int64(r)))
			}
		}
	}
	for _, p := range []string{"strings.", "bytes."} {
		for n, f := range map[string]func(Model) Model{"IndexByte": find(false, true, false), "LastIndexByte": find(true, true, false), "IndexRune": find(false, true, false), "Index": find(false, false, false), "LastIndex": find(true, false, false), "Contains": find(false, false, true), "ContainsRune": find(false, true, true)} {
			next := e.models[p+n]
			if next == nil {
				next = func(e *Engine, c *callCtx) []Outcome { return e.opaque(c) }
			}
			e.models[p+n] = f(next)
		}
	}
	// where pat occurs in the string arg 0, from the left and without overlap
	occur := func(c *callCtx) (s []*Term, n int, pos []int, ok bool) {
		var pat []*Term
		if s, ok = known(c.st, c.args[0]); !ok {
			return
		}
		if pat, ok = known(c.st, c.args[1]); !ok || len(pat) == 0 {
			return nil, 0, nil, false
		}
		n = len(pat)
		for i := 0; i+n <= len(s); {
			yes, sure := at(c.st, s, pat, i)
			if !sure {
				return nil, 0, nil, false
			}
			if yes {
				pos = append(pos, i)
				i += n
			} else {
				i++
			}
		}
		return s, n, pos, true
	}
	str := func(bs []*Term) *Term { return mkListT(bs, types.Typ[types.Byte]) }
	pieces := func(f func(c *callCtx, s []*Term, n int, pos []int) []*Term) func(Model) Model {
		return func(next Model) Model {
			return func(e *Engine, c *callCtx) []Outcome {
				if s, n, pos, ok := occur(c); ok {
					if r := f(c, s, n, pos); r != nil {
						return ret(c, r...)
					}
				}
				return next(e, c)
			}
		}
	}
	has := func(pos []int, i int) bool {
		for _, p := range pos {
			if p == i {
				return true
			}
		}
		return false
	}
	for n, f := range map[string]func(c *callCtx, s []*Term, n int, pos []int) []*Term{
		"Split": func(c *callCtx, s []*Term, n int, pos []int) []*Term {
			var r []*Term
			from := 0
			for _, p := range pos {
				r = append(r, str(s[from:p]))
				from = p + n
			}
			return []*Term{e.newSlice(c.st, siteOf(c.in()), mkListT(append(r, str(s[from:])), types.Typ[types.String]))}
		},
		"Count": func(c *callCtx, s []*Term, n int, pos []int) []*Term { return []*Term{ci(int64(len(pos)))} },
		"Cut": func(c *callCtx, s []*Term, n int, pos []int) []*Term {
			if len(pos) == 0 {
				return []*Term{str(s), str(nil), tFalse}
			}
			return []*Term{str(s[:pos[0]]), str(s[pos[0]+n:]), tTrue}
		},
		"HasPrefix": func(c *callCtx, s []*Term, n int, pos []int) []*Term { return []*Term{cbool(has(pos, 0))} },
		"TrimPrefix": func(c *callCtx, s []*Term, n int, pos []int) []*Term {
			if has(pos, 0) {
				s = s[n:]
			}
			return []*Term{str(s)}
		},
		// of one byte only, so that an overlap cannot hide the last
		"HasSuffix": func(c *callCtx, s []*Term, n int, pos []int) []*Term {
			if n > 1 {
				return nil
			}
			return []*Term{cbool(has(pos, len(s)-1))}
		},
		"TrimSuffix": func(c *callCtx, s []*Term, n int, pos []int) []*Term {
			if n > 1 {
				return nil
			}
			if has(pos, len(s)-1) {
				s = s[:len(s)-1]
			}
			return []*Term{str(s)}
		},
	} {
		for _, p := range []string{"strings.", "bytes."} {
			if p == "bytes." && !strings.HasPrefix(n, "Has") && n != "Count" {
				continue
			}
			next := e.models[p+n]
			if next == nil {
				next = func(e *Engine, c *callCtx) []Outcome { return e.opaque(c) }
			}
			e.models[p+n] = pieces(f)(next)
		}
	}
	e.runesOf = func(st *State, s *Term) *Term {
		bs, ok := known(st, s)
		if !ok {
			return nil
		}
		// Bytes below 128 stand for themselves; of the others the library makes characters above them.
		for i, b := range bs {
			switch st.eval(mkGe0(iSub(ci(127), b))) {
			case tTrue:
			case tFalse:
				bs[i] = sym(fmt.Sprintf("rune%d", i), types.Typ[types.Rune])
				st.assume(mkGe0(iSub(bs[i], ci(128))))
				st.assume(mkGe0(iSub(ci(0x10ffff), bs[i])))
			default:
				return nil
			}
		}
		return mkListT(bs, types.Typ[types.Rune])
	}
}

// checkSyntax decides fn (a string in, its last result whether it is well-formed) on the abstract strings.
func (c *Ctx) checkSyntax(fn *ssa.Function, syntax func([]int64) bool, templates []string, separators string, depth, markDepth int) {
	e := x509Engine(c)
	e.noMerge, e.knownLists = true, true
	concreteStrings(e)
	all, few := byteClasses()
	n := 0
	one := func(rs []byteRange) bool {
		n++
		_, _, outs, ok := c.analyseWith(e, fn, func(st *State, args []*Term) []*Term {
			var bs []*Term
			for i, r := range rs {
				if r.lo == r.hi {
					bs = append(bs, ci(r.lo))
					continue
				}
				b := mk("sym", fmt.Sprintf("byte%d", i), KInt, 8)
				st.assume(mkGe0(iSub(b, ci(r.lo))))
				st.assume(mkGe0(iSub(ci(r.hi), b)))
				bs = append(bs, b)
			}
			return []*Term{mkListT(bs, types.Typ[types.Byte])}
		})
		if !ok {
			return false
		}
		var lo, hi []int64
		what := ""
		for _, r := range rs {
			lo, hi = append(lo, r.lo), append(hi, r.hi)
			if r.lo == r.hi && r.lo > 32 && r.lo < 127 {
				what += string(rune(r.lo))
			} else {
				what += fmt.Sprintf("[%02x-%02x]", r.lo, r.hi)
			}
		}
		want := syntax(lo)
		if syntax(hi) != want {
			c.oblige("classes are uniform", short(fn), fn.Pos(), false, "%s", what)
			return false
		}
		for _, o := range outs {
			if refuted(o.st, 0) {
				continue
			}
			got := tFalse
			if !o.panic {
				got = o.st.eval2(o.r(fn.Signature.Results().Len() - 1))
			}
			if !c.oblige("well-formed exactly by the grammar", short(fn), atPos(o), !o.panic && got == cbool(want), "%q: well-formed by the grammar: %v; the function: %s (panic: %v)", what, want, clip(got.str(4), 80), o.panic) {
				return false
			}
		}
		return true
	}
	bad := 0
	try := func(rs []byteRange) bool {
		if !one(rs) {
			bad++
		}
		return bad < 5
	}
	// every class at the marked places
	for _, t := range templates {
		var rec func(i int, rs []byteRange) bool
		rec = func(i int, rs []byteRange) bool {
			if i == len(t) {
				return try(rs)
			}
			if t[i] != 0 {
				return rec(i+1, append(rs[:i:i], byteRange{int64(t[i]), int64(t[i])}))
			}
			for _, r := range all {
				if !rec(i+1, append(rs[:i:i], r)) {
					return false
				}
			}
			return true
		}
		if !rec(0, nil) {
			return
		}
	}
	// every string over the alphabet, up to the depth
	var rec func(rs, alphabet []byteRange, depth int) bool
	rec = func(rs, alphabet []byteRange, depth int) bool {
		if !try(rs) {
			return false
		}
		if len(rs) == depth {
			return true
		}
		for _, r := range alphabet {
			if !rec(append(rs[:len(rs):len(rs)], r), alphabet, depth) {
				return false
			}
		}
		return true
	}
	var marks []byteRange
	for _, b := range "a." + separators {
		marks = append(marks, byteRange{int64(b), int64(b)})
	}
	if rec(nil, few, depth) {
		rec(nil, marks, markDepth)
	}
	c.sites += n
}

func checkNameSyntax(c *Ctx) {
	k := newExtReader(c)
	if k == nil {
		return
	}
	c.oblige("anchor", "domain names", 0, len(k.labels) > 0, "no function recognises domain names")
	c.oblige("anchor", "mail addresses", 0, len(k.mailbox) > 0, "no function recognises mail addresses")
	d, m := 3, 5
	if c.tier == "thorough" {
		d, m = 4, 7
	}
	for _, f := range sortFuncs(k.labels) {
		c.checkLabels(f, d, 2*m)
	}
	for _, f := range sortFuncs(k.mailbox) {
		c.checkMailbox(f, d, m)
	}
}

func (c *Ctx) checkLabels(f *ssa.Function, depth, marks int) {
	c.checkSyntax(f, domainSyntax, []string{"\x00", "a\x00", "\x00a", "a.\x00", "\x00.a", "a\x00b", "a.b\x00.c"}, "", depth, marks)
}

func (c *Ctx) checkMailbox(f *ssa.Function, depth, marks int) {
	c.checkSyntax(f, mailboxSyntax, []string{"\x00", "\x00@a", "a\x00@b", "a\x00b@c", "\x00a@b", "a@\x00", "a@b\x00", "a@b.\x00", "\\\x00@a", "a\\\x00a@b", "\"\x00\"@a", "\"a\x00\"@b", "\"\\\x00\"@a", "\"\"\x00a", "\"\"@\x00", "\"a\"@b\x00c"}, "@\"\\", depth, marks)
}

func init() {
	addCheck(&Check{id: "C39", rule: "abstract interpretation of the recognisers of domain names and mail addresses on sequences of byte classes, against their grammar", run: checkNameSyntax,
		trusted: []string{"the string functions of the standard library"}})
}
