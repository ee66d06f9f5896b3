package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Failure propagation: a typestate analysis over the control-flow graph. The state of a fallible call is "failed" from the
// call on; every path on which it failed must end in a failing return.

type av int8 // abstract value

const (
	avTop av = iota
	avNil
	avNonNil
	avTrue
	avFalse
)

var errorType = types.Universe.Lookup("error").Type()

func isErrorT(t types.Type) bool { return types.Identical(t, errorType) }
func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

// calleeName names the callee of a call for rules and reports.
func calleeName(c ssa.CallInstruction) string {
	cc := c.Common()
	if cc.IsInvoke() {
		return "invoke:" + types.TypeString(cc.Value.Type(), nil) + "." + cc.Method.Name()
	}
	if f := cc.StaticCallee(); f != nil {
		return trimMod(f.String())
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	return "dynamic"
}

// infallible library calls: the documented error is always nil.
func infallible(name string) bool {
	for _, p := range []string{
		"invoke:hash.Hash.Write", "(*bytes.Buffer).Write", "(*strings.Builder).Write", "invoke:hash.Hash32.Write", "invoke:hash.Hash64.Write",
	} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// fallibleBool: library functions that report failure by false.
func fallibleBool(name string) bool {
	const s = "(*golang.org/x/crypto/cryptobyte.String)."
	if strings.HasPrefix(name, s) {
		m := name[len(s):]
		return strings.HasPrefix(m, "Read") || strings.HasPrefix(m, "Skip") || strings.HasPrefix(m, "Copy")
	}
	return name == "(*math/big.Int).SetString"
}

type failLint struct {
	p *Program
	// boolFail: module functions whose last result is a bool that turns false on failure
	boolFail map[*ssa.Function]bool
	sig      map[*ssa.Function]bool // always returns a non-nil error
	except   func(fn *ssa.Function, callee string, c ssa.CallInstruction) string
	sites    int
	never    map[*ssa.Function]bool
	boolTrue map[*ssa.Function]bool // answers true when something it calls fails
}

type failSite struct {
	fn     *ssa.Function
	call   ssa.CallInstruction
	callee string
	val    ssa.Value // the failing value; nil if discarded
	fail   av
	outer  *failSite // the call of the function that forwards this one's failure
}

// failAt is the result that tells of a failure: the last error, or else the last result.
func failAt(res *types.Tuple) int {
	for i := res.Len() - 1; i >= 0; i-- {
		if isErrorT(res.At(i).Type()) {
			return i
		}
	}
	return res.Len() - 1
}

// forwarded is the call whose failure the callee of s passes on, if that is all it does with failures; nil otherwise.
func (l *failLint) forwarded(s *failSite) *failSite {
	if s.call == nil {
		return nil
	}
	f := s.call.Common().StaticCallee()
	if f == nil || f.Blocks == nil || !l.p.inModule(f) {
		return nil
	}
	var in *failSite
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if mi, ok := i.(*ssa.MakeInterface); ok && isErrorT(mi.Type()) {
				return nil
			}
			c, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if x := l.site(f, c); x != nil {
				if in != nil {
					return nil
				}
				in = x
			}
		}
	}
	if in == nil || in.val == nil {
		return nil
	}
	if w, _ := l.failing(in); w != "" {
		return nil
	}
	return &failSite{fn: in.fn, call: in.call, callee: in.callee, val: s.val, fail: in.fail, outer: s}
}

// onlyPasses: f is given errors and fails exactly if one of them is not nil.
func (l *failLint) onlyPasses(f *ssa.Function) bool {
	if f.Blocks == nil || !l.p.inModule(f) {
		return false
	}
	env := map[ssa.Value]av{}
	for _, p := range f.Params {
		if isErrorT(p.Type()) {
			env[p] = avNil
		}
	}
	if len(env) == 0 || !l.propagates(f) {
		return false
	}
	ok := true
	bad := ""
	w := &failWalk{l: l, fn: f, bad: &bad, seen: map[string]bool{}}
	w.onRet = func(in *ssa.Return, env map[ssa.Value]av) {
		ok = ok && l.evalErr(env, in.Results[failAt(in.Parent().Signature.Results())], 0) == avNil
	}
	w.from(f.Blocks[0], 0, env)
	return ok && bad == ""
}

// root names what is called in the end, by a function that only passes on the failure of one call.
func (l *failLint) root(c ssa.CallInstruction) string {
	s := &failSite{fn: c.Parent(), call: c, callee: calleeName(c)}
	for i := 0; i < 5; i++ {
		f := l.forwarded(s)
		if f == nil {
			break
		}
		s = f
	}
	return s.callee
}

// failing result of a call: the error (or bool) value, nil if it is discarded.
func (l *failLint) site(fn *ssa.Function, c ssa.CallInstruction) *failSite {
	name := calleeName(c)
	res := c.Common().Signature().Results()
	if res.Len() == 0 || infallible(name) {
		return nil
	}
	last := res.At(failAt(res)).Type()
	s := &failSite{fn: fn, call: c, callee: name}
	switch {
	case isErrorT(last):
		s.fail = avNonNil
		if f := c.Common().StaticCallee(); f != nil && l.neverFails(f) || l.constParse(c) {
			return nil
		}
		if f := c.Common().StaticCallee(); f != nil && l.onlyPasses(f) {
			return nil
		}
		if len(c.Common().Args) > 0 && res.Len() == 1 {
			// wrapping an existing error
			for _, a := range c.Common().Args {
				if isErrorT(a.Type()) && c.Common().StaticCallee() != nil && l.propagates(c.Common().StaticCallee()) {
					return nil
				}
			}
		}
	case isBoolT(last) && l.constParse(c):
		return nil
	case isBoolT(last) && (fallibleBool(name) || c.Common().StaticCallee() != nil && l.boolFail[c.Common().StaticCallee()]):
		s.fail = avFalse
	case isBoolT(last) && l.boolTrue[c.Common().StaticCallee()]:
		s.fail = avTrue
	default:
		return nil
	}
	v, ok := c.(*ssa.Call)
	if !ok {
		return s // go/defer: discarded
	}
	if res.Len() == 1 {
		if len(*v.Referrers()) > 0 {
			s.val = v
		}
		return s
	}
	for _, r := range *v.Referrers() {
		if ex, ok := r.(*ssa.Extract); ok && ex.Index == failAt(res) && len(*ex.Referrers()) > 0 {
			s.val = ex
		}
	}
	if s.val == nil && l.marshalInfallible(c) {
		return nil // an encoding that cannot fail may drop its error; one that looks at it has to act on it
	}
	return s
}

// errCtor: the call always returns a non-nil error.
func (l *failLint) errCtor(c ssa.CallInstruction) bool {
	switch calleeName(c) {
	case "errors.New", "fmt.Errorf":
		return true
	}
	if f := c.Common().StaticCallee(); f != nil && l.p.inModule(f) && f.Blocks != nil && f.Signature.Results().Len() == 1 {
		return l.alwaysFails(f)
	}
	return false
}

func (l *failLint) alwaysFails(f *ssa.Function) bool {
	if v, ok := l.sig[f]; ok {
		return v
	}
	l.sig[f] = false
	ok, n := true, 0
	for _, b := range f.Blocks {
		if r, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isR {
			n++
			if l.evalErr(map[ssa.Value]av{}, r.Results[failAt(r.Parent().Signature.Results())], 0) != avNonNil {
				ok = false
			}
		}
	}
	l.sig[f] = ok && n > 0
	return l.sig[f]
}

// propagates: a non-nil error argument makes the result non-nil.
func (l *failLint) propagates(f *ssa.Function) bool {
	if !l.p.inModule(f) || f.Blocks == nil {
		return f.String() == "errors.Join"
	}
	for _, pr := range f.Params {
		if isErrorT(pr.Type()) {
			bad := ""
			w := &failWalk{l: l, fn: f, bad: &bad, seen: map[string]bool{}}
			w.from(f.Blocks[0], 0, map[ssa.Value]av{pr: avNonNil})
			if bad != "" {
				return false
			}
		}
	}
	return true
}

type failWalk struct {
	l     *failLint
	fn    *ssa.Function
	bad   *string
	badAt token.Pos
	seen  map[string]bool
	steps int
	again string // a later call of this is another attempt
	onRet func(r *ssa.Return, env map[ssa.Value]av)
}

// evalErr is what is known of an error value.
func (l *failLint) evalErr(env map[ssa.Value]av, v ssa.Value, d int) av {
	if a, ok := env[v]; ok {
		return a
	}
	if d > 6 {
		return avTop
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.IsNil() {
			return avNil
		}
		if isBoolT(v.Type()) && v.Value != nil {
			if v.Value.String() == "true" {
				return avTrue
			}
			return avFalse
		}
	case *ssa.MakeInterface:
		if _, isPtr := v.X.Type().Underlying().(*types.Pointer); !isPtr || !isErrorT(v.Type()) {
			return avNonNil
		}
		return avNonNil
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			return l.evalCall(env, c, v.Index, d+1)
		}
	case *ssa.Call:
		if isBoolT(v.Type()) {
			return l.evalCall(env, v, 0, d+1)
		}
		if isErrorT(v.Type()) {
			if l.errCtor(v) {
				return avNonNil
			}
			if f := v.Call.StaticCallee(); f != nil && len(v.Call.Args) > 0 {
				for _, a := range v.Call.Args {
					if isErrorT(a.Type()) && l.evalErr(env, a, d+1) == avNonNil && l.propagates(f) {
						return avNonNil
					}
				}
			}
			return l.evalCall(env, v, 0, d+1)
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if g, ok := v.X.(*ssa.Global); ok && isErrorT(v.Type()) && g.Pkg != nil {
				return avNonNil // package error values (their initialisation is checked separately)
			}
			if a, ok := env[v.X]; ok {
				return a
			}
		}
		if v.Op == token.NOT {
			switch l.evalErr(env, v.X, d+1) {
			case avTrue:
				return avFalse
			case avFalse:
				return avTrue
			}
		}
	case *ssa.ChangeInterface:
		return l.evalErr(env, v.X, d+1)
	case *ssa.ChangeType:
		return l.evalErr(env, v.X, d+1)
	case *ssa.Phi:
		r := av(-1)
		for _, x := range v.Edges {
			a := l.evalErr(env, x, d+2)
			if r == -1 {
				r = a
			} else if r != a {
				return avTop
			}
		}
		if r == avNonNil {
			return r
		}
	case *ssa.BinOp:
		if v.Op == token.EQL || v.Op == token.NEQ {
			x, y := l.evalErr(env, v.X, d+1), l.evalErr(env, v.Y, d+1)
			r := avTop
			if x == avNil && y == avNil {
				r = avTrue
			} else if x == avNil && y == avNonNil || x == avNonNil && y == avNil {
				r = avFalse
			} else if (x == avTrue || x == avFalse) && (y == avTrue || y == avFalse) {
				r = avFalse
				if x == y {
					r = avTrue
				}
			}
			if r != avTop && v.Op == token.NEQ {
				if r == avTrue {
					return avFalse
				}
				return avTrue
			}
			return r
		}
	}
	return avTop
}

// evalCall is what is known of a result of a call of the module, from what is known of its errors and truth values.
func (l *failLint) evalCall(env map[ssa.Value]av, c *ssa.Call, index, d int) av {
	f := c.Call.StaticCallee()
	if f == nil || f.Blocks == nil || !l.p.inModule(f) || len(c.Call.Args) != len(f.Params) || d > 6 {
		return avTop
	}
	if t := f.Signature.Results().At(index).Type(); !isErrorT(t) && !isBoolT(t) {
		return avTop
	}
	args := map[ssa.Value]av{}
	for i, a := range c.Call.Args {
		if isErrorT(a.Type()) || isBoolT(a.Type()) {
			if v := l.evalErr(env, a, d+1); v != avTop {
				args[f.Params[i]] = v
			}
		}
	}
	if len(args) == 0 {
		return avTop
	}
	r, none := avTop, true
	bad := ""
	w := &failWalk{l: l, fn: f, bad: &bad, seen: map[string]bool{}}
	w.onRet = func(in *ssa.Return, env map[ssa.Value]av) {
		a := avTop
		if index < len(in.Results) {
			a = l.evalErr(env, in.Results[index], d+1)
		}
		if none {
			r, none = a, false
		} else if a != r {
			r = avTop
		}
	}
	w.steps = 19000 // a small function only
	w.from(f.Blocks[0], 0, args)
	if bad != "" || none {
		return avTop
	}
	return r
}

func (w *failWalk) key(b *ssa.BasicBlock, env map[ssa.Value]av) string {
	var ks []string
	for v, a := range env {
		ks = append(ks, fmt.Sprintf("%s=%d", v.Name(), a))
	}
	sort.Strings(ks)
	return fmt.Sprint(b.Index, ":", strings.Join(ks, ","))
}

func cloneEnv(e map[ssa.Value]av) map[ssa.Value]av {
	n := make(map[ssa.Value]av, len(e)+2)
	for k, v := range e {
		n[k] = v
	}
	return n
}

// from explores every path from instruction i of b.
func (w *failWalk) from(b *ssa.BasicBlock, i int, env map[ssa.Value]av) {
	if *w.bad != "" {
		return
	}
	w.steps++
	if w.steps > 20000 {
		*w.bad = "too many paths to decide"
		return
	}
	for _, in := range b.Instrs[i:] {
		switch in := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.Store:
			if a, ok := in.Addr.(*ssa.Alloc); ok && (isErrorT(in.Val.Type()) || isBoolT(in.Val.Type())) {
				env[a] = w.l.evalErr(env, in.Val, 0)
				// an error published through a captured result variable
			}
			if fv, ok := in.Addr.(*ssa.FreeVar); ok && isErrorT(in.Val.Type()) && w.l.evalErr(env, in.Val, 0) == avNonNil {
				env[fv] = avNonNil
			}
		case *ssa.Return:
			w.ret(in, env)
			return
		case *ssa.Panic:
			return
		case *ssa.Call:
			if w.again != "" && w.l.root(in) == w.again {
				return
			}
			delete(env, in)
		case *ssa.If:
			for k := 0; k < 2; k++ {
				n := cloneEnv(env)
				want := avTrue
				if k == 1 {
					want = avFalse
				}
				c := w.l.evalErr(env, in.Cond, 0)
				if (c == avTrue || c == avFalse) && c != want {
					continue
				}
				if !w.refine(n, in.Cond, want) {
					continue
				}
				w.edge(b, b.Succs[k], n)
			}
			return
		case *ssa.Jump:
			w.edge(b, b.Succs[0], env)
			return
		default:
			if v, ok := in.(ssa.Value); ok {
				// what was loaded now keeps its value; everything else is computed afresh
				a := avTop
				if u, isU := v.(*ssa.UnOp); isU && u.Op == token.MUL {
					if x, ok := env[u.X]; ok {
						a = x
					}
				}
				if a != avTop {
					env[v] = a
				} else {
					delete(env, v)
				}
			}
		}
	}
}

func (w *failWalk) refine(env map[ssa.Value]av, c ssa.Value, want av) bool {
	if _, isC := c.(*ssa.Const); !isC {
		env[c] = want
	}
	switch c := c.(type) {
	case *ssa.UnOp:
		if c.Op == token.NOT {
			if want == avTrue {
				return w.refine(env, c.X, avFalse)
			}
			return w.refine(env, c.X, avTrue)
		}
	case *ssa.BinOp:
		if c.Op == token.EQL || c.Op == token.NEQ {
			eq := (c.Op == token.EQL) == (want == avTrue)
			x, y := c.X, c.Y
			if w.l.evalErr(env, x, 0) == avNil {
				x, y = y, x
			}
			if w.l.evalErr(env, y, 0) == avNil {
				cur := w.l.evalErr(env, x, 0)
				if eq {
					if cur == avNonNil {
						return false
					}
					env[x] = avNil
				} else {
					if cur == avNil {
						return false
					}
					env[x] = avNonNil
				}
			}
		}
	case *ssa.Call:
		// what the arguments must be for the function to answer so
		for _, a := range c.Call.Args {
			if !isErrorT(a.Type()) || w.l.evalErr(env, a, 0) != avTop {
				continue
			}
			for _, v := range []av{avNil, avNonNil} {
				n := cloneEnv(env)
				delete(n, c)
				n[a] = v
				if got := w.l.evalCall(n, c, 0, 0); (got == avTrue || got == avFalse) && got != want {
					env[a] = avNil
					if v == avNil {
						env[a] = avNonNil
					}
				}
			}
		}
	}
	return true
}

func (w *failWalk) edge(from, to *ssa.BasicBlock, env map[ssa.Value]av) {
	idx := 0
	for k, p := range to.Preds {
		if p == from {
			idx = k
		}
	}
	n := cloneEnv(env)
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !isErrorT(ph.Type()) && !isBoolT(ph.Type()) && !nilable(ph.Type()) {
			continue
		}
		a := w.l.evalErr(env, ph.Edges[idx], 0)
		if a == avTop {
			delete(n, ph)
		} else {
			n[ph] = a
		}
	}
	// facts about values that are dead here only multiply the states
	live := w.l.p.cfg(w.fn).live[to]
	for v := range n {
		switch v.(type) {
		case *ssa.Alloc, *ssa.FreeVar, *ssa.Parameter, *ssa.Const:
		default:
			if !live[v] {
				delete(n, v)
			}
		}
	}
	k := w.key(to, n)
	if w.seen[k] {
		return
	}
	w.seen[k] = true
	w.from(to, 0, n)
}

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return true
	}
	return false
}

func (w *failWalk) ret(r *ssa.Return, env map[ssa.Value]av) {
	if w.onRet != nil {
		w.onRet(r, env)
		return
	}
	fail := func(why string) {
		if *w.bad == "" {
			*w.bad = why
			w.badAt = r.Pos()
		}
	}
	if len(r.Results) == 0 {
		for v, a := range env {
			if _, ok := v.(*ssa.FreeVar); ok && a == avNonNil && isErrorT(deref(v.Type())) {
				return // recorded in the enclosing function's error
			}
		}
		fail("the function returns normally")
		return
	}
	last := r.Results[failAt(r.Parent().Signature.Results())]
	switch {
	case isErrorT(last.Type()):
		switch w.l.evalErr(env, last, 0) {
		case avNonNil:
			return
		case avNil:
			fail("a nil error is returned")
		default:
			fail("the returned error may be nil")
		}
	case isBoolT(last.Type()):
		a, told := w.l.evalErr(env, last, 0), w.l.boolTrue[w.fn]
		if a != avFalse && !told {
			fail("the function does not return false")
		}
		if a != avTrue && told {
			fail("the function does not return true")
		}
	default:
		for _, x := range r.Results {
			if c, ok := x.(*ssa.Const); ok && (c.IsNil() || c.Value == nil || isZeroConst(c)) {
				continue
			}
			if w.l.evalErr(env, x, 0) == avNil {
				continue
			}
			fail("the function returns a value")
		}
	}
}

func isZeroConst(c *ssa.Const) bool {
	s := c.Value.ExactString()
	return s == "0" || s == `""` || s == "false"
}

// failing reports how the failure of site s can be swallowed, "" if it cannot.
func (l *failLint) failing(s *failSite) (string, token.Pos) {
	if s.val == nil {
		return "the result is discarded", s.call.Pos()
	}
	bad := ""
	w := &failWalk{l: l, fn: s.fn, bad: &bad, seen: map[string]bool{}}
	if l.retries(s) {
		w.again = w.l.root(s.call)
	}
	in := s.val.(ssa.Instruction)
	b := in.Block()
	i := 0
	for j, x := range b.Instrs {
		if x == in {
			i = j
		}
	}
	env := w.dominating(b)
	env[s.val] = s.fail
	w.from(b, i+1, env)
	return bad, w.badAt
}

// dominating collects the branch conditions that hold at b because they dominate it.
func (w *failWalk) dominating(b *ssa.BasicBlock) map[ssa.Value]av {
	env := map[ssa.Value]av{}
	for d := b; d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil {
			break
		}
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for k, want := range []av{avTrue, avFalse} {
			t := p.Succs[k]
			if t == d && len(d.Preds) == 1 {
				w.refine(env, iff.Cond, want)
			}
		}
	}
	return env
}

// neverFails: every error the function returns is the nil constant or comes from an infallible call.
func (l *failLint) neverFails(f *ssa.Function) bool {
	if !l.p.inModule(f) || f.Blocks == nil {
		return false
	}
	if v, ok := l.never[f]; ok {
		return v
	}
	l.never[f] = false
	ok := true
	var nilv func(v ssa.Value, d int) bool
	passes := func(c *ssa.Call, d int) bool {
		f := c.Call.StaticCallee()
		if f == nil || !l.onlyPasses(f) {
			return false
		}
		for _, a := range c.Call.Args {
			if isErrorT(a.Type()) && !nilv(a, d+1) {
				return false
			}
		}
		return true
	}
	nilv = func(v ssa.Value, d int) bool {
		if d > 5 {
			return false
		}
		switch v := v.(type) {
		case *ssa.Const:
			return v.IsNil()
		case *ssa.Extract:
			if c, isC := v.Tuple.(*ssa.Call); isC {
				return infallible(calleeName(c)) || l.marshalInfallible(c) || passes(c, d) || c.Call.StaticCallee() != nil && l.neverFails(c.Call.StaticCallee())
			}
		case *ssa.Call:
			return infallible(calleeName(v)) || passes(v, d) || v.Call.StaticCallee() != nil && l.neverFails(v.Call.StaticCallee())
		case *ssa.Phi:
			for _, x := range v.Edges {
				if !nilv(x, d+1) {
					return false
				}
			}
			return true
		}
		return false
	}
	for _, b := range f.Blocks {
		if r, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isR {
			if len(r.Results) == 0 || !nilv(r.Results[failAt(r.Parent().Signature.Results())], 0) {
				ok = false
			}
		}
	}
	l.never[f] = ok
	return ok
}

// argType is the static type behind an interface argument.
func argType(c ssa.CallInstruction, i int) types.Type {
	as := c.Common().Args
	if i >= len(as) {
		return nil
	}
	v := as[i]
	if mi, ok := v.(*ssa.MakeInterface); ok {
		return mi.X.Type()
	}
	return v.Type()
}

func (s *failSite) argType(i int) types.Type {
	if as := s.call.Common().Args; i < len(as) && s.outer != nil {
		if p, ok := as[i].(*ssa.Parameter); ok && types.IsInterface(p.Type()) {
			for j, q := range s.fn.Params {
				if p == q {
					return s.outer.argType(j)
				}
			}
		}
	}
	return argType(s.call, i)
}

// marshalInfallible: asn1.Marshal of a value that consists of integers, byte strings and raw values cannot fail.
func (l *failLint) marshalInfallible(c ssa.CallInstruction) bool {
	if calleeName(c) != "encoding/asn1.Marshal" {
		return false
	}
	var ok func(t types.Type, d int) bool
	ok = func(t types.Type, d int) bool {
		if d > 8 {
			return false
		}
		switch typeName(t) {
		case "encoding/asn1.RawValue", "encoding/asn1.BitString", "math/big.Int", "encoding/asn1.Enumerated", "encoding/asn1.Flag":
			return true
		case "encoding/asn1.ObjectIdentifier", "time.Time":
			return false
		}
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return u.Info()&(types.IsInteger|types.IsBoolean) != 0
		case *types.Pointer:
			return ok(u.Elem(), d+1)
		case *types.Slice:
			return ok(u.Elem(), d+1)
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if !ok(u.Field(i).Type(), d+1) {
					return false
				}
			}
			return true
		}
		return false
	}
	t := argType(c, 0)
	return t != nil && ok(t, 0)
}

// constParse: parsing a constant that is well formed cannot fail.
func (l *failLint) constParse(c ssa.CallInstruction) bool {
	if calleeName(c) != "(*math/big.Int).SetString" {
		return false
	}
	s, ok1 := c.Common().Args[1].(*ssa.Const)
	b, ok2 := c.Common().Args[2].(*ssa.Const)
	if !ok1 || !ok2 || s.Value == nil || b.Value == nil {
		return false
	}
	_, ok := new(big.Int).SetString(constant.StringVal(s.Value), int(b.Int64()))
	return ok
}

func newFailLint(p *Program) *failLint {
	l := &failLint{p: p, boolFail: map[*ssa.Function]bool{}, boolTrue: map[*ssa.Function]bool{}, sig: map[*ssa.Function]bool{}, never: map[*ssa.Function]bool{}}
	// bool-returning module functions that turn false (or, unexported tests, true) when something they call fails
	turns := func(fn *ssa.Function) bool {
		n, ok := 0, true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, isC := in.(ssa.CallInstruction); isC {
					if s := l.site(fn, c); s != nil {
						n++
						if w, _ := l.failing(s); w != "" {
							ok = false
						}
					}
				}
			}
		}
		return ok && n > 0
	}
	for ch := true; ch; {
		ch = false
		for _, fn := range p.allFuncs() {
			res := fn.Signature.Results()
			if l.boolFail[fn] || l.boolTrue[fn] || res.Len() == 0 || !isBoolT(res.At(failAt(res)).Type()) {
				continue
			}
			if turns(fn) {
				l.boolFail[fn] = true
				ch = true
			} else if res.Len() == 1 && fn.Object() != nil && !fn.Object().Exported() {
				l.boolTrue[fn] = true
				if turns(fn) {
					ch = true
				} else {
					delete(l.boolTrue, fn)
				}
			}
		}
	}
	return l
}

func atStr(c *Ctx, at token.Pos) string {
	if !at.IsValid() {
		return ""
	}
	p := c.P.prog.Fset.Position(at)
	return fmt.Sprintf(" (return at %s:%d)", c.P.rel(p.Filename), p.Line)
}

func checkFailures(c *Ctx) {
	l := newFailLint(c.P)
	checkErrorGlobals(c, l)
	for _, fn := range c.P.allFuncs() {
		c.funcs[fn.String()] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if mi, ok := in.(*ssa.MakeInterface); ok && isErrorT(mi.Type()) {
					c.sites++
					why, at := "the error is not used", mi.Pos()
					if len(*mi.Referrers()) > 0 {
						why, at = l.failing(&failSite{fn: fn, val: mi, fail: avNonNil})
					}
					c.oblige("a constructed error makes the function fail", short(fn)+" "+mi.X.Type().String(), mi.Pos(), why == "", "an error of type %s is constructed, yet %s%s", mi.X.Type(), why, atStr(c, at))
					continue
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				s := l.site(fn, ci)
				if s == nil {
					continue
				}
				c.sites++
				why, at := l.failing(s)
				if why != "" {
					if ex := l.failExcept(c, s); ex != "" {
						c.notes = append(c.notes, fmt.Sprintf("%s: failure of %s tolerated: %s", short(fn), s.callee, ex))
						why = ""
					}
				}
				c.oblige("a failed call makes the caller fail", short(fn)+" -> "+s.callee, ci.Pos(), why == "", "when %s fails, %s%s", s.callee, why, atStr(c, at))
			}
		}
	}
}

// checkErrorGlobals: a package-level error value is set once, by its initialiser, and is not nil.
func checkErrorGlobals(c *Ctx, l *failLint) {
	stores := map[*ssa.Global][]*ssa.Store{}
	for fn := range ssautil.AllFunctions(c.P.prog) {
		if !c.P.inModule(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok && isErrorT(st.Val.Type()) {
						stores[g] = append(stores[g], st)
					}
				}
			}
		}
	}
	for _, pk := range c.P.pkgs {
		for _, m := range pk.Members {
			g, ok := m.(*ssa.Global)
			if !ok || !isErrorT(deref(g.Type())) {
				continue
			}
			c.sites++
			ss := stores[g]
			good := len(ss) == 1 && ss[0].Parent().Name() == "init" && ss[0].Parent().Synthetic != "" && l.evalErr(map[ssa.Value]av{}, ss[0].Val, 0) == avNonNil
			c.oblige("package error values are not nil", trimMod(g.String()), g.Pos(), good, "%d assignments, not exactly one non-nil initialiser", len(ss))
		}
	}
}

// retries: operations that may be attempted again after a failure; the path on which they failed is then decided by the later attempt.
func (l *failLint) retries(s *failSite) bool {
	if f := l.forwarded(s); f != nil && l.retries(f) {
		return true
	}
	return s.callee == "pkcs12.verifyMac" ||
		s.callee == "time.Parse" && filepath.Base(l.p.prog.Fset.Position(s.call.Pos()).Filename) == "parser.go"
}

// failExcept: failures the code is meant to tolerate, identified by what failed (callee, type and source file), not by the caller.
func (l *failLint) failExcept(c *Ctx, s *failSite) string {
	if f := l.forwarded(s); f != nil {
		if ex := l.failExcept(c, f); ex != "" {
			return ex
		}
	}
	file := filepath.Base(c.P.prog.Fset.Position(s.call.Pos()).Filename)
	arg := func(i int) string {
		t := s.argType(i)
		if t == nil {
			return ""
		}
		if d := deref(t); d != nil {
			t = d
		}
		return asn1Schema(t)
	}
	const algID = "{ObjectIdentifier;RawValue optional}"
	switch {
	case s.callee == "encoding/asn1.Marshal" && s.val == nil && arg(0) == "{"+algID+";BitString}":
		return "a SubjectPublicKeyInfo made of registered identifiers always encodes"
	case s.callee == "encoding/asn1.Unmarshal" && file == "x509.go" && arg(1) == "{ObjectIdentifier;[][]{ObjectIdentifier;any} set}":
		return "request attributes of a foreign form are skipped"
	case s.callee == "encoding/asn1.Unmarshal" && file == "x509.go" && arg(1) == "{ObjectIdentifier;[]RawValue set}":
		return "request attributes of a foreign form are skipped"
	case s.callee == "encoding/asn1.Unmarshal" && file == "pkcs8.go" && arg(1) == "ObjectIdentifier":
		return "PKCS #8 parameters need not name a curve; the key may"
	}
	c.notes = append(c.notes, s.callee+" arg "+arg(0)+" / "+arg(1)+" in "+file)
	return ""
}

func init() {
	addCheck(&Check{id: "C29", rule: "typestate analysis of every call that can fail (error result, or the false result of a DER reader): on every control-flow path on which the call failed, the caller returns a non-nil error (or false, or nothing)", run: checkFailures})
}
