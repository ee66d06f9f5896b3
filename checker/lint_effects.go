package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effect analysis: which memory a function may write, as a set of roots (its parameters, captured variables, package
// variables), computed bottom-up over the call graph to a fixpoint.

type root struct {
	kind byte // 'p' parameter, 'f' captured variable, 'g' package variable, 's' stdlib package variable
	i    int
	g    *ssa.Global
	path string // of a parameter passed by value: the field selected, while a part of a struct is followed through calls
}

func (r root) fields() (p []int) {
	for _, w := range strings.Fields(strings.Trim(r.path, "[]")) {
		n := 0
		fmt.Sscan(w, &n)
		p = append(p, n)
	}
	return p
}

// flat forgets the fields.
func (s rootSet) flat() rootSet {
	r := rootSet{}
	for x := range s {
		x.path = ""
		r[x] = true
	}
	return r
}

func (r root) String() string {
	switch r.kind {
	case 'p':
		return fmt.Sprintf("parameter %d", r.i)
	case 'f':
		return fmt.Sprintf("captured variable %d", r.i)
	}
	return "package variable " + trimMod(r.g.String())
}

type rootSet map[root]bool

func (s rootSet) add(o rootSet) bool {
	ch := false
	for r := range o {
		if !s[r] {
			s[r] = true
			ch = true
		}
	}
	return ch
}

type fnEffects struct {
	writes map[root]token.Pos // first write found for each root
	via    map[root]string
	ret    []rootSet // roots reachable from each result
}

type effects struct {
	p   *Program
	fn  map[*ssa.Function]*fnEffects
	imp map[string][]*ssa.Function // module implementations by method name
	cur map[ssa.Value]rootSet      // per function being analysed
	inP map[ssa.Value]bool

	depth int
}

func pointerish(t types.Type) bool { return pointerishD(t, 0) }
func pointerishD(t types.Type, d int) bool {
	if d > 6 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if pointerishD(u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return pointerishD(u.Elem(), d+1)
	case *types.Tuple:
		return true
	}
	return true
}

func newEffects(p *Program) *effects {
	e := &effects{p: p, fn: map[*ssa.Function]*fnEffects{}, imp: map[string][]*ssa.Function{}}
	fns := p.allFuncs()
	for _, f := range fns {
		e.fn[f] = &fnEffects{writes: map[root]token.Pos{}, via: map[root]string{}}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			e.fn[f].ret = append(e.fn[f].ret, rootSet{})
		}
		if f.Signature.Recv() != nil {
			e.imp[f.Name()] = append(e.imp[f.Name()], f)
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range fns {
			if e.analyse(f) {
				ch = true
			}
		}
	}
	return e
}

// targets of a call inside the module.
func (e *effects) targets(cc *ssa.CallCommon) []*ssa.Function {
	if cc.IsInvoke() {
		it, ok := cc.Value.Type().Underlying().(*types.Interface)
		if !ok {
			return nil
		}
		var r []*ssa.Function
		for _, f := range e.imp[cc.Method.Name()] {
			if types.Implements(f.Signature.Recv().Type(), it) || types.Implements(types.NewPointer(f.Signature.Recv().Type()), it) {
				r = append(r, f)
			}
		}
		return r
	}
	if f := cc.StaticCallee(); f != nil {
		if e.fn[f] != nil {
			return []*ssa.Function{f}
		}
		return nil
	}
	return nil
}

func (e *effects) analyse(f *ssa.Function) bool {
	fe := e.fn[f]
	e.cur = map[ssa.Value]rootSet{}
	ch := false
	write := func(v ssa.Value, pos token.Pos, via string, path ...int) {
		rs := e.writtenRoots(v)
		if len(path) > 0 {
			rs = e.fieldRoots(v, path)
		}
		for r := range rs {
			if _, ok := fe.writes[r]; !ok {
				fe.writes[r] = pos
				fe.via[r] = via
				ch = true
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				write(in.Addr, in.Pos(), "assignment")
			case *ssa.MapUpdate:
				write(in.Map, in.Pos(), "map update")
			case ssa.CallInstruction:
				e.callWrites(in, write)
			case *ssa.Return:
				for i, x := range in.Results {
					if pointerish(x.Type()) && fe.ret[i].add(e.roots(x)) {
						ch = true
					}
				}
			}
		}
	}
	return ch
}

// callWrites reports what a call may write.
func (e *effects) callWrites(in ssa.CallInstruction, write func(v ssa.Value, pos token.Pos, via string, path ...int)) {
	cc := in.Common()
	name := calleeName(in)
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, cc.Args...)
	}
	ts := e.targets(cc)
	for _, t := range ts {
		te := e.fn[t]
		for r := range te.writes {
			switch r.kind {
			case 'p':
				if r.i < len(args) {
					write(args[r.i], in.Pos(), "call of "+short(t), r.fields()...)
				}
			case 'g':
				write(r.g, in.Pos(), "call of "+short(t))
			case 'f':
				if mc, ok := cc.Value.(*ssa.MakeClosure); ok && r.i < len(mc.Bindings) {
					write(mc.Bindings[r.i], in.Pos(), "call of "+short(t))
				}
			}
		}
	}
	// closures handed to a library call run there
	for _, a := range args {
		if mc, ok := a.(*ssa.MakeClosure); ok {
			if te := e.fn[mc.Fn.(*ssa.Function)]; te != nil {
				for r := range te.writes {
					switch r.kind {
					case 'f':
						write(mc.Bindings[r.i], in.Pos(), "closure")
					case 'g':
						write(r.g, in.Pos(), "closure")
					}
				}
			}
		} else if fv, ok := a.(*ssa.Function); ok && e.fn[fv] != nil {
			for r := range e.fn[fv].writes {
				if r.kind == 'g' {
					write(r.g, in.Pos(), "function value")
				}
			}
		}
	}
	if len(ts) > 0 && !cc.IsInvoke() {
		return
	}
	for _, i := range extWrites(name, cc) {
		if i < len(args) {
			write(args[i], in.Pos(), name)
		}
	}
}

// extWrites lists the arguments a library call writes through (receiver first).
func extWrites(name string, cc *ssa.CallCommon) []int {
	switch {
	case name == "builtin.copy", name == "builtin.append", name == "builtin.delete", name == "builtin.clear":
		return []int{0}
	case strings.HasPrefix(name, "(*math/big.Int)."):
		m := name[len("(*math/big.Int)."):]
		switch m {
		case "Add", "Sub", "Mul", "Div", "Mod", "Quo", "Rem", "Exp", "ModInverse", "ModSqrt", "Set", "SetBytes", "SetString", "SetInt64", "SetUint64", "SetBit", "SetBits", "Neg", "Abs", "Not", "And", "Or", "Xor", "AndNot", "Lsh", "Rsh", "Sqrt", "Rand", "GCD", "MulRange", "Binomial", "UnmarshalText", "UnmarshalJSON", "GobDecode", "Scan":
			return []int{0}
		case "DivMod", "QuoRem":
			return []int{0, 3}
		case "FillBytes":
			return []int{1}
		}
		return nil
	case name == "io.ReadFull", name == "io.ReadAtLeast":
		return []int{1}
	case name == "crypto/rand.Read":
		return []int{0}
	case strings.HasPrefix(name, "invoke:") && strings.HasSuffix(name, ".Read") && len(cc.Args) == 1:
		return []int{1}
	case strings.HasPrefix(name, "invoke:crypto/cipher.Block."):
		return []int{1}
	case strings.HasPrefix(name, "invoke:crypto/cipher."):
		return []int{0, 1}
	case strings.HasPrefix(name, "invoke:hash.Hash."):
		if strings.HasSuffix(name, ".Sum") {
			return []int{1} // append
		}
		return []int{0}
	case strings.HasPrefix(name, "(encoding/binary."):
		if strings.Contains(name, ").Put") {
			return []int{1}
		}
	case strings.HasPrefix(name, "encoding/asn1.Unmarshal"):
		return []int{1}
	case strings.HasPrefix(name, "(*golang.org/x/crypto/cryptobyte.String)."):
		r := []int{0}
		for i := range cc.Args {
			if i > 0 {
				r = append(r, i)
			}
		}
		return r
	case strings.HasPrefix(name, "(*golang.org/x/crypto/cryptobyte.Builder)."):
		return []int{0}
	case strings.HasPrefix(name, "(*crypto/x509/pkix.Name).FillFromRDNSequence"):
		return []int{0}
	case strings.HasPrefix(name, "sort."), strings.HasPrefix(name, "slices.Sort"), name == "slices.Reverse":
		return []int{0}
	case strings.HasPrefix(name, "(*bytes.Buffer)."), strings.HasPrefix(name, "(*strings.Builder)."):
		return []int{0}
	case name == "crypto/subtle.XORBytes", name == "crypto/subtle.ConstantTimeCopy":
		return []int{0, 1}
	case strings.HasPrefix(name, "(*sync."):
		return nil
	}
	return nil
}

// aliasing results of library calls: the result may share memory with these arguments.
func extAlias(name string) []int {
	switch {
	case name == "builtin.append", strings.HasPrefix(name, "bytes.Trim"), name == "bytes.Clone"[:0]:
		return []int{0}
	case strings.HasPrefix(name, "(*math/big.Int).") && !strings.HasSuffix(name, "Bytes"):
		return []int{0}
	case strings.HasPrefix(name, "bytes.Split"), strings.HasPrefix(name, "bytes.Fields"), strings.HasPrefix(name, "(*bytes.Buffer)."), name == "bytes.NewBuffer", name == "bytes.NewReader":
		return []int{0}
	case strings.HasPrefix(name, "invoke:hash.Hash.Sum"):
		return []int{1}
	case strings.HasPrefix(name, "(*encoding/asn1.BitString)"), strings.HasPrefix(name, "(encoding/asn1.BitString)"):
		return []int{0}
	}
	return nil
}

// roots of the memory reachable from v.
func (e *effects) roots(v ssa.Value) rootSet {
	if r, ok := e.cur[v]; ok {
		return r
	}
	r := rootSet{}
	e.cur[v] = r // cycles through phis converge by iteration below
	for {
		n := len(r)
		r.add(e.rootsOf(v))
		if len(r) == n {
			break
		}
	}
	return r
}

func (e *effects) rootsOf(v ssa.Value) rootSet {
	r := rootSet{}
	if !pointerish(v.Type()) {
		return r
	}
	switch v := v.(type) {
	case *ssa.Parameter:
		for i, p := range v.Parent().Params {
			if p == v {
				r[root{kind: 'p', i: i}] = true
			}
		}
	case *ssa.FreeVar:
		for i, p := range v.Parent().FreeVars {
			if p == v {
				r[root{kind: 'f', i: i}] = true
			}
		}
	case *ssa.Global:
		r[root{kind: 'g', g: v}] = true
	case *ssa.Alloc:
		// a fresh cell; what is stored in it is reached by loads
	case *ssa.MakeClosure, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan, *ssa.Function, *ssa.Const:
	case *ssa.FieldAddr:
		return e.roots(v.X)
	case *ssa.IndexAddr:
		return e.roots(v.X)
	case *ssa.Field:
		return e.roots(v.X)
	case *ssa.Index:
		return e.roots(v.X)
	case *ssa.Lookup:
		return e.roots(v.X)
	case *ssa.Slice:
		return e.roots(v.X)
	case *ssa.ChangeType:
		return e.roots(v.X)
	case *ssa.Convert:
		// string <-> []byte conversions copy
		if isString(v.X.Type()) || isString(v.Type()) {
			return r
		}
		return e.roots(v.X)
	case *ssa.ChangeInterface:
		return e.roots(v.X)
	case *ssa.MakeInterface:
		return e.roots(v.X)
	case *ssa.TypeAssert:
		return e.roots(v.X)
	case *ssa.SliceToArrayPointer:
		return e.roots(v.X)
	case *ssa.Extract:
		switch t := v.Tuple.(type) {
		case *ssa.Call:
			return e.callRoots(t, v.Index)
		case *ssa.TypeAssert:
			return e.roots(t.X)
		case *ssa.Next:
			if rg, ok := t.Iter.(*ssa.Range); ok {
				return e.roots(rg.X)
			}
		case *ssa.Lookup:
			return e.roots(t.X)
		}
	case *ssa.Phi:
		for _, x := range v.Edges {
			r.add(e.roots(x))
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return e.loadRoots(v.X, v)
		}
	case *ssa.Call:
		return e.callRoots(v, 0)
	}
	return r
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// loadRoots: what the value stored at addr may point to.
func (e *effects) loadRoots(addr ssa.Value, at ssa.Instruction) rootSet {
	r := rootSet{}
	base, path := addrPath(addr)
	switch b := base.(type) {
	case *ssa.Alloc:
		e.storedIn(b, path, at, r, map[ssa.Value]bool{})
		return r.flat()
	}
	r.add(e.roots(addr))
	return r
}

// writtenRoots: whose memory a write to address v is; of a struct passed by value, by which field.
func (e *effects) writtenRoots(v ssa.Value) rootSet {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
			continue
		case *ssa.IndexAddr:
			v = x.X
			continue
		case *ssa.Slice:
			v = x.X
			continue
		case *ssa.UnOp:
			if base, path := addrPath(x.X); x.Op == token.MUL {
				if a, ok := base.(*ssa.Alloc); ok {
					r := rootSet{}
					e.storedIn(a, path, x, r, map[ssa.Value]bool{})
					return r
				}
			}
		}
		return e.roots(v)
	}
}

// addrPath strips field selections from an address.
func addrPath(a ssa.Value) (ssa.Value, []int) {
	switch a := a.(type) {
	case *ssa.FieldAddr:
		b, p := addrPath(a.X)
		return b, append(p, a.Field)
	case *ssa.IndexAddr:
		if _, ok := a.X.Type().Underlying().(*types.Pointer); ok {
			b, p := addrPath(a.X)
			return b, append(p, -1)
		}
	}
	return a, nil
}

func pathOverlap(a, b []int) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] && a[i] != -1 && b[i] != -1 {
			return false
		}
	}
	return true
}

// instrBefore: a is always executed before b.
func instrBefore(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return a.Block().Dominates(b.Block())
	}
	for _, in := range a.Block().Instrs {
		if in == a || in == b {
			return in == a && a != b
		}
	}
	return false
}

// reachesBlock: control may pass from the end of a to the start of b.
func reachesBlock(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	todo := []*ssa.BasicBlock{a}
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				todo = append(todo, s)
			}
		}
	}
	return false
}

// overwrites are the stores that always replace what is at the path of a before instruction at.
func overwrites(a *ssa.Alloc, path []int, at ssa.Instruction) (r []ssa.Instruction) {
	var visit func(addr ssa.Value, n int)
	visit = func(addr ssa.Value, n int) {
		for _, in := range *addr.Referrers() {
			switch in := in.(type) {
			case *ssa.Store:
				if in.Addr == addr && instrBefore(in, at) {
					r = append(r, in)
				}
			case *ssa.FieldAddr:
				if n < len(path) && path[n] == in.Field {
					visit(in, n+1)
				}
			}
		}
	}
	if at != nil && at.Parent() == a.Parent() {
		visit(a, 0)
	}
	return r
}

// storedIn collects the roots of the values that may be stored in the cell at the given field path when at is executed.
func (e *effects) storedIn(a *ssa.Alloc, path []int, at ssa.Instruction, r rootSet, seen map[ssa.Value]bool) {
	if a.Referrers() == nil {
		return
	}
	over := overwrites(a, path, at)
	gone := func(in ssa.Instruction) bool {
		if at != nil && at.Parent() == in.Parent() && !(in.Block() == at.Block() && instrBefore(in, at)) && !reachesBlock(in.Block(), at.Block()) {
			return true // stored only later
		}
		for _, k := range over {
			if instrBefore(in, k) && !reachesBlock(k.Block(), in.Block()) {
				return true
			}
		}
		return false
	}
	var visit func(addr ssa.Value, p []int)
	visit = func(addr ssa.Value, p []int) {
		if seen[addr] {
			return
		}
		seen[addr] = true
		if addr.Referrers() == nil {
			return
		}
		for _, in := range *addr.Referrers() {
			switch in := in.(type) {
			case *ssa.Store:
				if in.Addr == addr && pathOverlap(p, path) && !gone(in) {
					if len(path) > len(p) {
						r.add(e.fieldRoots(in.Val, path[len(p):]))
					} else {
						r.add(e.roots(in.Val))
					}
				}
			case *ssa.FieldAddr:
				visit(in, append(append([]int(nil), p...), in.Field))
			case *ssa.IndexAddr:
				visit(in, append(append([]int(nil), p...), -1))
			case *ssa.Slice:
				visit(in, append(append([]int(nil), p...), -1))
			case ssa.CallInstruction:
				// a callee may store its other arguments here
				if pathOverlap(p, path) && len(e.targets(in.Common())) > 0 {
					for _, x := range in.Common().Args {
						if x != addr {
							r.add(e.roots(x))
						}
					}
				} else if n := calleeName(in); pathOverlap(p, path) && (strings.HasPrefix(n, "encoding/asn1.Unmarshal") || strings.Contains(n, "cryptobyte.String).Read")) {
					for _, x := range in.Common().Args {
						if x != addr {
							r.add(e.roots(x))
						}
					}
				}
			case *ssa.MakeInterface:
				visit(in, p)
			}
		}
	}
	visit(a, nil)
}

// fieldRoots are the roots of the part of a struct value selected by path.
func (e *effects) fieldRoots(v ssa.Value, path []int) rootSet {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		base, bp := addrPath(u.X)
		if a, ok := base.(*ssa.Alloc); ok {
			r := rootSet{}
			e.storedIn(a, append(append([]int(nil), bp...), path...), u, r, map[ssa.Value]bool{})
			return r
		}
	}
	if c, ok := v.(*ssa.Const); ok && c.Value == nil {
		return rootSet{}
	}
	if len(path) == 0 || e.depth > 6 {
		return e.roots(v)
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		r := rootSet{}
		for y := range e.roots(v) {
			if y.kind == 'p' && len(path) <= 8 {
				y.path = fmt.Sprint(path)
			}
			r[y] = true
		}
		return r
	case *ssa.Call:
		return e.fieldOfCall(x, 0, path)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return e.fieldOfCall(c, x.Index, path)
		}
	}
	return e.roots(v)
}

// fieldOfCall are the roots of a part of the struct value returned by a call.
func (e *effects) fieldOfCall(c *ssa.Call, idx int, path []int) rootSet {
	f := c.Call.StaticCallee()
	if f == nil || f.Blocks == nil || !e.p.inModule(f) || len(f.FreeVars) > 0 {
		return e.callRoots(c, idx)
	}
	e.depth++
	defer func() { e.depth-- }()
	r := rootSet{}
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		if idx >= len(ret.Results) {
			return e.callRoots(c, idx)
		}
		for x := range e.fieldRoots(ret.Results[idx], path) {
			switch {
			case x.kind == 'p' && x.path != "":
				r.add(e.fieldRoots(c.Call.Args[x.i], x.fields()))
			case x.kind == 'p':
				r.add(e.roots(c.Call.Args[x.i]))
			case x.kind == 'f':
				return e.callRoots(c, idx)
			default:
				r[x] = true
			}
		}
	}
	return r
}

func (e *effects) callRoots(c *ssa.Call, idx int) rootSet {
	r := rootSet{}
	cc := &c.Call
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, cc.Args...)
	}
	ts := e.targets(cc)
	for _, t := range ts {
		te := e.fn[t]
		if idx >= len(te.ret) {
			continue
		}
		for x := range te.ret[idx] {
			switch x.kind {
			case 'p':
				if x.i < len(args) {
					r.add(e.roots(args[x.i]))
				}
			case 'f':
				if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
					r.add(e.roots(mc.Bindings[x.i]))
				}
			default:
				r[x] = true
			}
		}
	}
	if len(ts) > 0 && !cc.IsInvoke() {
		return r
	}
	for _, i := range extAlias(calleeName(c)) {
		if i < len(args) {
			r.add(e.roots(args[i]))
		}
	}
	return r
}

// initOnly: functions that run only while packages are initialised or under sync.Once.
func (e *effects) initOnly() map[*ssa.Function]bool {
	callers := map[*ssa.Function][]*ssa.Function{}
	once := map[*ssa.Function]bool{}
	escaped := map[*ssa.Function]bool{}
	fns := e.p.allFuncs()
	for _, sp := range e.p.pkgs {
		if f := sp.Func("init"); f != nil {
			fns = append(fns, f)
		}
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						callers[g] = append(callers[g], f)
						if g.String() == "(*sync.Once).Do" {
							for _, a := range c.Common().Args {
								if h, ok := a.(*ssa.Function); ok {
									once[h] = true
								}
								if mc, ok := a.(*ssa.MakeClosure); ok {
									once[mc.Fn.(*ssa.Function)] = true
								}
							}
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if h, ok := (*op).(*ssa.Function); ok {
						if c, isC := in.(ssa.CallInstruction); !isC || c.Common().Value != h {
							escaped[h] = true
						}
					}
				}
			}
		}
	}
	r := map[*ssa.Function]bool{}
	isInit := func(f *ssa.Function) bool {
		return f.Name() == "init" && f.Signature.Recv() == nil || strings.HasPrefix(f.Name(), "init#")
	}
	for _, f := range fns {
		if isInit(f) || once[f] || short(f) == "x509.RegisterHash" {
			r[f] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range fns {
			if r[f] || len(callers[f]) == 0 || escaped[f] && !once[f] || token.IsExported(f.Name()) {
				continue
			}
			ok := true
			for _, g := range callers[f] {
				if !r[g] {
					ok = false
				}
			}
			if ok {
				r[f] = true
				ch = true
			}
		}
	}
	return r
}

func isExportedFn(f *ssa.Function) bool {
	if f.Parent() != nil || !token.IsExported(f.Name()) || f.Pkg == nil {
		return false
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if d := deref(t); d != nil {
			t = d
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Exported() || true // unexported types are reachable through interfaces
		}
	}
	return true
}

func checkGlobals(c *Ctx) {
	e := newEffects(c.P)
	initOnly := e.initOnly()
	for _, f := range c.P.allFuncs() {
		c.funcs[f.String()] = true
		if initOnly[f] {
			continue
		}
		var bad []string
		fe := e.fn[f]
		for r, pos := range fe.writes {
			if r.kind == 'g' && fe.via[r] != "" && !strings.HasPrefix(fe.via[r], "call of ") {
				bad = append(bad, fmt.Sprintf("%s (%s at %s)", r, fe.via[r], c.posStr(pos)))
			}
		}
		sort.Strings(bad)
		c.sites += len(fe.writes)
		c.oblige("no package state is written after initialisation", short(f), f.Pos(), len(bad) == 0, "writes %s", strings.Join(bad, "; "))
	}
	// RegisterHash itself is called from initialisers only
	for _, f := range c.P.allFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && calleeName(ci) == "x509.RegisterHash" {
					c.oblige("RegisterHash is called from initialisers only", short(f), in.Pos(), initOnly[f], "hash functions are registered at run time")
				}
			}
		}
	}
}

func (c *Ctx) posStr(pos token.Pos) string {
	p := c.P.prog.Fset.Position(pos)
	return fmt.Sprintf("%s:%d", c.P.rel(p.Filename), p.Line)
}

// outParam: parameters a function exists to write.
func outParam(f *ssa.Function, i int) bool {
	has := func(t types.Type, m string) bool {
		return types.NewMethodSet(t).Lookup(nil, m) != nil
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		d := t
		if x := deref(t); x != nil {
			d = x
		}
		hash := has(t, "BlockSize") && has(t, "Sum") && has(t, "Reset")
		if i == 0 {
			if n, ok := d.(*types.Named); ok && !n.Obj().Exported() && !has(t, "Encrypt") {
				return true // internal accumulators, hash states and sort adapters
			}
			return hash
		}
		if i == 1 && hash && f.Name() == "Sum" {
			return true // appends to its argument, as hash.Hash requires
		}
		if i == 1 && has(t, "BlockSize") && (f.Name() == "Encrypt" || f.Name() == "Decrypt") {
			return true // the destination block
		}
	}
	return short(f) == "(*x509.PKCS7).UnmarshalSignedAttribute" && i == 2
}

func checkInputs(c *Ctx) {
	e := newEffects(c.P)
	for _, f := range c.P.allFuncs() {
		if !isExportedFn(f) {
			continue
		}
		c.funcs[f.String()] = true
		fe := e.fn[f]
		for i, p := range f.Params {
			if !pointerish(p.Type()) {
				continue
			}
			c.sites++
			var at root
			w := false
			for r := range fe.writes {
				if r.kind == 'p' && r.i == i && (!w || r.path < at.path) {
					at, w = r, true
				}
			}
			pos := fe.writes[at]
			if w && outParam(f, i) {
				continue
			}
			c.oblige("arguments are not written", fmt.Sprintf("%s parameter %d", short(f), i), p.Pos(), !w, "writes memory of parameter %s: %s at %s", p.Name(), fe.via[at], c.posStr(pos))
		}
	}
}

func init() {
	addCheck(&Check{id: "C32", rule: "interprocedural effect analysis: which package variables a function may write", run: checkGlobals})
	addCheck(&Check{id: "C33", rule: "interprocedural effect analysis: which caller memory an exported function may write", run: checkInputs})
}
