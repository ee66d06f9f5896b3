package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/mmdet/mcrypto"

// Program is the type-checked SSA form of the repository's current source.
type Program struct {
	dir  string
	prog *ssa.Program
	pkgs map[string]*ssa.Package // by path relative to the module ("sm2", "sm3", ...)
	syn  []*packages.Package
	cfgs map[*ssa.Function]*cfgInfo

	engines []*Engine
	ends    map[endsKey]string       // loops summarised or unrolled: why they might not end
	seen    map[*ssa.BasicBlock]bool // blocks some path of some analysis went through
}

// loadProgram loads every package of the module in dir.
func loadProgram(dir, modfile string, overlay map[string][]byte, patterns ...string) (*Program, error) {
	env := append(os.Environ(), "GOPROXY=off", "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod -modfile="+modfile, "GOSUMDB=off", "GOWORK=off")
	cfg := &packages.Config{
		Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedDeps,
		Dir:     dir,
		Env:     env,
		Overlay: overlay,
	}
	// only the module's own packages need syntax; dependencies come from export data
	cfg.Mode &^= packages.NeedDeps
	cfg.Mode |= packages.NeedExportFile
	if len(patterns) == 0 {
		patterns = []string{"./..."}
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		sort.Strings(errs)
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	p := &Program{dir: dir, prog: prog, pkgs: map[string]*ssa.Package{}, syn: pkgs, cfgs: map[*ssa.Function]*cfgInfo{}, seen: map[*ssa.BasicBlock]bool{}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		sp.Build()
		rel := strings.TrimPrefix(strings.TrimPrefix(pkgs[i].PkgPath, modPath), "/")
		p.pkgs[rel] = sp
	}
	return p, nil
}

func (p *Program) inModule(f *ssa.Function) bool {
	if f.Pkg != nil {
		return strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) || strings.HasPrefix(f.Pkg.Pkg.Path(), "spec")
	}
	if f.Parent() != nil {
		return p.inModule(f.Parent())
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return strings.HasPrefix(o.Pkg.Pkg.Path(), modPath)
	}
	return false
}

// isWrapper accepts synthetic method wrappers, bound methods and thunks.
func (p *Program) isWrapper(f *ssa.Function) bool {
	return f.Synthetic != "" && f.Pkg == nil && f.Blocks != nil
}

// fn finds an exported function or method ("pkg.Func", "pkg.(*T).M", "pkg.T.M").
func (p *Program) fn(pkg, name string) *ssa.Function {
	sp := p.pkgs[pkg]
	if sp == nil {
		return nil
	}
	if i := strings.Index(name, "."); i >= 0 {
		tn, mn := name[:i], name[i+1:]
		ptr := strings.HasPrefix(tn, "*")
		tn = strings.TrimPrefix(tn, "*")
		obj, ok := sp.Pkg.Scope().Lookup(tn).(*types.TypeName)
		if !ok {
			return nil
		}
		var t types.Type = obj.Type()
		if ptr {
			t = types.NewPointer(t)
		}
		sel := types.NewMethodSet(t).Lookup(sp.Pkg, mn)
		if sel == nil && !ptr {
			sel = types.NewMethodSet(types.NewPointer(t)).Lookup(sp.Pkg, mn)
		}
		if sel == nil {
			return nil
		}
		return p.prog.MethodValue(sel)
	}
	f, _ := sp.Members[name].(*ssa.Function)
	return f
}

func (p *Program) typ(pkg, name string) types.Type {
	sp := p.pkgs[pkg]
	if sp == nil {
		return nil
	}
	if o, ok := sp.Pkg.Scope().Lookup(name).(*types.TypeName); ok {
		return o.Type()
	}
	return nil
}

// allFuncs lists every function with a body in the module, sorted.
func (p *Program) allFuncs() []*ssa.Function {
	var r []*ssa.Function
	for f := range ssautil.AllFunctions(p.prog) {
		if f.Blocks != nil && p.inModule(f) && f.Synthetic == "" {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].String() != r[j].String() {
			return r[i].String() < r[j].String()
		}
		return r[i].Pos() < r[j].Pos()
	})
	return r
}

// ---------------------------------------------------------------- control flow

type loopT struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

type cfgInfo struct {
	rpo    []*ssa.BasicBlock
	order  map[*ssa.BasicBlock]int
	loopOf map[*ssa.BasicBlock]*loopT // by header
	live   map[*ssa.BasicBlock]map[ssa.Value]bool
}

func (p *Program) cfg(f *ssa.Function) *cfgInfo {
	if c, ok := p.cfgs[f]; ok {
		return c
	}
	c := &cfgInfo{order: map[*ssa.BasicBlock]int{}, loopOf: map[*ssa.BasicBlock]*loopT{}, live: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(f.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		c.order[post[i]] = len(c.rpo)
		c.rpo = append(c.rpo, post[i])
	}
	// natural loops
	for _, b := range c.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := c.loopOf[s]
				if l == nil {
					l = &loopT{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					c.loopOf[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.body[x] {
						continue
					}
					l.body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	// The RPO must visit a loop's blocks before its exits: order loop bodies first.
	c.reorder()
	// liveness
	use := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	def := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range c.rpo {
		u, d := map[ssa.Value]bool{}, map[ssa.Value]bool{}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); !ok {
				for _, op := range in.Operands(nil) {
					if *op != nil && isLocal(*op) && !d[*op] {
						u[*op] = true
					}
				}
			}
			if v, ok := in.(ssa.Value); ok {
				if _, isPhi := in.(*ssa.Phi); isPhi {
					u[v] = true // phis are bound on the incoming edge
				} else {
					d[v] = true
				}
			}
		}
		use[b], def[b] = u, d
		c.live[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(c.rpo) - 1; i >= 0; i-- {
			b := c.rpo[i]
			l := c.live[b]
			add := func(v ssa.Value) {
				if !l[v] {
					l[v] = true
					ch = true
				}
			}
			for v := range use[b] {
				add(v)
			}
			for _, s := range b.Succs {
				idx := 0
				for k, pr := range s.Preds {
					if pr == b {
						idx = k
					}
				}
				phis := map[ssa.Value]bool{}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					phis[ph] = true
					if e := ph.Edges[idx]; isLocal(e) && !def[b][e] {
						add(e)
					}
				}
				for v := range c.live[s] {
					if !phis[v] && !def[b][v] {
						add(v)
					}
				}
			}
		}
	}
	p.cfgs[f] = c
	return c
}

func isLocal(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return false
	}
	return true
}

// reorder rebuilds the order as a topological order of the loop-collapsed graph so that
// every block of a loop precedes the blocks reached by its exits.
func (c *cfgInfo) reorder() {
	// repeatedly pick, among ready blocks, one inside the innermost open loop
	depth := map[*ssa.BasicBlock][]*loopT{}
	for _, l := range c.loopOf {
		for b := range l.body {
			depth[b] = append(depth[b], l)
		}
	}
	indeg := map[*ssa.BasicBlock]int{}
	for _, b := range c.rpo {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				indeg[s]++
			}
		}
	}
	var ready []*ssa.BasicBlock
	ready = append(ready, c.rpo[0])
	var out []*ssa.BasicBlock
	pos := map[*ssa.BasicBlock]int{}
	for i, b := range c.rpo {
		pos[b] = i
	}
	done := map[*ssa.BasicBlock]bool{}
	for len(ready) > 0 {
		// open loops: started and not finished
		best := -1
		var bestKey [2]int
		for i, b := range ready {
			open := 0
			for _, l := range depth[b] {
				if done[l.header] {
					open++
				}
			}
			key := [2]int{-open, pos[b]}
			if best < 0 || key[0] < bestKey[0] || (key[0] == bestKey[0] && key[1] < bestKey[1]) {
				best, bestKey = i, key
			}
		}
		b := ready[best]
		ready = append(ready[:best], ready[best+1:]...)
		done[b] = true
		out = append(out, b)
		for _, s := range b.Succs {
			if s.Dominates(b) {
				continue
			}
			indeg[s]--
			if indeg[s] == 0 {
				ready = append(ready, s)
			}
		}
	}
	if len(out) == len(c.rpo) {
		c.rpo = out
		for i, b := range out {
			c.order[b] = i
		}
	}
}

// writeModfile makes a private copy of the repository's go.mod/go.sum with the checksums it lacks.
func writeModfile(repo, tmp string) (string, error) {
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return "", err
	}
	sum, _ := os.ReadFile(filepath.Join(repo, "go.sum"))
	const extra = "golang.org/x/crypto v0.18.0 h1:PGVlW0xEltQnzFZ55hkuX5+KLyrMYhHld1YHO4AKcdc=\n"
	if !strings.Contains(string(sum), extra) {
		if len(sum) > 0 && sum[len(sum)-1] != '\n' {
			sum = append(sum, '\n')
		}
		sum = append(sum, extra...)
	}
	mf := filepath.Join(tmp, "repo.mod")
	if err := os.WriteFile(mf, mod, 0o644); err != nil {
		return "", err
	}
	return mf, os.WriteFile(filepath.Join(tmp, "repo.sum"), sum, 0o644)
}
