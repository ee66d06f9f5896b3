package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// untrusted: the operations that read bytes of unknown origin.
func untrusted(c *Ctx) (fns []*ssa.Function) {
	var names []string
	for pkg, l := range map[string]string{
		"sm2":    "Decryt UnmarshalSign Verify VerifyDigest PublicKey.Verify PublicKey.VerifyDigest PrivateKey.Decryt",
		"x509":   "ParseCertificate ParseCertificates ParseCertificateRequest ParseCRL ParseDERCRL ParsePKCS7 ParsePKIXPublicKey ParsePKCS1PublicKey ParsePKCS1PrivateKey ParsePKCS8PrivateKey ParseECPrivateKey Certificate.CheckSignature Certificate.CheckSignatureFrom Certificate.CheckCRLSignature CertificateRequest.CheckSignature PKCS7.Verify PKCS7.VerifyWithChain PKCS7.GetOnlySigner PKCS7.UnmarshalSignedAttribute",
		"pkcs12": "Decode DecodeAll ToPEM SM2P12Decrypt",
	} {
		for _, n := range strings.Fields(l) {
			names = append(names, pkg+" "+n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		pn := strings.Fields(n)
		if f := c.P.fn(pn[0], pn[1]); f != nil {
			fns = append(fns, f)
		}
	}
	return
}

// reach is every function of the module reachable from the roots: by call, by reference, or by a method of that name behind an interface.
func reach(p *Program, roots []*ssa.Function) map[*ssa.Function]bool {
	methods := map[string][]*ssa.Function{}
	for _, f := range p.allFuncs() {
		if f.Signature.Recv() != nil {
			methods[f.Name()] = append(methods[f.Name()], f)
		}
	}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || !p.inModule(f) && !p.isWrapper(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					if g, ok := (*o).(*ssa.Function); ok {
						add(g)
					}
				}
				if cl, ok := in.(*ssa.MakeClosure); ok {
					add(cl.Fn.(*ssa.Function))
				}
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					it, _ := c.Common().Value.Type().Underlying().(*types.Interface)
					for _, m := range methods[c.Common().Method.Name()] {
						if it == nil || types.Implements(m.Signature.Recv().Type(), it) {
							add(m)
						}
					}
				}
			}
		}
	}
	for _, f := range roots {
		add(f)
	}
	return seen
}

// mayPanic: the instruction panics for some values of its operands.
func mayPanic(in ssa.Instruction) string {
	switch in := in.(type) {
	case *ssa.Index, *ssa.IndexAddr, *ssa.Slice:
		return "bounds"
	case *ssa.Lookup:
		if _, ok := in.X.Type().Underlying().(*types.Basic); ok {
			return "bounds"
		}
	case *ssa.TypeAssert:
		if !in.CommaOk {
			return "typeassert"
		}
	case *ssa.FieldAddr:
		return "nil"
	case *ssa.MakeSlice:
		return "makeslice"
	case *ssa.BinOp:
		if in.Op == token.QUO || in.Op == token.REM {
			return "divzero"
		}
	case *ssa.Panic:
		return "panic"
	}
	return ""
}

// Part is what one process of C30 found out: the analyses of the other properties, of which only the safety obligations count.
type Part struct {
	Ran  []string          // functions some path went through
	Gone map[string]bool   // those with a block no path goes through
	Obls map[string]int    // safety obligations decided, by kind
	Bad  []Finding         // and those that fail
	Fail map[string]string // analyses that gave up
	Ends map[string]string // loops analysed (function and place): why they might not end
}

// safetyPart runs the analyses of the checks and collects their safety obligations.
func safetyPart(p *Program, tier string, ids []string) *Part {
	r := &Part{Gone: map[string]bool{}, Obls: map[string]int{}, Fail: map[string]string{}}
	for _, id := range ids {
		k := &Ctx{P: p, check: checks[id], tier: tier, byRule: map[string]int{}, funcs: map[string]bool{}}
		func() {
			defer func() {
				if x := recover(); x != nil {
					if a, ok := x.(abortError); ok {
						r.Fail[id] = a.msg
					} else {
						r.Fail[id] = fmt.Sprint(x)
					}
				}
			}()
			checks[id].run(k)
		}()
		for _, f := range k.finds {
			if f.Rule == "no panic" || f.Rule == "in bounds" {
				r.Bad = append(r.Bad, f)
			}
		}
		for _, e := range p.engines {
			for _, o := range e.obls {
				r.Obls[o.kind]++
				if o.bad > 0 && o.kind != "nil" && o.kind != "panic" { // what arguments may be nil is for the property to say
					r.Bad = append(r.Bad, Finding{Rule: "in bounds", Where: short(o.fn), Pos: k.posStr(o.instr.Pos()), Detail: "[" + id + "] " + o.kind + ": " + clip(o.detail, 300)})
				}
			}
		}
		p.engines = nil
	}
	r.Ends = map[string]string{}
	for k, why := range p.ends {
		r.Ends[k.fn.String()+" "+p.prog.Fset.Position(k.pos).String()] = why
	}
	for _, f := range p.allFuncs() {
		if p.seen[f.Blocks[0]] {
			r.Ran = append(r.Ran, f.String())
		}
	}
	return r
}

// safetyMain is the process of one part; it prints the Part.
func safetyMain(repo, tier string, ids []string) int {
	tmp, err := os.MkdirTemp("", "mcheck")
	if err != nil {
		return 2
	}
	defer os.RemoveAll(tmp)
	mf, err := writeModfile(repo, tmp)
	if err != nil {
		return 2
	}
	p, err := loadProgram(repo, mf, nil)
	if err != nil {
		return 2
	}
	json.NewEncoder(os.Stdout).Encode(safetyPart(p, tier, ids))
	return 0
}

func checkNoPanic(c *Ctx) {
	groups := []string{"C21", "C24", "C38", "C15", "C17,C10,C14,C11,C16", "C34,C12,C05,C07,C01,C02,C08,C09,C06,C18,C19,C20,C25,C27,C36"}
	parts := make([]*Part, len(groups))
	var wg sync.WaitGroup
	for i, g := range groups {
		wg.Add(1)
		go func() {
			defer wg.Done()
			self, err := os.Executable()
			if err != nil {
				return
			}
			out, err := exec.Command(self, "safety", c.repo, c.tier, g).Output()
			var p Part
			if err == nil && json.Unmarshal(out, &p) == nil {
				parts[i] = &p
			}
		}()
	}
	wg.Wait()
	ran, whole := map[string]bool{}, true
	for i, p := range parts {
		whole = whole && p != nil && len(p.Fail) == 0
		if !c.oblige("the functions are analysed", groups[i], token.NoPos, p != nil, "the analysis of this part did not finish") {
			continue
		}
		for id, why := range p.Fail {
			c.oblige("the functions are analysed", id, token.NoPos, false, "%s", why)
		}
		for _, f := range p.Ran {
			ran[f] = true
			c.funcs[f] = true
		}
		for k, n := range p.Obls {
			c.nObl += n
			c.ok += n
			c.byRule[k] += n
		}
		for _, f := range p.Bad {
			c.nObl++
			c.finds = append(c.finds, f)
		}
	}
	roots := untrusted(c)
	c.oblige("anchor", "decoders", token.NoPos, len(roots) > 0, "no decoder is found")
	rs := reach(c.P, roots)
	var fns []*ssa.Function
	for f := range rs {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	for _, f := range fns {
		risky := 0
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mayPanic(in) != "" {
					risky++
				}
			}
		}
		c.sites += risky
		if ran[f.String()] || f.Synthetic != "" || f.Parent() != nil && !ran[f.Parent().String()] && rs[f.Parent()] {
			continue
		}
		if !whole {
			continue // a part that is missing is reported already; what it covers is not worth analysing on its own
		}
		// on its own, for arbitrary arguments
		e := x509Engine(c)
		e.maxSteps = 3_000_000
		_, _, outs, ok := c.analyse(e, f)
		c.oblige("the functions are analysed", short(f), f.Pos(), ok, "reachable from a decoder, and not analysed")
		if ok {
			c.noPanic(e, f, outs)
		}
		for _, g := range c.P.allFuncs() {
			if c.P.seen[g.Blocks[0]] {
				ran[g.String()] = true
			}
		}
	}
}

func init() {
	addCheck(&Check{id: "C30", rule: "abstract interpretation of every function reachable from a decoder; each instruction that can panic is an obligation", run: checkNoPanic,
		assume:  []string{"lists in the input are unrolled up to the bound of the property that analyses the parser, with arbitrary elements", "library functions do not panic for arguments that satisfy the preconditions modelled (buffer sizes, block sizes, non-nil)"},
		trusted: []string{"encoding/asn1, cryptobyte and the other library packages do not panic on malformed input"}})
}
