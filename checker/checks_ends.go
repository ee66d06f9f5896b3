package main

import (
	"encoding/json"
	"go/token"
	"os"
	"os/exec"
	"sort"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// C41: every loop of the module ends, and no function calls itself without end.

func checkEnds(c *Ctx) {
	groups := []string{"C21", "C24", "C38,C35", "C15,C28", "C23,C26,C04,C03", "C17,C10,C14,C11,C16,C39", "C37,C40,C22,C13", "C34,C12,C05,C07,C01,C02,C08,C09,C06,C18,C19,C20,C25,C27,C36"}
	parts := make([]*Part, len(groups))
	var wg sync.WaitGroup
	for i, g := range groups {
		wg.Add(1)
		go func() {
			defer wg.Done()
			self, err := os.Executable()
			if err != nil {
				return
			}
			out, err := exec.Command(self, "safety", c.repo, c.tier, g).Output()
			var p Part
			if err == nil && json.Unmarshal(out, &p) == nil {
				parts[i] = &p
			}
		}()
	}
	wg.Wait()
	ends := map[string]string{}
	ran := map[string]bool{}
	for i, p := range parts {
		if !c.oblige("the analysis runs", "part "+groups[i], token.NoPos, p != nil, "the analyses of %s ended without a result", groups[i]) {
			continue
		}
		for k, why := range p.Ends {
			if old, ok := ends[k]; !ok || old == "" {
				ends[k] = why
			}
		}
		for _, f := range p.Ran {
			ran[f] = true
			c.funcs[f] = true
		}
	}
	rec := map[*ssa.Function]bool{}
	for _, f := range recursive(c.P) {
		rec[f] = true
	}
	for _, f := range c.P.allFuncs() {
		c.oblige("no function calls itself", short(f), f.Pos(), !rec[f], "the function may be called again before it returns, and nothing shows that this ends")
		info := c.P.cfg(f)
		var ls []*loopT
		for _, b := range f.Blocks {
			if l := info.loopOf[b]; l != nil {
				ls = append(ls, l)
			}
		}
		sort.Slice(ls, func(i, j int) bool { return loopPos(ls[i]) < loopPos(ls[j]) })
		for _, l := range ls {
			if _, ok := ends[f.String()+" "+c.P.prog.Fset.Position(loopPos(l)).String()]; !ok && f.Parent() == nil {
				// on its own, for arbitrary arguments
				e := x509Engine(c)
				e.maxSteps = 3_000_000
				c.P.ends = nil
				c.analyse(e, f)
				for k, why := range c.P.ends {
					key := k.fn.String() + " " + c.P.prog.Fset.Position(k.pos).String()
					if _, known := ends[key]; !known {
						ends[key] = why
					}
				}
				break
			}
		}
		for _, l := range ls {
			c.sites++
			at := loopPos(l)
			why, ok := ends[f.String()+" "+c.P.prog.Fset.Position(at).String()]
			if !ok {
				why = "the loop is not analysed"
			}
			c.oblige("every loop ends", short(f), at, why == "", "%s", why)
		}
	}
}

// recursive lists the functions that may call themselves.
func recursive(p *Program) (r []*ssa.Function) {
	for _, f := range p.allFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if g := call.Common().StaticCallee(); g != nil && p.inModule(g) {
						if g == f {
							r = append(r, f)
						} else if calls(g, f) {
							r = append(r, f)
						}
					}
				}
			}
		}
	}
	return
}

func init() {
	addCheck(&Check{id: "C41", rule: "abstract interpretation of every loop: each way round either is bounded by a fact on the number of the iteration or makes a measure smaller", run: checkEnds})
}
