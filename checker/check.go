package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Check decides one property.
type Check struct {
	id      string
	rule    string // the rule applied, for the evidence
	level   string
	run     func(c *Ctx)
	deep    func(c *Ctx) // extra analysis of the thorough tier
	assume  []string
	trusted []string
}

var checks = map[string]*Check{}

func addCheck(c *Check) { checks[c.id] = c }

// Finding is a failed obligation.
type Finding struct {
	Key    string `json:"key"` // rule@construct
	Rule   string `json:"rule"`
	Where  string `json:"where"`
	Pos    string `json:"position"`
	Detail string `json:"detail"`
}

// Ctx is the state of one check run.
type Ctx struct {
	P       *Program
	check   *Check
	tier    string
	repo    string
	nObl    int
	ok      int
	byRule  map[string]int
	finds   []Finding
	samples []string
	funcs   map[string]bool
	paths   int
	sites   int
	steps   int
	notes   []string
	rc2Seen map[rc2Key]bool
}

// oblige records one obligation of the property.
func (c *Ctx) oblige(rule, where string, pos token.Pos, ok bool, f string, a ...any) bool {
	c.nObl++
	c.byRule[rule]++
	ps := ""
	if pos.IsValid() {
		p := c.P.prog.Fset.Position(pos)
		ps = fmt.Sprintf("%s:%d", c.P.rel(p.Filename), p.Line)
	}
	if ok {
		c.ok++
		if len(c.samples) < 40 {
			c.samples = append(c.samples, rule+" @ "+where)
		}
		return true
	}
	c.finds = append(c.finds, Finding{Key: rule + "@" + where, Rule: rule, Where: where, Pos: ps, Detail: clip(fmt.Sprintf(f, a...), 4000)})
	return false
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func (c *Ctx) fnSeen(e *Engine) {
	for f := range e.fnsSeen {
		c.funcs[f.String()] = true
	}
	c.steps += e.steps
}

// safe: no index, division or conversion went out of bounds in what was analysed (what may be nil and which panics are meant is for the property to say).
func (c *Ctx) safe() {
	for _, e := range c.P.engines {
		for k, o := range e.obls {
			if o.bad > 0 && o.kind != "nil" && o.kind != "panic" {
				c.oblige("in bounds", k, o.instr.Pos(), false, "%s", o.detail)
			}
		}
	}
}

// fn finds an anchor; a missing anchor is a failed obligation.
func (c *Ctx) fn(pkg, name string) *ssa.Function {
	f := c.P.fn(pkg, name)
	if f == nil || f.Blocks == nil {
		c.oblige("anchor", pkg+"."+name, token.NoPos, false, "no such function")
		return nil
	}
	return f
}

func (p *Program) rel(file string) string {
	if r, err := filepath.Rel(p.dir, file); err == nil && !strings.HasPrefix(r, "..") {
		return r
	}
	return file
}

type knownEntry struct{ prop, key, text string }

func loadKnown(path string) []knownEntry {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []knownEntry
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		e := knownEntry{}
		rest := strings.TrimSpace(strings.TrimPrefix(l, "known:"))
		for _, f := range []struct {
			n string
			p *string
		}{{"property=", &e.prop}, {"key=", &e.key}} {
			i := strings.Index(rest, f.n)
			if i < 0 {
				continue
			}
			v := rest[i+len(f.n):]
			if j := strings.IndexByte(v, ' '); j >= 0 {
				v = v[:j]
			}
			*f.p = v
		}
		e.text = rest
		out = append(out, e)
	}
	return out
}

func runCheck(id, tier, verif, repo string) int {
	t0 := time.Now()
	ck := checks[id]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown check", id)
		return 2
	}
	tmp, err := os.MkdirTemp("", "mcheck")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	mf, err := writeModfile(repo, tmp)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p, err := loadProgram(repo, mf, nil)
	if err != nil {
		fmt.Println("cannot load the program:", err)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, "load")
		return 1
	}
	c := &Ctx{P: p, repo: repo, check: ck, tier: tier, byRule: map[string]int{}, funcs: map[string]bool{}}
	run := func(f func(*Ctx)) {
		defer func() {
			if r := recover(); r != nil {
				if a, ok := r.(abortError); ok {
					c.oblige("decided", id, token.NoPos, false, "the analysis gave up: %s", a.msg)
					return
				}
				c.oblige("decided", id, token.NoPos, false, "the analysis failed: %v\n%s", r, debug.Stack())
			}
		}()
		f(c)
	}
	run(ck.run)
	if tier == "thorough" && ck.deep != nil {
		run(ck.deep)
	}
	c.safe()
	if c.nObl == 0 {
		c.oblige("nonempty", id, token.NoPos, false, "the rule matched nothing")
	}
	known := loadKnown(filepath.Join(verif, "known_findings.txt"))
	viol := 0
	sort.SliceStable(c.finds, func(i, j int) bool { return c.finds[i].Key < c.finds[j].Key })
	var bad []Finding
	for _, f := range c.finds {
		matched := false
		for _, k := range known {
			if k.prop == id && k.key == f.Key {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.text)
				matched = true
				break
			}
		}
		if !matched {
			viol++
			bad = append(bad, f)
		}
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	replay := filepath.Join(verif, "evidence", id+".violations.json")
	if viol > 0 {
		b, _ := json.MarshalIndent(bad, "", " ")
		os.WriteFile(replay, b, 0o644)
	} else {
		os.Remove(replay)
	}
	writeEvidence(c, verif, viol, time.Since(t0))
	fmt.Printf("%s tier=%s: %d obligations, %d discharged, %d functions, %d paths, %d sites, %.1fs\n", id, tier, c.nObl, c.ok, len(c.funcs), c.paths, c.sites, time.Since(t0).Seconds())
	for _, n := range c.notes {
		fmt.Println("note:", n)
	}
	if viol > 0 {
		for _, f := range bad {
			fmt.Printf("  %s: %s [%s] %s\n", f.Rule, f.Where, f.Pos, clip(f.Detail, 1500))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	return 0
}

func writeEvidence(c *Ctx, verif string, viol int, d time.Duration) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var fns []string
	for f := range c.funcs {
		fns = append(fns, strings.ReplaceAll(f, modPath+"/", ""))
	}
	sort.Strings(fns)
	level := c.check.level
	if level == "" {
		level = "other"
	}
	cov := map[string]any{
		"explanation":         "Static decision from the type-checked SSA of the current tree. Rule: " + c.check.rule,
		"obligations":         c.nObl,
		"discharged":          c.ok,
		"obligations_by_rule": c.byRule,
		"functions_analysed":  len(fns),
		"functions":           fns,
		"abstract_paths":      c.paths,
		"sites":               c.sites,
		"ssa_steps":           c.steps,
		"samples":             c.samples,
	}
	if len(c.check.trusted) > 0 {
		cov["trusted_base"] = c.check.trusted
	}
	ev := map[string]any{
		"property": c.check.id, "tier": c.tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": c.check.assume, "wall_s": float64(int(d.Seconds()*100)) / 100, "violations": viol,
	}
	if c.check.assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", c.check.id+".json"), b, 0o644)
}
