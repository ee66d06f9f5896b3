package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// External effects: output, logging, environment, files, network, processes, goroutines, and weak randomness.

// ioEffect classifies a call by the outside effect it has, "" if none.
func ioEffect(name string) string {
	pkg := func(ps ...string) bool {
		for _, p := range ps {
			for _, q := range []string{p + ".", "(" + p + ".", "(*" + p + "."} {
				if strings.HasPrefix(name, q) {
					return true
				}
			}
		}
		return false
	}
	switch {
	case name == "builtin.print" || name == "builtin.println", strings.HasPrefix(name, "fmt.Print"), pkg("log", "log/slog"):
		return "output"
	case strings.HasPrefix(name, "fmt.Scan"):
		return "input"
	case name == "io/ioutil.ReadFile" || name == "os.ReadFile" || name == "os.Open" || name == "os.OpenFile" || name == "io/ioutil.WriteFile" || name == "os.WriteFile" || name == "os.Create":
		return "file"
	case strings.HasPrefix(name, "(*os.File)."):
		return "file"
	case pkg("io/ioutil"):
		if name == "io/ioutil.ReadAll" {
			return ""
		}
		return "file system"
	case name == "os.IsNotExist" || name == "os.IsExist" || name == "os.IsPermission":
		return ""
	case pkg("os", "os/exec", "os/signal", "syscall", "plugin", "io/fs"):
		return "operating system"
	case strings.HasPrefix(name, "net.Dial"), strings.HasPrefix(name, "net.Listen"), strings.HasPrefix(name, "net.Lookup"), strings.HasPrefix(name, "(*net.Dialer)"), strings.HasPrefix(name, "(*net.Resolver)"), pkg("net/http", "net/rpc", "net/smtp"):
		return "network"
	case name == "time.Now" || name == "time.Since" || name == "time.Until":
		return "clock"
	case name == "time.Sleep" || name == "time.After" || name == "time.AfterFunc" || name == "time.Tick" || name == "time.NewTimer" || name == "time.NewTicker", pkg("time.Timer", "time.Ticker"):
		return "waiting"
	case name == "time.LoadLocation" || name == "(time.Time).Local":
		return "environment"
	case name == "crypto/x509.SystemCertPool" || name == "(*crypto/x509.Certificate).Verify":
		return "operating system"
	case pkg("testing", "flag", "expvar", "database/sql", "net/textproto", "net/smtp", "runtime/pprof", "runtime/trace", "runtime/metrics"):
		return "operating system"
	case pkg("math/rand", "math/rand/v2"):
		return "non-cryptographic randomness"
	case pkg("runtime", "runtime/debug", "os/user"):
		return "runtime control"
	case pkg("unsafe", "reflect.Value.Set"):
		return "unsafe"
	}
	return ""
}

func callersOf(p *Program) map[*ssa.Function]map[*ssa.Function]bool {
	r := map[*ssa.Function]map[*ssa.Function]bool{}
	e := &effects{p: p, fn: map[*ssa.Function]*fnEffects{}, imp: map[string][]*ssa.Function{}}
	for _, f := range p.allFuncs() {
		e.fn[f] = &fnEffects{}
		if f.Signature.Recv() != nil {
			e.imp[f.Name()] = append(e.imp[f.Name()], f)
		}
	}
	add := func(g, f *ssa.Function) {
		if r[g] == nil {
			r[g] = map[*ssa.Function]bool{}
		}
		r[g][f] = true
	}
	for _, f := range p.allFuncs() {
		if f.Parent() != nil {
			add(f, f.Parent())
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, g := range e.targets(c.Common()) {
						add(g, f)
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						add(g, f)
					}
				}
			}
		}
	}
	return r
}

// entryPoints are the exported functions (and initialisers) from which f can be reached.
func entryPoints(f *ssa.Function, callers map[*ssa.Function]map[*ssa.Function]bool) []string {
	seen := map[*ssa.Function]bool{f: true}
	work := []*ssa.Function{f}
	set := map[string]bool{}
	for len(work) > 0 {
		g := work[len(work)-1]
		work = work[:len(work)-1]
		if isExportedFn(g) || strings.HasPrefix(g.Name(), "init") {
			set[short(g)] = true
		}
		for h := range callers[g] {
			if !seen[h] {
				seen[h] = true
				work = append(work, h)
			}
		}
	}
	var r []string
	for s := range set {
		r = append(r, s)
	}
	sort.Strings(r)
	return r
}

// clockAllowed: the signing time attribute.
var clockAllowed = map[string]bool{"x509.NewSignedData": true, "x509.NewSignedDataCallBack": true}

// fileAllowed: the two functions whose purpose is a file.
var fileAllowed = map[string]string{"pkcs12.SM2P12Encrypt": "write", "pkcs12.SM2P12Decrypt": "read"}

func checkEffects(c *Ctx) {
	callers := callersOf(c.P)
	for _, f := range c.P.allFuncs() {
		c.funcs[f.String()] = true
		var bad []string
		var at token.Pos
		note := func(pos token.Pos, s string) {
			if !at.IsValid() {
				at = pos
			}
			bad = append(bad, s+" at "+c.posStr(pos))
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && (g.Pkg.Pkg.Path() == "os" || g.Pkg.Pkg.Path() == "time" && g.Name() == "Local") {
						note(in.Pos(), "use of "+g.Pkg.Pkg.Path()+"."+g.Name())
					}
					if g, ok := (*op).(*ssa.Function); ok {
						if ci, isC := in.(ssa.CallInstruction); !isC || ci.Common().Value != g {
							if k := ioEffect(trimMod(g.String())); k != "" {
								note(in.Pos(), "reference to "+g.String())
							}
						}
					}
				}
				if _, ok := in.(*ssa.Go); ok {
					note(in.Pos(), "a goroutine")
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				c.sites++
				name := calleeName(ci)
				k := ioEffect(name)
				if k == "" {
					continue
				}
				if k == "file" {
					ok := true
					for _, ep := range entryPoints(f, callers) {
						dir := fileAllowed[ep]
						isRead := strings.Contains(name, "Read") || name == "os.Open"
						if dir == "" || (dir == "read") != isRead {
							ok = false
							note(ci.Pos(), fmt.Sprintf("%s reachable from %s", name, ep))
						}
					}
					c.oblige("files are touched by SM2P12Encrypt and SM2P12Decrypt only", short(f)+" -> "+name, ci.Pos(), ok, "%s", strings.Join(bad, "; "))
					if !ok {
						bad = nil
					}
					continue
				}
				if k == "clock" {
					eps := entryPoints(f, callers)
					ok := len(eps) > 0
					for _, ep := range eps {
						if !clockAllowed[ep] {
							ok = false
							note(ci.Pos(), fmt.Sprintf("%s reachable from %s", name, ep))
						}
					}
					c.oblige("the clock is read by NewSignedData and NewSignedDataCallBack only", short(f)+" -> "+name, ci.Pos(), ok, "%s", strings.Join(bad, "; "))
					if !ok {
						bad = nil
					}
					continue
				}
				note(ci.Pos(), k+" through "+name)
			}
		}
		c.oblige("no effect outside the results", short(f), at, len(bad) == 0, "%s", strings.Join(bad, "; "))
	}
}

func init() {
	addCheck(&Check{id: "C31", rule: "effect analysis over all call sites of the module: no output, logging, environment, network, process, goroutine, waiting, unsafe or math/rand use; the clock only in NewSignedData and NewSignedDataCallBack (signing time); files only in SM2P12Encrypt (write) and SM2P12Decrypt (read)", run: checkEffects})
}
