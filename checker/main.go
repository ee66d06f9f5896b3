package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"
)

func main() {
	debug.SetGCPercent(400)
	if len(os.Args) == 5 && os.Args[1] == "safety" {
		os.Exit(safetyMain(os.Args[2], os.Args[3], strings.Split(os.Args[4], ",")))
	}
	if len(os.Args) >= 2 && len(os.Args[1]) > 1 && os.Args[1] != "dump" {
		verif, repo := os.Getenv("MCHECK_VERIF"), os.Getenv("MCHECK_REPO")
		if verif == "" {
			verif = "/verif"
		}
		if repo == "" {
			repo = "/repo"
		}
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 2 {
			tier = os.Args[2]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		if f := os.Getenv("MCHECK_PROF"); f != "" {
			w, _ := os.Create(f)
			pprof.StartCPUProfile(w)
			time.AfterFunc(20*time.Second, func() { pprof.StopCPUProfile(); os.Exit(9) })
		}
		os.Exit(runCheck(os.Args[1], tier, verif, repo))
	}
	dumpMain()
}

func dumpMain() {
	if f := os.Getenv("MCHECK_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	os.Args = os.Args[1:]
	tmp, err := os.MkdirTemp("", "mcheck")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	defer os.RemoveAll(tmp)
	repo := os.Getenv("MCHECK_REPO")
	if repo == "" {
		repo = "/repo"
	}
	mf, err := writeModfile(repo, tmp)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	p, err := loadProgram(repo, mf, nil)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(abortError); ok {
				fmt.Println("ABORT", a.msg)
				return
			}
			panic(r)
		}
	}()
	e := newEngine(p)
	e.local = map[string]bool{modPath + "/sm3.New": true, modPath + "/sm3.Sum": true}
	e.initPackages("sm3", "sm2")
	if os.Args[1] == "pkcs12" || os.Args[1] == "x509" {
		e.initPackages("x509", "pkcs12")
	}
	if os.Args[1] == "pkcs12" && os.Getenv("NOHOOK") == "" {
		e.callHook = p12Hook(&Ctx{P: p}, e)
	}
	if os.Args[1] == "sm2" {
		e.useSM2Curve()
	}
	f := p.fn(os.Args[1], os.Args[2])
	if f == nil {
		fmt.Println("no fn")
		return
	}
	outs := e.runRoot(f)
	dump(e, outs)
}

func dump(e *Engine, outs []Outcome) {
	for i, o := range outs {
		fmt.Printf("== outcome %d panic=%v at %s\n", i, o.panic, posOf(e.P, o.at))
		if o.res != nil {
			fmt.Println("  res:", e.snap(o.st, o.res).str(14))
		}
		fs := o.st.sortedFacts()
		for _, f := range fs {
			if f.op == "isnil" && os.Getenv("V") == "" {
				continue
			}
			fmt.Println("   fact", o.st.facts[f], f.str(14))
		}
		for _, ev := range o.st.events() {
			fmt.Println("   event", ev.kind, ev.name, ev.args)
		}
	}
	for k, v := range e.unmod {
		fmt.Println("unmodelled", k, v)
	}
	for k, v := range e.imprec {
		fmt.Println("imprecise", k, v)
	}
	for k, o := range e.obls {
		if o.bad > 0 {
			fmt.Println("obligation", k, posOf(e.P, o.instr), o.detail)
		}
	}
	fmt.Println("terms", len(termTab), "steps", e.steps)
}
