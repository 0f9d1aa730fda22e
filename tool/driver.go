package main

// Loading, base states and subjects.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func load(dir string) (*Engine, error) {
	env := []string{}
	for _, v := range os.Environ() {
		if strings.HasPrefix(v, "GOFLAGS=") || strings.HasPrefix(v, "GOPROXY=") || strings.HasPrefix(v, "GOARCH=") || strings.HasPrefix(v, "GOOS=") {
			continue
		}
		env = append(env, v)
	}
	env = append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "GOARCH=amd64", "GOOS=linux", "CGO_ENABLED=0")
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Tests: false, Env: env}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	mod := ""
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s", e)
		}
		if p.Module != nil {
			mod = p.Module.Path
		}
	}
	if mod == "" {
		return nil, fmt.Errorf("no module found in %s", dir)
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e := newEngine(prog, mod)
	for _, p := range spkgs {
		if p != nil {
			e.pkgs[p.Pkg.Path()] = p
		}
	}
	return e, nil
}

// base returns the state after package initialisation on a machine of the given byte order.
func (e *Engine) base(little bool) (*State, error) {
	e.maps, e.started = nil, false
	st := e.newState()
	v := int64(0)
	if little {
		v = 1
	}
	st.assume(Cond{hostLE.AddC(-v), '='})
	st.ghostSet("pos:"+streamR, szAtom("pos0"))
	st.ghostSet("wr:W", polyZero)
	// globals
	var names []string
	for p := range e.pkgs {
		names = append(names, p)
	}
	sort.Strings(names)
	for _, n := range names {
		var ms []string
		for m := range e.pkgs[n].Members {
			ms = append(ms, m)
		}
		sort.Strings(ms)
		for _, m := range ms {
			g, ok := e.pkgs[n].Members[m].(*ssa.Global)
			if !ok {
				continue
			}
			t := g.Type().(*types.Pointer).Elem()
			r := st.newRegion(g.String(), "fresh", constP(sizeof(t)))
			r.zero = true
			r.elem = t
			e.globals[g] = r.id
		}
	}
	done := map[string]bool{}
	var order []*ssa.Package
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if done[p.Path()] {
			return
		}
		done[p.Path()] = true
		for _, i := range p.Imports() {
			visit(i)
		}
		if sp := e.pkgs[p.Path()]; sp != nil {
			order = append(order, sp)
		}
	}
	for _, n := range names {
		visit(e.pkgs[n].Pkg)
	}
	n0 := len(st.regs)
	_ = n0
	for _, p := range order {
		fn := p.Func("init")
		if fn == nil || fn.Blocks == nil {
			continue
		}
		outs := e.Call(st, fn, nil, nil)
		var ok *Outcome
		for _, o := range outs {
			if o.kind != "return" || ok != nil {
				return nil, fmt.Errorf("initialisation of %s: %s %s", p.Pkg.Path(), o.kind, o.reason)
			}
			ok = o
		}
		if ok == nil {
			return nil, fmt.Errorf("initialisation of %s has no outcome", p.Pkg.Path())
		}
		st = ok.st
	}
	st.events = nil
	for i := range st.regs {
		r := st.wreg(i)
		if r.class == "fresh" || r.class == "heap" {
			r.class = "global"
		}
	}
	e.started = true
	return st, nil
}

func (e *Engine) report(outs []*Outcome) {
	for i, o := range outs {
		fmt.Printf("--- outcome %d: %s %s at %s\n", i, o.kind, o.reason, e.fset.Position(o.pos))
		for _, r := range o.res {
			fmt.Printf("    result %s\n", showVal(r))
		}
		if o.st != nil {
			fmt.Printf("    facts %s\n", factsStr(o.st.facts, newFacts()))
			printEvents(e, o.st.events, "    ")
		}
	}
}

func printEvents(e *Engine, evs []Event, ind string) {
	for _, ev := range evs {
		s := ev.kind
		if ev.str != "" {
			s += " " + ev.str
		}
		if ev.n != nil {
			s += " n=" + ev.n.String()
		}
		if ev.m != nil {
			s += " m=" + ev.m.String()
		}
		if ev.ptr.off != nil {
			s += " ptr=" + showVal(ev.ptr)
		}
		if ev.segs != nil {
			s += " segs=" + segsKey(ev.segs)
		}
		if ev.val != nil {
			s += " val=" + showVal(ev.val)
		}
		for _, x := range ev.elems {
			el := x.(SeqElem)
			s += fmt.Sprintf(" {%s +%v %s}", showVal(el.ssz), el.off, showVal(el.name))
		}
		fmt.Printf("%s%s  @%s\n", ind, s, e.fset.Position(ev.pos))
		if ev.loop != nil {
			for _, p := range ev.loop.paths {
				fmt.Printf("%s  path k=%s facts %s\n", ind, ev.loop.k, factsStr(p.facts, ev.facts))
				if p.leaf != nil {
					fmt.Printf("%s    leaf [%s] %s\n", ind, p.next["len"], segsKey(p.leaf))
				}
				if p.bad != "" {
					fmt.Printf("%s    bad %s\n", ind, p.bad)
				}
				printEvents(e, p.events, ind+"    ")
			}
		}
	}
}

func (e *Engine) ioType(name string) types.Type {
	p := e.prog.ImportedPackage("io")
	if p == nil || p.Type(name) == nil {
		undecided("io.%s not available", name)
	}
	return p.Type(name).Type()
}

func (e *Engine) sszType() types.Type {
	for path, p := range e.pkgs {
		if strings.HasSuffix(path, "/types") {
			if m := p.Type("SSZ"); m != nil {
				return m.Type()
			}
		}
	}
	return nil
}
