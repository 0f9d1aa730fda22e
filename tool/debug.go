package main

import (
	"fmt"
	"strings"
	"time"
)

func debugMain(e *Engine, st *State, args []string) {
	e.installEarly()
	subs := e.subjects(st)
	subs = append(subs, e.apiSubject(st))
	e.installContracts()
	if len(args) > 0 && args[0] == "factory" {
		b := st.Clone()
		b.events = nil
		e.report(e.Call(b, e.fnByName("types", "DefaultSSZFactory"), []Value{Opaque{kind: "fn", key: "factory"}, Opaque{kind: "rtype", key: "T"}}, nil))
		return
	}
	if len(args) > 0 && args[0] == "cut" {
		t0 := time.Now()
		idx := args[1] == "ConstructProof"
		b := e.cutStart(st, idx)
		a := []Value{Opaque{kind: "hasher", key: "h"}, e.cut.count, e.cut.limit, Opaque{kind: "fn", key: "leaf"}}
		if idx {
			a = append(a, e.cut.index)
		}
		f := e.fnByName("merkle", args[1])
		delete(e.contracts, f)
		cnt := map[string]int{}
		for _, o := range e.Call(b, f, a, nil) {
			k := o.kind + " " + o.reason
			if o.kind == "return" {
				if r, ok := o.res[0].(Bytes); ok {
					h := e.cut.termOf(r)
					k += fmt.Sprint(" level ", hLevel(h))
					if h != nil {
						k += " " + h.op
					}
				}
			} else {
				k += " at " + e.fset.Position(o.pos).String()
			}
			cnt[k]++
		}
		for k, n := range cnt {
			fmt.Println(n, k)
		}
		for k, v := range e.cut.bad {
			fmt.Println("BAD", k, v)
		}
		fmt.Println(len(e.cut.combis), "combi sites", len(e.cut.leaves), "leaf sites", e.cut.loops, "loops", time.Since(t0), "lp", lpQueries, lpRuns)
		return
	}
	if len(args) > 0 && args[0] == "merkle" {
		for _, fn := range []string{"GetDepth", "Merkleize"} {
			b := st.Clone()
			b.events = nil
			a := []Value{Opaque{kind: "hasher", key: "h"}, szAtom("count"), szAtom("limit"), Opaque{kind: "fn", key: "leaf"}}
			if fn == "GetDepth" {
				a = a[1:2]
			}
			f := e.fnByName("merkle", fn)
			delete(e.contracts, f)
			e.report(e.Call(b, f, a, nil))
		}
		return
	}
	for _, s := range subs {
		if len(args) > 1 && args[1] == "build" && s.name == args[0] {
			printEvents(e, s.build, "  ")
			continue
		}
		if s.err != "" {
			fmt.Println("SUBJECT", s.name, s.err)
			continue
		}
		if len(args) > 0 && args[0] != "all" && args[0] != s.name && args[0] != s.kind {
			continue
		}
		for _, m := range []string{"FixedLen", "MinLen", "MaxLen", "FuzzMinLen", "FuzzMaxLen", "IsFixed", "SizeOf", "Encode", "HashTreeRoot", "SigningRoot", "Pretty", "DryCheck", "Decode", "Fuzz"} {
			if len(args) > 1 && args[1] != m || m == "SigningRoot" && s.kind != "struct" && s.kind != "api" {
				continue
			}
			t0 := time.Now()
			func() {
				defer func() {
					if x := recover(); x != nil {
						if h, ok := x.(haltReq); ok {
							fmt.Println(s.name, m, "HALT", h.reason)
							return
						}
						if h, ok := x.(splitReq); ok {
							fmt.Println(s.name, m, "SPLIT", h.c)
							return
						}
						panic(x)
					}
				}()
				outs := e.runMethod(s, m)
				cnt := map[string]int{}
				und := map[string]bool{}
				for _, o := range outs {
					k := o.kind
					if k == "return" && len(o.res) > 0 {
						if isNilVal(o.res[len(o.res)-1]) {
							k = "ok"
						}
					}
					cnt[k]++
					if o.kind != "return" {
						und[o.kind+": "+o.reason+" at "+strings.TrimPrefix(e.fset.Position(o.pos).String(), "/repo/")] = true
					}
				}
				fmt.Println(s.name, m, cnt, time.Since(t0).Round(time.Millisecond))
				for k := range und {
					fmt.Println("      ", k)
				}
				if len(args) > 1 {
					e.report(outs)
				}
			}()
		}
	}
}
