package main

import (
	"math/big"
	"strings"
)

// runMethod analyses one method of a codec from its most general entry state.
func (e *Engine) runMethod(s *Subject, m string) []*Outcome {
	if s.kind == "api" {
		return e.runAPI(s, m)
	}
	st := s.st.Clone()
	var en Entry
	switch m {
	case "FixedLen", "MinLen", "MaxLen", "FuzzMinLen", "FuzzMaxLen", "IsFixed":
		return s.call(st, e, m)
	case "SizeOf":
		s.mem(st, &en)
		return s.call(st, e, m, en.p)
	case "Encode":
		s.mem(st, &en)
		nw := e.fnByName("enc", "NewEncodingWriter")
		w := st.inline(nw, Opaque{kind: "writer", key: "W", t: e.ioType("Writer")})
		return s.call(st, e, m, w[0], en.p)
	case "Pretty":
		s.mem(st, &en)
		nw := e.fnByName("pretty", "NewPrettyWriter")
		if nw == nil {
			undecided("pretty.NewPrettyWriter not found")
		}
		w := st.inline(nw, Opaque{kind: "writer", key: "print", t: e.ioType("Writer")}, Str{op: "indent"})
		return s.call(st, e, m, mkAtom("indent", bigZero, big.NewInt(1<<32-1)), w[0], en.p)
	case "HashTreeRoot", "SigningRoot":
		s.mem(st, &en)
		return s.call(st, e, m, Opaque{kind: "hasher", key: "h"}, en.p)
	}
	// a fixed-size codec may also be called when part of the scope has been read
	b, ok := s.getter(st, e, "IsFixed").(Bool)
	if !ok {
		undecided("IsFixed")
	}
	s.mem(st, &en)
	var outs []*Outcome
	for _, started := range []bool{false, true} {
		st := st.Clone()
		en := en
		if started {
			if !st.facts.feasibleCond(b.c) {
				continue
			}
			st.assume(b.c)
		}
		st = e.reader(st, started, m == "Fuzz", &en)
		var os []*Outcome
		if m == "DryCheck" {
			os = s.call(st, e, m, en.dr)
		} else {
			os = s.call(st, e, "Decode", en.dr, en.p)
		}
		for _, o := range os {
			o.started = started
			o.dr, o.en = en.dr, en
		}
		outs = append(outs, os...)
	}
	return outs
}

// installEarly: contracts in force during construction too.
func (e *Engine) installEarly() {
	if fn := e.fnByName("tags", "HasFlag"); fn != nil {
		e.contracts[fn] = func(st *State, args []Value) []Value {
			p, ok := args[0].(Ptr)
			sf := e.reflectType("StructField")
			if !ok || sf == nil || len(args) != 3 {
				undecided("HasFlag arguments")
			}
			a, ok := st.load(p, sf).(Agg)
			if !ok {
				undecided("HasFlag on unknown field")
			}
			for _, c := range a.cells {
				if tg, ok := c.v.(Str); ok && strings.HasPrefix(tg.op, "fieldTag:") {
					var ps []*Poly
					for _, x := range tg.parts {
						ps = append(ps, x.(*Poly))
					}
					ns, ok1 := args[1].(Str)
					fl, ok2 := args[2].(Str)
					if !ok1 || !ok2 || !ns.isC || !fl.isC {
						undecided("HasFlag with unknown flag")
					}
					return []Value{boolAtom(bAtom("HasFlag:"+ns.s+":"+fl.s+":"+strings.TrimPrefix(tg.op, "fieldTag:"), ps...))}
				}
			}
			undecided("HasFlag on unknown field")
			return nil
		}
	}
}

func (e *Engine) installContracts() {
	if fn := e.fnByName("merkle", "Merkleize"); fn != nil {
		e.contracts[fn] = func(st *State, args []Value) []Value {
			h := &HTerm{op: "merkle", n: []*Poly{args[1].(*Poly), args[2].(*Poly)}, leaf: args[3], fn: args[0]}
			if c, ok := args[3].(Closure); ok {
				h.key = valKey(c)
			}
			ev := Event{kind: "merkle", n: args[1].(*Poly), m: args[2].(*Poly), val: args[3], val2: args[0], objs: []Value{blob(h)}}
			ev.loop = st.leaves(args[3], ev.n)
			st.event(ev)
			return []Value{blob(h)}
		}
	}
}

// leaves evaluates a leaf closure at an arbitrary index below count.
func (st *State) leaves(f Value, count *Poly) *LoopEv {
	if _, ok := f.(Closure); !ok {
		undecided("leaf function %s", showVal(f))
	}
	id := st.fresh("leaf")
	i := mkAtom("k:"+id, bigZero, maxU64)
	lev := &LoopEv{id: id, k: i, vars: map[string]*Poly{}, fn: "leaf", entry: st.seq}
	c := st.Clone()
	if !c.facts.feasibleCond(Cond{count.Sub(i).AddC(-1), '+'}) {
		return lev
	}
	c.assume(Cond{count.Sub(i).AddC(-1), '+'})
	n0 := len(c.events)
	c.watch = nil
	for _, o := range st.eng.CallValue(c, f, []Value{i}) {
		switch o.kind {
		case "return":
			s, ok := o.res[0].(Slice)
			if !ok {
				undecided("leaf function result %s", showVal(o.res[0]))
			}
			p := &LoopPath{facts: o.st.snapFacts(), events: o.st.events[n0:], next: map[string]*Poly{"len": s.len}}
			p.leaf = o.st.sliceContent(s)
			lev.paths = append(lev.paths, p)
		case "panic":
			lev.paths = append(lev.paths, &LoopPath{facts: o.st.snapFacts(), events: o.st.events[n0:], bad: o.reason, next: map[string]*Poly{}})
		default:
			halt(o.kind, "leaf function: %s", o.reason)
		}
	}
	return lev
}
