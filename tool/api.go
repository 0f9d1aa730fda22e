package main

// The package-level entry points, analysed with an element codec of which only the contract is known.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// apiSubject stands for the functions of package zssz applied to a codec for an arbitrary type T.
func (e *Engine) apiSubject(base *State) *Subject {
	t := Opaque{kind: "rtype", key: "T"}
	return &Subject{name: "zssz", kind: "api", st: base.Clone(), typ: t, elem: t, recv: sszOf(t)}
}

func (e *Engine) runAPI(s *Subject, m string) []*Outcome {
	name := m
	if m == "Fuzz" {
		name = "DecodeFuzzBytes"
	}
	fn := e.apiFn(name)
	if fn == nil {
		return []*Outcome{{kind: "undecided", st: s.st, reason: "function zssz." + name + " not found"}}
	}
	st := s.st.Clone()
	var args []Value
	n := 0
	for _, p := range fn.Params {
		t := p.Type()
		switch {
		case types.Identical(t, e.ioType("Reader")):
			args = append(args, Opaque{kind: "reader", key: streamR, t: t})
		case types.Identical(t, e.ioType("Writer")):
			args = append(args, Opaque{kind: "writer", key: "W", t: t})
		case basicKindOf(t) == types.Uint64:
			args = append(args, szAtom("M"))
			n++
		case basicKindOf(t) == types.String:
			args = append(args, Str{op: "indent"})
		default:
			if i, ok := t.Underlying().(*types.Interface); ok {
				if i.NumMethods() == 0 {
					val := st.newRegion("val", "user", rtSize(s.typ))
					val.rawName = "val"
					args = append(args, Iface{types.NewPointer(types.Typ[types.Int]), Ptr{r: val.id, off: polyZero}})
				} else if hasMethod(i, "FixedLen") {
					o := sszOf(s.typ)
					o.t = t
					args = append(args, o)
				} else {
					args = append(args, Opaque{kind: "hasher", key: "h", t: t})
				}
				continue
			}
			return []*Outcome{{kind: "undecided", st: st, reason: "parameter " + p.Name() + " of " + name + " not understood"}}
		}
	}
	if n > 1 {
		return []*Outcome{{kind: "undecided", st: st, reason: "several lengths in " + name}}
	}
	return e.Call(st, fn, args, nil)
}

func hasMethod(i *types.Interface, n string) bool {
	for k := 0; k < i.NumMethods(); k++ {
		if i.Method(k).Name() == n {
			return true
		}
	}
	return false
}

func basicKindOf(t types.Type) types.BasicKind {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Kind()
	}
	return types.Invalid
}

func (e *Engine) apiFn(name string) *ssa.Function { return e.fnByName("", name) }
