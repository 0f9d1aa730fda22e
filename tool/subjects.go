package main

import (
	"fmt"
	"os"
	"strings"
)

// A Subject is one SSZ codec as the factory builds it for a category of Go types: an abstract
// state right after construction together with the codec value.
type Subject struct {
	name   string
	kind   string // bool, uint8.., ptr, struct, bytesN, bitvector, basicvec, vec, bytes, bitlist, basiclist, list
	st     *State
	recv   Value
	typ    Opaque
	elem   Opaque // rtype of the element
	err    string
	build  []Event // what the construction did
	seqKey string  // containers: name, length and memory of the field list
	nf     *Poly
	seqReg int
}

type typeSpec struct {
	name, kind string
	prep       func(st *State, t Opaque)
}

func kindIs(st *State, t Opaque, k int64) { st.assume(Cond{rtKind(t).AddC(-k), '='}) }

func (e *Engine) metaRType(pkg, name string) (Opaque, bool) {
	for path, p := range e.pkgs {
		if strings.HasSuffix(path, "/"+pkg) {
			if m := p.Type(name); m != nil {
				return rtypeOf(m.Type()), true
			}
		}
	}
	return Opaque{}, false
}

func (e *Engine) typeSpecs() []typeSpec {
	var out []typeSpec
	T := func(name, kind string, prep func(st *State, t Opaque)) {
		out = append(out, typeSpec{name, kind, prep})
	}
	basics := []struct {
		n string
		k int64
	}{{"bool", kBool}, {"uint8", kU8}, {"uint16", kU16}, {"uint32", kU32}, {"uint64", kU64}}
	for _, b := range basics {
		b := b
		T(b.n, b.n, func(st *State, t Opaque) { kindIs(st, t, b.k) })
	}
	T("ptr", "ptr", func(st *State, t Opaque) { kindIs(st, t, kPtr) })
	T("struct", "struct", func(st *State, t Opaque) { kindIs(st, t, kStr) })
	meta := func(st *State, t Opaque, n string, v int64) {
		m, ok := e.metaRType("bitfields", n)
		if !ok {
			undecided("bitfields.%s not found", n)
		}
		st.assume(Cond{implAtom(rtPtr(t), m).AddC(-v), '='})
	}
	for _, c := range []struct {
		n, kind string
		arr     int64
		m       string
		v       int64
	}{{"[N]byte", "bytesN", kArr, "BitvectorMeta", 0}, {"bitvector", "bitvector", kArr, "BitvectorMeta", 1},
		{"[]byte", "bytes", kSl, "BitlistMeta", 0}, {"bitlist", "bitlist", kSl, "BitlistMeta", 1}} {
		c := c
		T(c.n, c.kind, func(st *State, t Opaque) {
			kindIs(st, t, c.arr)
			kindIs(st, rtElem(t), kU8)
			meta(st, t, c.m, c.v)
		})
	}
	for _, b := range basics {
		if b.k == kU8 {
			continue
		}
		b := b
		T("[N]"+b.n, "basicvec", func(st *State, t Opaque) { kindIs(st, t, kArr); kindIs(st, rtElem(t), b.k) })
		T("[]"+b.n, "basiclist", func(st *State, t Opaque) { kindIs(st, t, kSl); kindIs(st, rtElem(t), b.k) })
	}
	for _, c := range []struct {
		n, kind string
		k       int64
	}{{"[N]T", "vec", kArr}, {"[]T", "list", kSl}} {
		c := c
		T(c.n, c.kind, func(st *State, t Opaque) {
			kindIs(st, t, c.k)
			kindIs(st, rtElem(t), kStr) // any kind that is not basic; a struct stands for all
		})
	}
	return out
}

func (e *Engine) subjects(base *State) []*Subject {
	var out []*Subject
	fac := e.fnByName("types", "DefaultSSZFactory")
	for _, ts := range e.typeSpecs() {
		st := base.Clone()
		t := Opaque{kind: "rtype", key: "T"}
		ts.prep(st, t)
		if fac == nil {
			out = append(out, &Subject{name: ts.name, kind: ts.kind, err: "types.DefaultSSZFactory not found"})
			continue
		}
		outs := e.Call(st, fac, []Value{Opaque{kind: "fn", key: "factory"}, t}, nil)
		n := 0
		for _, o := range outs {
			if os.Getenv("ZSUB") == ts.name {
				fmt.Println("SUBOUT", o.kind, o.reason, o.res, e.fset.Position(o.pos), factsStr(o.st.facts, base.facts))
			}
			s := &Subject{name: ts.name, kind: ts.kind, st: o.st, typ: t, elem: rtElem(t)}
			if o.kind != "return" {
				s.err = o.kind + ": " + o.reason + " at " + e.fset.Position(o.pos).String()
				out = append(out, s)
				continue
			}
			if !isNilVal(o.res[1]) {
				continue
			}
			n++
			if n > 1 {
				s.name += fmt.Sprintf("#%d", n)
			}
			s.recv = o.res[0]
			for i := range s.st.regs {
				if c := s.st.regs[i].class; c == "fresh" || c == "heap" {
					s.st.wreg(i).class = "desc"
				}
			}
			for i := range s.st.regs {
				if q := s.st.regs[i].seq; q != nil {
					seqOwner[q.key] = t
				}
			}
			s.build = s.st.events
			s.st.events = nil
			s.findSeq()
			out = append(out, s.split(e)...)
		}
		if n == 0 {
			out = append(out, &Subject{name: ts.name, kind: ts.kind, err: "the factory never succeeds"})
		}
	}
	return out
}

// split makes the fixed-size and the variable-size case of a codec separate subjects.
func (s *Subject) split(e *Engine) (out []*Subject) {
	if s.kind != "struct" {
		return []*Subject{s}
	}
	defer func() {
		if x := recover(); x != nil {
			s.err = "IsFixed: " + haltStr(x)
			out = []*Subject{s}
		}
	}()
	b, ok := s.getter(s.st.Clone(), e, "IsFixed").(Bool)
	if !ok || s.st.entailsCond(b.c) || s.st.entailsCond(b.c.Not()) {
		return []*Subject{s}
	}
	for i, c := range []Cond{b.c, b.c.Not()} {
		n := *s
		n.st = s.st.Clone()
		n.st.assume(c)
		n.name += []string{"(fixed)", "(variable)"}[i]
		out = append(out, &n)
	}
	return out
}
