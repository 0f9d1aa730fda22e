package main

import (
	"go/types"
)

// Entry is a prepared state for analysing one codec method.
type Entry struct {
	st   *State
	dr   Value
	p    Ptr
	data int // region holding the elements
	idx  *Poly
	max  *Poly
	pos  *Poly
	l, c *Poly // slice length and capacity
}

func (s *Subject) call(st *State, e *Engine, name string, args ...Value) []*Outcome {
	r, ok := s.recv.(Iface)
	if !ok || r.t == nil {
		return []*Outcome{{kind: "undecided", st: st, reason: "codec is not a concrete value"}}
	}
	fn := e.prog.LookupMethod(r.t, nil, name)
	if fn == nil {
		return []*Outcome{{kind: "undecided", st: st, reason: "codec has no method " + name}}
	}
	return e.Call(st, fn, append([]Value{r.v}, args...), nil)
}

// getter evaluates a codec method without arguments that must have one outcome.
func (s *Subject) getter(st *State, e *Engine, name string) Value {
	outs := s.call(st, e, name)
	if len(outs) != 1 || outs[0].kind != "return" {
		undecided("%s of %s has no unique result", name, s.name)
	}
	return outs[0].res[0]
}

// the memory of a Go value of the subject's type
func (s *Subject) mem(st *State, en *Entry) {
	val := st.newRegion("val", "user", rtSize(s.typ))
	val.rawName = "val"
	en.p = Ptr{r: val.id, off: polyZero}
	en.data = val.id
	up := types.Typ[types.UnsafePointer]
	in := types.Typ[types.Int]
	switch s.kind {
	case "bytes", "bitlist", "basiclist", "list":
		en.l, en.c = mkAtom("len0", bigZero, sizeHi), mkAtom("cap0", bigZero, sizeHi)
		st.assume(Cond{en.c.Sub(en.l), '+'})
		d := st.newRegion("data", "user", en.c.Mul(rtSize(s.elem)))
		d.rawName = "data"
		en.data = d.id
		nilAt := bAtom("datanil")
		// a slice without memory has no capacity
		st.assume(Cond{constB(sizeHi).Sub(nilAt.MulB(sizeHi)).Sub(en.c), '+'})
		st.putWrite(val.id, &Write{off: polyZero, size: constP(8), val: Ptr{r: d.id, off: polyZero, nilAt: nilAt}, t: up})
		st.putWrite(val.id, &Write{off: constP(8), size: constP(8), val: en.l, t: in})
		st.putWrite(val.id, &Write{off: constP(16), size: constP(8), val: en.c, t: in})
	case "ptr":
		d := st.newRegion("pointee", "user", rtSize(s.elem))
		d.rawName = "pointee"
		en.data = d.id
		st.putWrite(val.id, &Write{off: polyZero, size: constP(8), val: Ptr{r: d.id, off: polyZero, nilAt: bAtom("ptrnil")}, t: up})
	}
}

// reader prepares a decoding reader as the codec's caller may pass it: a scope of M bytes of
// which, if started, some have been read already.
func (e *Engine) reader(st *State, started, fuzz bool, en *Entry) *State {
	nw := e.fnByName("dec", "NewDecodingReader")
	sc := e.method("dec", "DecodingReader", "Scope")
	rd := e.method("dec", "DecodingReader", "Read")
	if nw == nil || sc == nil || rd == nil {
		undecided("DecodingReader constructors not found")
	}
	r := st.inline(nw, Opaque{kind: "reader", key: streamR, t: e.ioType("Reader")})
	M := szAtom("M")
	outs := e.Call(st, sc, []Value{r[0], M}, nil)
	var s *State
	var dr Value
	for _, o := range outs {
		if o.kind == "return" && isNilVal(o.res[1]) {
			if s != nil {
				undecided("Scope has several successful outcomes")
			}
			s, dr = o.st, o.res[0]
		} else if o.kind != "return" {
			undecided("Scope: %s", o.reason)
		}
	}
	if s == nil {
		undecided("Scope never succeeds")
	}
	if fuzz {
		fz := e.method("dec", "DecodingReader", "EnableFuzzMode")
		if fz == nil {
			undecided("EnableFuzzMode not found")
		}
		s.inline(fz, dr)
	}
	if started {
		I := szAtom("I0")
		s.assume(Cond{I.AddC(-1), '+'})
		s.assume(Cond{M.Sub(I), '+'})
		g := s.newRegion("prefix", "scratch", I)
		outs := e.Call(s, rd, []Value{dr, Slice{Ptr{r: g.id, off: polyZero}, I, I}}, nil)
		var s2 *State
		for _, o := range outs {
			if o.kind == "return" && isNilVal(o.res[1]) {
				if s2 != nil {
					undecided("Read has several successful outcomes")
				}
				s2 = o.st
			} else if o.kind != "return" {
				undecided("Read: %s", o.reason)
			}
		}
		s = s2
	}
	s.events = nil
	en.dr = dr
	en.idx = s.dr("Index", dr).(*Poly)
	en.max = s.dr("Max", dr).(*Poly)
	en.pos = s.ghostGet("pos:" + streamR)
	return s
}
