package main

// Sequences of records (the field list of a container): built by appends of data-dependent length,
// abstracted to a symbolic length and per-element facts that hold at every append.

import (
	"fmt"
	"go/types"
	"math/big"
)

// seqLoad reads a component of element j of a sequence.
func (st *State) seqLoad(q *Seq, off *Poly, t types.Type) Value {
	c := new(big.Int).Mod(off.ConstTerm(), big.NewInt(q.es)).Int64()
	j := exactQuot(off.AddC(-c), constP(q.es))
	if j == nil {
		undecided("sequence element at offset %s", off)
	}
	args := append(append([]*Poly{}, q.args...), j)
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return Opaque{kind: "ssz", key: q.key, args: args, t: t}
	case *types.Signature:
		if q.ptrOK {
			return Opaque{kind: "func", key: "fieldptr:" + q.key, args: args, t: t}
		}
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			if q.flagOK {
				return boolAtom(chAtom("IsFixed", Opaque{kind: "ssz", key: q.key, args: args}))
			}
			return boolAtom(bAtom(fmt.Sprintf("seqflag%d:%s", c, q.key), args...))
		case u.Info()&types.IsString != 0:
			parts := []Value{}
			for _, a := range args {
				parts = append(parts, a)
			}
			return Str{op: fmt.Sprintf("seqstr%d:%s", c, q.key), parts: parts, n: mkAtom(fmt.Sprintf("seqstrlen%d:%s", c, q.key), bigZero, sizeHi, args...)}
		case u.Info()&types.IsInteger != 0:
			if u.Kind() == types.Uintptr && c == q.offAt && q.ptrOK {
				return szAtom("FieldPtr:"+q.key, args...)
			}
			if bits, signed, ok := basicInfo(t); ok && !signed && bits == 64 {
				return szAtom(fmt.Sprintf("seqint%d:%s", c, q.key), args...)
			}
		}
	}
	undecided("sequence component of type %s", t)
	return nil
}

// SeqElem is one record appended to a sequence.
type SeqElem struct {
	ssz  Value
	off  *Poly // offset added by its accessor function, nil = not a constant
	flag Value // boolean component
	name Value
}

// seqRecord: does the element type look like a field record (struct with a codec component)?
func seqRecord(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if _, ok := s.Field(i).Type().Underlying().(*types.Interface); ok {
			return true
		}
	}
	return false
}

// offsetCell is the position of the memory offset in a record without an accessor function, -1 if it has none.
func offsetCell(t types.Type) int64 {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	at := int64(-1)
	offs := fieldOffsets(s)
	for i := 0; i < s.NumFields(); i++ {
		switch u := s.Field(i).Type().Underlying().(type) {
		case *types.Signature:
			return -1
		case *types.Basic:
			if u.Kind() == types.Uintptr {
				if at >= 0 {
					return -1
				}
				at = offs[i]
			}
		}
	}
	return at
}

// describe evaluates the components of a record at the append site.
func (st *State) describe(a Agg) SeqElem {
	var e SeqElem
	at := offsetCell(a.t)
	for _, c := range a.cells {
		switch u := c.t.Underlying().(type) {
		case *types.Interface:
			e.ssz = c.v
		case *types.Signature:
			e.off = st.accessorOff(c.v)
		case *types.Basic:
			if u.Info()&types.IsBoolean != 0 {
				e.flag = c.v
			}
			if p, ok := c.v.(*Poly); ok && c.off == at {
				e.off = p
			}
			if u.Info()&types.IsString != 0 && e.name == nil {
				e.name = c.v
			}
		}
	}
	return e
}

// accessorOff applies an accessor to an arbitrary pointer and returns the constant it adds.
func (st *State) accessorOff(f Value) *Poly {
	s := st.Clone()
	s.watch = nil
	g := s.newRegion("probe", "scratch", nil)
	p := Ptr{r: g.id, off: polyZero}
	var res Value
	switch x := f.(type) {
	case Opaque:
		res = s.opaqueCall(x, []Value{p})[0]
	case Closure:
		outs := st.eng.CallValue(s, x, []Value{p})
		if len(outs) != 1 || outs[0].kind != "return" || len(outs[0].res) != 1 {
			return nil
		}
		res = outs[0].res[0]
	default:
		return nil
	}
	r, ok := res.(Ptr)
	if !ok || r.r != g.id {
		return nil
	}
	return r.off
}

var seqJ = mkAtom("seqJ", bigZero, nil)

// elems lists the records held by a slice: each of them if there are few, else a generic one.
func (st *State) elems(src Slice, et types.Type) []Value {
	es := sizeof(et)
	if src.p.r < 0 {
		return nil
	}
	if c, ok := src.len.Int64(); ok && c <= 8 {
		var out []Value
		for i := int64(0); i < c; i++ {
			if a, ok := st.loadAt(src.p.r, src.p.off.AddC(i*es), et).(Agg); ok {
				out = append(out, st.describe(a))
			}
		}
		return out
	}
	s := st.Clone()
	s.assume(Cond{src.len.Sub(seqJ).AddC(-1), '+'})
	if a, ok := s.loadAt(src.p.r, src.p.off.Add(seqJ.MulC(es)), et).(Agg); ok {
		return []Value{s.describe(a)}
	}
	return nil
}

// flagIsFixed: the boolean component is the codec's own IsFixed.
func (e SeqElem) flagIsFixed() bool {
	if e.flag == nil {
		return true
	}
	b, ok := e.flag.(Bool)
	o, ok2 := e.ssz.(Opaque)
	if !ok || !ok2 {
		return false
	}
	w := boolAtom(chAtom("IsFixed", o))
	return valKey(b) == valKey(w)
}

// checkSeq verifies that the records appended on all paths of a loop keep the invariants of q.
func checkSeq(evs []Event, r int, q *Seq) (changed bool) {
	for _, ev := range evs {
		if ev.loop != nil {
			for _, p := range ev.loop.paths {
				changed = checkSeq(p.events, r, q) || changed
			}
		}
		if ev.kind != "append" || ev.ptr.r != r {
			continue
		}
		if len(ev.elems) == 0 {
			undecided("records appended to a sequence are not described")
		}
		for _, v := range ev.elems {
			e := v.(SeqElem)
			if q.flagOK && !e.flagIsFixed() {
				q.flagOK, changed = false, true
			}
			if q.ptrOK && e.off == nil {
				q.ptrOK, changed = false, true
			}
		}
	}
	return
}
