package main

import (
	"fmt"
	"go/types"
	"strings"
)

// C23, C24: what a successful decode leaves in the destination. C16: fuzz mode.

func init() {
	rules["C24"] = &rule{run: func(c *Ctx) { ruleDest(c, "place") }, both: true, min: 60, rule: "On every successful path of Decode the final memory of element i (arbitrary i) is the i-th part of the message: basic values equal the little-endian number at their position, element codecs are called exactly with the memory and the message position of their index, and slice headers hold the element count of the message."}
	rules["C23"] = &rule{run: func(c *Ctx) { ruleDest(c, "cover") }, both: true, min: 60, rule: "On every successful path of Decode, in normal and fuzz mode, the final slice length does not depend on the destination's earlier content, and every element (arbitrary index) is overwritten by the input or handed to its codec; nothing else writes the elements."}
	rules["C16"] = &rule{run: ruleFuzz, both: true, min: 80, rule: "With at least FuzzMinLen bytes no fuzz-mode path ends in an error that is not the reader's; element codecs are called in fuzz mode only; the values left in the destination are valid: lengths within limits, booleans 0 or 1, bitvector padding clear, bitlists delimited and within their limit."}
}

func places(evs []Event, at func(*Poly) *Poly) (out []place) {
	for i := range evs {
		ev := &evs[i]
		if ev.kind != "child" || ev.str != "Decode" || ev.ptr.off == nil {
			continue
		}
		r := ev.val.(Opaque)
		a := make([]*Poly, len(r.args))
		for k := range a {
			a[k] = at(r.args[k])
		}
		r.args = a
		fz, _ := ev.objs[3].(Bool)
		v, _ := fz.c.p.Const()
		out = append(out, place{ptr: Ptr{r: ev.ptr.r, off: at(ev.ptr.off)}, pos: at(ev.n), span: at(ev.m), elem: r, fuzz: v != nil && fz.c.String() == boolC(true).c.String()})
	}
	return
}

// forks evaluates f in the state, partitioned as its queries need; f must not record anything before
// its last query.
func (c *Ctx) forks(st *State, f func(st *State)) (err string) {
	queue := []*State{st.Clone()}
	for n := 0; len(queue) > 0; n++ {
		if n > 60 {
			return "too many cases"
		}
		s := queue[0]
		queue = queue[1:]
		var sp *Cond
		func() {
			defer func() {
				switch x := recover().(type) {
				case nil:
				case splitReq:
					sp = &x.c
				case haltReq:
					err = x.reason
				default:
					panic(x)
				}
			}()
			f(s.Clone())
		}()
		if sp != nil {
			for _, q := range []Cond{*sp, sp.Not()} {
				if s.facts.feasibleCond(q) {
					t := s.Clone()
					t.assume(q)
					queue = append(queue, t)
				}
			}
		}
	}
	return
}

// dest describes the destination after a decode.
type dest struct {
	reg  int
	off  *Poly
	n    *Poly // elements
	cap_ *Poly
}

func isSlice(k string) bool {
	return k == "bytes" || k == "bitlist" || k == "basiclist" || k == "list"
}

// finalDest reads the header of a slice, the pointer of a pointer.
func finalDest(s *Subject, st *State, en Entry) (d dest, ok bool) {
	up := types.Typ[types.UnsafePointer]
	switch {
	case isSlice(s.kind):
		p, ok1 := st.loadAt(en.p.r, en.p.off, up).(Ptr)
		l, ok2 := st.loadAt(en.p.r, en.p.off.AddC(8), intT).(*Poly)
		k, ok3 := st.loadAt(en.p.r, en.p.off.AddC(16), intT).(*Poly)
		if ok1 && ok2 && p.r < 0 {
			return dest{-1, polyZero, l, k}, st.proveEq(l, polyZero)
		}
		return dest{p.r, p.off, l, k}, ok1 && ok2 && ok3
	case s.kind == "ptr":
		p, ok := st.loadAt(en.p.r, en.p.off, up).(Ptr)
		if !ok || p.r < 0 {
			return d, false
		}
		return dest{p.r, p.off, polyOne, nil}, true
	}
	n := polyOne
	switch s.kind {
	case "bytesN", "basicvec", "vec":
		n = s.typLen()
	case "bitvector":
		n = rtSize(s.typ)
	case "struct":
		n = s.nf
	}
	return dest{en.p.r, en.p.off, n, nil}, true
}

// unitSize is the size of the integers a scheme stores itself; 0 for element codecs.
func (s *Subject) unitSize() int64 {
	if w, ok := basicSize[s.kind]; ok {
		return w
	}
	switch s.kind {
	case "bytesN", "bitvector", "bytes", "bitlist":
		return 1
	case "basicvec", "basiclist":
		return basicSize[s.elemName()]
	}
	return 0
}

func uintT(w int64) types.Type {
	return map[int64]types.Type{1: types.Typ[types.Uint8], 2: types.Typ[types.Uint16], 4: types.Typ[types.Uint32], 8: types.Typ[types.Uint64]}[w]
}

// past reports whether a term depends on what the destination held before.
func past(p *Poly) bool {
	return p.Mentions(func(a *Atom) bool {
		switch {
		case a.op == "len0", a.op == "cap0", a.op == "datanil", a.op == "ptrnil":
			return true
		}
		return strings.HasPrefix(a.op, "mem") && strings.Contains(a.op, ":")
	})
}

func ruleDest(c *Ctx, what string) {
	place := what == "place"
	c.each(func(s *Subject) {
		for _, m := range []string{"Decode", "Fuzz"} {
			if (place || c.decodeOnly) && m == "Fuzz" {
				continue
			}
			key := func(k string) string { return k + ":" + s.name + ":" + m }
			ret, _ := c.decided(s, m)
			n := 0
			for _, o := range ret {
				o := o
				if !c.okOutcome(o) {
					continue
				}
				n++
				err := c.forks(o.st, func(st *State) {
					d, ok := finalDest(s, st, o.en)
					if ok && s.unitSize() > 0 {
						c.destUnits(s, m, o, st, d, place, key)
						return
					}
					if !ok {
						c.ob(key("header"), false, o.pos, "%s of %s leaves an unknown slice header or pointer", m, s.name)
						return
					}
					c.destElems(s, m, o, st, d, place, key)
				})
				c.ob(key("final"), err == "", o.pos, "the memory left by %s of %s cannot be determined: %s", m, s.name, err)
			}
			c.ob(key("some"), n > 0, 0, "%s of %s never succeeds", m, s.name)
		}
	})
}

// destUnits: schemes that store numbers and bytes themselves.
func (c *Ctx) destUnits(s *Subject, m string, o *Outcome, st *State, d dest, place bool, key func(string) string) {
	w := s.unitSize()
	T := idxT
	cases := []*State{}
	for i, sp := range s.specs(o.started) {
		y := st.Clone()
		for _, q := range sp.def {
			y.assume(Cond{q.p, map[bool]byte{true: '=', false: '+'}[q.eq]})
		}
		_ = i
		cases = append(cases, y)
	}
	pos := szAtom("pos0")
	if o.started {
		pos = pos.Add(szAtom("I0"))
	}
	end := o.st.ghostGet("pos:" + streamR)
	for _, y := range cases {
		if isSlice(s.kind) {
			c.header(s, m, o, y.facts, d, end.Sub(pos), w, place, key)
		}
		if isSlice(s.kind) || s.kind == "bytesN" || s.kind == "bitvector" || s.kind == "basicvec" {
			if !y.facts.feasibleCond(Cond{d.n.AddC(-1), '+'}) {
				continue
			}
			y.assume(Cond{T, '+'})
			y.assume(Cond{d.n.Sub(T).AddC(-1), '+'})
		} else {
			T = polyZero
		}
		t := uintT(w)
		if s.kind == "bool" {
			t = types.Typ[types.Bool]
		}
		off := d.off.Add(T.MulC(w))
		in := pos.Add(T.MulC(w))
		err := c.forks(y, func(z *State) {
			v := z.loadAt(d.reg, off, t)
			if !place {
				p, _ := v.(*Poly)
				if b, ok := v.(Bool); ok {
					p = b.c.p
				}
				old := p == nil || past(p)
				if p != nil && !old {
					// a part the loops of the path leave alone
					p.Mentions(func(a *Atom) bool {
						old = old || strings.HasPrefix(a.op, "havoc") || strings.HasPrefix(a.op, "arr:")
						return false
					})
					if old && m == "Fuzz" {
						old = !c.overwritten(s, o, d, w)
					}
				}
				c.ob(key("element"), !old, o.pos, "after %s of %s, element %s is %s: not determined by the input", m, s.name, T, showVal(v))
				return
			}
			if b, ok := v.(Bool); ok {
				for q := int64(0); q < 2; q++ {
					f := z.facts.Clone()
					f.add(eq(in1(in).AddC(-q)))
					if f.feasibleWith(nil) {
						c.ob(key("element"), truth(f, b) == int(q), o.pos, "%s of %s stores %s for the input byte %d", m, s.name, showVal(v), q)
					}
				}
				return
			}
			p, ok := v.(*Poly)
			c.ob(key("element"), ok && eqF(z.facts, p, inAtom(CIn{streamR, in}, int(w), 'L')), o.pos, "after %s of %s, element %s is %s, not the number at position %s of the message", m, s.name, T, showVal(v), in)
		})
		c.ob(key("element"), err == "", o.pos, "the element left by %s of %s cannot be determined: %s", m, s.name, err)
	}
}

// header: the length of a slice.
func (c *Ctx) header(s *Subject, m string, o *Outcome, f *Facts, d dest, ext *Poly, w int64, place bool, key func(string) string) {
	if place {
		c.ob(key("length"), eqF(f, d.n.MulC(w), ext), o.pos, "after %s of %s the slice has %s elements of %d bytes, the message part %s bytes", m, s.name, d.n, w, ext)
		return
	}
	c.ob(key("length"), !past(d.n), o.pos, "after %s of %s the slice has %s elements: not determined by the input", m, s.name, d.n)
}

// overwritten: the region is written from the input before the loops of the path adjust it.
func (c *Ctx) overwritten(s *Subject, o *Outcome, d dest, w int64) bool {
	reg := o.st.reg(d.reg)
	for _, wr := range reg.writes {
		if wr.q == nil && len(wr.segs) == 1 {
			if _, ok := wr.segs[0].c.(CIn); ok && eqF(o.st.facts, wr.off, d.off) && eqF(o.st.facts, wr.size, d.n.MulC(w)) {
				return true
			}
		}
	}
	return false
}

func (s *Subject) destPtr(d dest, j *Poly) Ptr {
	if s.kind == "struct" {
		return Ptr{r: d.reg, off: d.off.Add(szAtom("FieldPtr:"+s.seqKey, s.field(j).args...))}
	}
	if s.kind == "ptr" {
		return Ptr{r: d.reg, off: d.off}
	}
	return Ptr{r: d.reg, off: d.off.Add(j.Mul(rtSize(s.elem)))}
}

// destElems: schemes with element codecs.
func (c *Ctx) destElems(s *Subject, m string, o *Outcome, st *State, d dest, isPlace bool, key func(string) string) {
	// element codecs only write element memory, and nothing else does after the first of them
	began := false
	bad := false
	walk(o.st.events, nil, func(ev *Event, in []*LoopPath) {
		switch {
		case ev.kind == "child" && ev.str == "Decode":
			began = true
			if ev.ptr.r != d.reg {
				bad = true
				c.ob(key("elsewhere"), false, ev.pos, "%s of %s decodes an element into memory that is not the destination's", m, s.name)
			}
		case ev.kind == "store" && began && ev.ptr.r == d.reg:
			bad = true
			c.ob(key("elsewhere"), false, ev.pos, "%s of %s writes element memory in %s", m, s.name, fnName(ev.fn))
		}
	})
	if !bad {
		c.ob(key("elsewhere"), true, 0, "")
	}
	c.regular(s, m, o, d, key)
	loops := readLoops(o)
	for i, sp := range s.specs(o.started) {
		x := &scene{f: st.facts.Clone(), free: map[int]bool{idxT.SingleAtom().id: true, idxN.SingleAtom().id: true}}
		for _, g := range sp.def {
			x.add(g)
		}
		if x.infeasible() {
			continue
		}
		end := o.st.ghostGet("pos:" + streamR).Sub(sp.pos)
		if m == "Decode" {
			if sp.fixed {
				x.add(eq(end.Sub(sp.ext)))
			} else {
				x.add(eq(end.Sub(sp.ext)))
			}
		}
		x.solve()
		if x.infeasible() {
			continue
		}
		if s.kind == "list" {
			if isPlace {
				want := polyZero
				switch {
				case s.elemFixed():
					want = mkDiv(szAtom("M"), chAtom("FixedLen", s.child()))
				case sp.ser != nil:
					want = sp.ser.n
				}
				c.ob(key("length"), s.eq(x.f, d.n, want), o.pos, "after %s of %s the slice has %s elements, the message %s", m, s.name, d.n, want)
			} else {
				c.ob(key("length"), !past(d.n), o.pos, "after %s of %s the slice has %s elements: not determined by the input", m, s.name, d.n)
			}
		}
		x.recs = append(x.recs, places(o.st.events, func(p *Poly) *Poly { return p })...)
		T := idxT
		if s.kind == "ptr" {
			T = polyZero
		}
		type cs struct {
			name  string
			guard []Con
			cl    *clause
			pos   *Poly
		}
		var css []cs
		rng := []Con{ge(T), ge(d.n.Sub(T).AddC(-1))}
		fl := func() *Poly {
			if s.kind == "struct" {
				return nil
			}
			return chAtom("FixedLen", s.child())
		}()
		switch {
		case s.kind == "ptr":
			css = append(css, cs{"element", nil, &clause{idx: polyZero, name: "fixed-fields"}, sp.pos})
		case s.kind != "struct" && s.elemFixed():
			css = append(css, cs{"element", rng, &clause{idx: T}, sp.pos.Add(T.Mul(fl))})
		case s.kind != "struct" && sp.ser == nil:
			// no elements
			css = append(css, cs{"element", rng, &clause{idx: T}, nil})
		case s.kind != "struct":
			css = append(css, cs{"element", rng, &clause{idx: T}, sp.pos.Add(in4(sp.pos.Add(sp.ser.offPos(T))))})
		default:
			at := s.norm(s.fieldSum(1, "FixedLen", T).Add(s.fieldSum(0, "1", T).MulC(4)))
			isF := chAtom("IsFixed", s.field(T))
			css = append(css, cs{"fixed-field", append(append([]Con{}, rng...), eq(isF.AddC(-1))), &clause{idx: T, name: "fixed-fields"}, sp.pos.Add(at)})
			if sp.ser != nil {
				css = append(css, cs{"variable-field", append(append([]Con{}, rng...), eq(isF)), &clause{idx: T, name: "elements"}, sp.pos.Add(in4(sp.pos.Add(sp.ser.offPos(T))))})
			}
		}
		for _, k := range css {
			y := x.clone()
			for _, g := range k.guard {
				y.add(g)
			}
			y.solve()
			items := sp.instances(loops, k.cl)
			dst := s.destPtr(d, T)
			elem := s.child()
			if s.kind == "struct" {
				elem = s.field(T)
			}
			if k.pos != nil {
				y.goal = append(y.goal, k.pos)
			}
			done := func(z *scene) bool {
				hit := 0
				for _, r := range z.recs {
					if !z.entails(eq(r.ptr.off.Sub(dst.off))) {
						continue
					}
					hit++
					if r.elem.key != elem.key || len(r.elem.args) != len(elem.args) {
						return false
					}
					for i := range elem.args {
						if !z.entails(eq(r.elem.args[i].Sub(elem.args[i]))) {
							return false
						}
					}
					if isPlace && (k.pos == nil || !z.entails(eq(r.pos.Sub(k.pos)))) {
						return false
					}
				}
				return hit > 0
			}
			ok := y.closeAll(items, done, 6)
			name := k.name
			if i > 0 {
				name += fmt.Sprintf("#%d", i)
			}
			if !ok && len(dbgClause) > 0 && strings.Contains(key(name), dbgClause) {
				dumpScene(o, k.cl, y, items)
				dbgLeaf = true
				z := y.clone()
				z.closeAll(items, done, 6)
				dbgLeaf = false
			}
			if isPlace {
				c.ob(key(name), ok, o.pos, "%s of %s: it is not established that element %s is decoded from its own part of the message into its own place", m, s.name, T)
			} else {
				c.ob(key(name), ok, o.pos, "%s of %s: it is not established that element %s of the destination is decoded", m, s.name, T)
			}
		}
	}
}

// regular: the iterations of a loop decode into the elements in order.
func (c *Ctx) regular(s *Subject, m string, o *Outcome, d dest, key func(string) string) {
	ok := true
	var check func(evs []Event, k *Poly)
	check = func(evs []Event, k *Poly) {
		for i := range evs {
			ev := &evs[i]
			if ev.kind == "loop" {
				for _, p := range ev.loop.paths {
					if k != nil && hasEvent(p.events, "child") != nil {
						ok = false
						c.ob(key("regular"), false, ev.pos, "%s of %s decodes elements in nested loops", m, s.name)
						continue
					}
					check(p.events, ev.loop.k)
				}
			}
			if ev.kind != "child" || ev.str != "Decode" {
				continue
			}
			if k == nil {
				continue
			}
			good := false
			for _, q := range []int64{0, 1, -1} {
				good = good || eqF(ev.facts, ev.ptr.off, s.destPtr(d, k.AddC(q)).off)
			}
			if !good {
				ok = false
				c.ob(key("regular"), false, ev.pos, "%s of %s decodes an element at offset %s in iteration %s, in %s", m, s.name, ev.ptr.off, k, fnName(ev.fn))
			}
		}
	}
	check(o.st.events, nil)
	if ok {
		c.ob(key("regular"), true, 0, "")
	}
}
