package main

import (
	"fmt"
	"strings"
)

// C05: the encoder's output is the SSZ layout. C04: sizes and counts.

func init() {
	rules["C05"] = &rule{run: ruleLayout, both: true, min: 100, rule: "At every write of every Encode path, each piece of the data written equals the piece that the SSZ layout of the kind has at that stream position (the position is the number of bytes written before); a path that ends in success has written exactly the layout's length."}
	rules["C04"] = &rule{run: ruleSizes, both: true, min: 100, rule: "The polynomial returned by SizeOf equals the number of bytes written on every successful Encode path and the length of the kind's SSZ layout; on every path, failing ones included, the encoder's count equals the bytes handed to the writer."}
}

// part is a family of pieces of an encoding: one for every i below count that satisfies guard.
type part struct {
	name  string
	count *Poly
	guard func(i *Poly) []Cond
	pos   func(i *Poly) *Poly
	size  func(i *Poly) *Poly
	// content of piece i
	kind string // raw int child offset
	ptr  func(i *Poly) Ptr
	w    int64 // width of integers
	val  func(i *Poly) *Poly
	ssz  func(i *Poly) Opaque
}

// layout is the SSZ encoding of a value in memory.
type layout struct {
	parts []*part
	total *Poly
}

// elemPtr: element i of a series.
func (s *Subject) elemPtr(en *Entry, i *Poly) Ptr {
	return Ptr{r: en.data, off: i.Mul(rtSize(s.elem))}
}

// count is the number of elements of a series.
func (s *Subject) count(en *Entry) *Poly {
	if en.l != nil {
		return en.l
	}
	return s.typLen()
}

func (s *Subject) fieldPtr(en *Entry, j *Poly) Ptr {
	return Ptr{r: en.p.r, off: en.p.off.Add(szAtom("FieldPtr:"+s.seqKey, s.field(j).args...))}
}

func (s *Subject) fieldSize(en *Entry, j *Poly) *Poly {
	return sizeOfAtom(s.field(j), s.fieldPtr(en, j))
}

// fieldSizes is the sum of the sizes of fields j < upper that are fixed-size (1), variable-size (0).
func (s *Subject) fieldSizes(en *Entry, fixed int64, upper *Poly) *Poly {
	return mkSumRaw([]Guard{{chAtom("IsFixed", s.field(kapAtom)), fixed}}, s.fieldSize(en, kapAtom), upper)
}

func (s *Subject) layout(en *Entry) *layout {
	one := func(*Poly) []Cond { return nil }
	at := func(p *Poly) func(*Poly) *Poly { return func(*Poly) *Poly { return p } }
	if n, ok := basicSize[s.kind]; ok {
		return &layout{[]*part{{name: "value", count: polyOne, guard: one, pos: at(polyZero), size: at(constP(n)), kind: "int", w: n, ptr: func(*Poly) Ptr { return en.p }}}, constP(n)}
	}
	switch s.kind {
	case "bytesN", "bitvector", "bytes", "bitlist":
		n := s.count(en)
		return &layout{[]*part{{name: "bytes", count: polyOne, guard: one, pos: at(polyZero), size: at(n), kind: "raw", w: 1, ptr: func(*Poly) Ptr { return Ptr{r: en.data, off: polyZero} }}}, n}
	case "basicvec", "basiclist":
		w := basicSize[s.elemName()]
		n := s.count(en)
		l := &layout{total: n.MulC(w)}
		l.parts = append(l.parts, &part{name: "element", count: n, guard: one, pos: func(i *Poly) *Poly { return i.MulC(w) }, size: at(constP(w)), kind: "int", w: w,
			ptr: func(i *Poly) Ptr { return Ptr{r: en.data, off: i.MulC(w)} }})
		l.parts = append(l.parts, &part{name: "elements", count: polyOne, guard: one, pos: at(polyZero), size: at(l.total), kind: "raw", w: w, ptr: func(i *Poly) Ptr { return Ptr{r: en.data, off: polyZero} }})
		return l
	case "ptr":
		e := s.child()
		p := Ptr{r: en.data, off: polyZero}
		n := sizeOfAtom(e, p)
		return &layout{[]*part{{name: "content", count: polyOne, guard: one, pos: at(polyZero), size: at(n), kind: "child", ssz: func(*Poly) Opaque { return e }, ptr: func(*Poly) Ptr { return p }}}, n}
	case "vec", "list":
		e := s.child()
		n := s.count(en)
		sz := func(i *Poly) *Poly { return sizeOfAtom(e, s.elemPtr(en, i)) }
		sum := func(u *Poly) *Poly { return mkSumRaw(nil, sz(kapAtom), u) }
		pre := n.MulC(4)
		l := &layout{}
		if s.elemFixed() {
			pre = polyZero
		} else {
			l.parts = append(l.parts, &part{name: "offset", count: n, guard: one, pos: func(i *Poly) *Poly { return i.MulC(4) }, size: at(constP(4)), kind: "offset", w: 4,
				val: func(i *Poly) *Poly { return pre.Add(sum(i)) }})
		}
		l.parts = append(l.parts, &part{name: "element", count: n, guard: one, pos: func(i *Poly) *Poly { return pre.Add(sum(i)) }, size: sz, kind: "child", ssz: func(*Poly) Opaque { return e }, ptr: func(i *Poly) Ptr { return s.elemPtr(en, i) }})
		l.total = pre.Add(sum(n))
		return l
	case "struct":
		if s.nf == nil {
			return nil
		}
		is := func(v int64) func(i *Poly) []Cond {
			return func(i *Poly) []Cond { return []Cond{{chAtom("IsFixed", s.field(i)).AddC(-v), '='}} }
		}
		head := func(u *Poly) *Poly { return s.fieldSizes(en, 1, u).Add(s.fieldSum(0, "1", u).MulC(4)) }
		start := head(s.nf)
		tail := func(u *Poly) *Poly { return start.Add(s.fieldSizes(en, 0, u)) }
		ssz := func(i *Poly) Opaque { return s.field(i) }
		ptr := func(i *Poly) Ptr { return s.fieldPtr(en, i) }
		size := func(i *Poly) *Poly { return s.fieldSize(en, i) }
		if s.allFixed() {
			all := func(u *Poly) *Poly { return mkSumRaw(nil, size(kapAtom), u) }
			return &layout{[]*part{{name: "field", count: s.nf, guard: one, pos: all, size: size, kind: "child", ssz: ssz, ptr: ptr}}, all(s.nf)}
		}
		l := &layout{total: tail(s.nf)}
		l.parts = append(l.parts,
			&part{name: "fixed-size field", count: s.nf, guard: is(1), pos: head, size: size, kind: "child", ssz: ssz, ptr: ptr},
			&part{name: "offset", count: s.nf, guard: is(0), pos: head, size: at(constP(4)), kind: "offset", w: 4, val: tail},
			&part{name: "variable-size field", count: s.nf, guard: is(0), pos: tail, size: size, kind: "child", ssz: ssz, ptr: ptr})
		return l
	}
	return nil
}

// eqF: do the facts make a and b equal?
func eqF(f *Facts, a, b *Poly) bool {
	return a.Eq(b) || f.entails(Con{a.Sub(b), true})
}

// indices: the index expressions that may identify a piece at a position.
func indices(in []*LoopPath, loops []*Poly, q *Poly) []*Poly {
	out := []*Poly{polyZero}
	for _, k := range loops {
		out = append(out, k, k.AddC(1), k.AddC(-1))
	}
	seen := map[int]bool{}
	q.Mentions(func(a *Atom) bool {
		if strings.HasPrefix(a.op, "k:") && !seen[a.id] {
			seen[a.id] = true
			out = append(out, atomP(a))
		}
		return false
	})
	return out
}

// matchPiece checks that a piece of written data is what the layout has at position q; it
// returns the part that matches, or "".
func (c *Ctx) matchPiece(s *Subject, f *Facts, l *layout, seg Seg, q *Poly, idx []*Poly) string {
	for _, p := range l.parts {
		if p.kind == "raw" && p.w > 1 && !c.w.little {
			continue
		}
		for _, i := range idx {
			if p.kind == "raw" {
				x := p.ptr(i)
				base := q.Sub(p.pos(i))
				if !f.entails(Con{base, false}) || !f.entails(Con{p.pos(i).Add(p.size(i)).Sub(q).Sub(seg.n), false}) {
					continue
				}
				switch k := seg.c.(type) {
				case CRaw:
					if k.r == x.r && eqF(f, k.off, x.off.Add(base)) {
						return p.name
					}
				case CInt:
					if k.n == 1 && eqF(f, seg.n, polyOne) && eqF(f, k.v, c.memOf(x.r, x.off.Add(base), 1)) {
						return p.name
					}
				}
				continue
			}
			if !s.eq(f, seg.n, p.size(i)) || !s.eq(f, q, p.pos(i)) {
				continue
			}
			in := f.entails(Con{p.count.Sub(i).AddC(-1), false}) && f.entails(Con{i, false})
			for _, g := range p.guard(i) {
				in = in && f.entailsCond(g)
			}
			if !in {
				continue
			}
			switch p.kind {
			case "int":
				x := p.ptr(i)
				if c.isMemInt(f, seg, x, p.w) {
					return p.name
				}
			case "offset":
				if k, ok := seg.c.(CInt); ok && int64(k.n) == p.w && k.from == 0 && k.order == 'L' && s.eq(f, k.v, p.val(i)) {
					return p.name
				}
			case "child":
				if k, ok := seg.c.(CBlob); ok && k.from.isZero() && sameTerm(f, k.h, encTerm(p.ssz(i), p.ptr(i))) {
					return p.name
				}
			}
		}
	}
	return ""
}

func (c *Ctx) memOf(r int, off *Poly, w int64) *Poly {
	return memAtom(c.memReg(r), off, w)
}

// isMemInt: is the segment the little-endian form of the w-byte integer stored at x?
func (c *Ctx) isMemInt(f *Facts, seg Seg, x Ptr, w int64) bool {
	switch k := seg.c.(type) {
	case CInt:
		return int64(k.n) == w && k.from == 0 && (k.order == 'L' || w == 1) && eqF(f, k.v, c.memOf(x.r, x.off, w))
	case CRaw:
		return (w == 1 || c.w.little) && k.r == x.r && eqF(f, k.off, x.off)
	}
	return false
}

func sameTerm(f *Facts, a, b *HTerm) bool {
	if a == nil || b == nil || a.op != b.op || a.key != b.key || len(a.n) != len(b.n) {
		return false
	}
	for i := range a.n {
		if !eqF(f, a.n[i], b.n[i]) {
			return false
		}
	}
	return true
}

// memReg gives the region with a number as it was at entry.
func (c *Ctx) memReg(r int) *Region { return c.entrySt.reg(r) }

// entry recreates the memory a codec method is analysed with.
func (c *Ctx) entry(s *Subject) *Entry {
	en := &Entry{st: s.st.Clone()}
	s.mem(en.st, en)
	c.entrySt = en.st
	return en
}

// loopsOf collects the loop index atoms around an event.
func loopIdx(evs []Event, target *Event) []*Poly {
	var find func(evs []Event, ks []*Poly) []*Poly
	find = func(evs []Event, ks []*Poly) []*Poly {
		for i := range evs {
			if &evs[i] == target {
				return append(ks[:len(ks):len(ks)], polyOne)
			}
			if evs[i].loop != nil {
				for _, p := range evs[i].loop.paths {
					if r := find(p.events, append(ks[:len(ks):len(ks)], evs[i].loop.k)); r != nil {
						return r
					}
				}
			}
		}
		return nil
	}
	return find(evs, nil)
}

func ruleLayout(c *Ctx) {
	c.each(func(s *Subject) {
		en := c.entry(s)
		l := s.layout(en)
		if l == nil {
			c.ob("layout:"+s.name, false, 0, "no layout known for %s", s.name)
			return
		}
		ret, all := c.decided(s, "Encode")
		if !all {
			return
		}
		found := map[string]bool{}
		done := map[string]bool{}
		for _, o := range ret {
			walk(o.st.events, nil, func(ev *Event, in []*LoopPath) {
				if ev.kind != "write" || done[evKey(ev)] {
					return
				}
				done[evKey(ev)] = true
				q := ev.m
				for _, seg := range ev.segs {
					idx := indices(in, loopIdx(o.st.events, ev), q)
					name := c.matchPiece(s, ev.facts, l, seg, q, idx)
					if name == "" && ev.facts.feasibleWith(nil) && !ev.facts.entails(Con{seg.n, true}) {
						c.ob("piece:"+s.name+":"+fnName(ev.fn), false, ev.pos, "Encode of %s writes %s at position %s, which is not what SSZ has there", s.name, segsKey([]Seg{seg}), q)
					}
					found[name] = true
					q = q.Add(seg.n)
				}
			})
			if c.okOutcome(o) {
				wr := o.st.ghostGet("wr:W")
				c.ob("total:"+s.name, s.eq(o.st.facts, wr, l.total), c.mpos(s, "Encode"), "Encode of %s succeeds with %s bytes written, the encoding has %s", s.name, wr, l.total)
			} else if o.kind == "return" {
				c.ob("fails:"+s.name, hasEvent(o.st.events, "wrerr") != nil, o.pos, "Encode of %s fails although no write failed", s.name)
			}
		}
		for _, p := range l.parts {
			if s.elemName() != "" && len(l.parts) == 2 {
				c.ob("covered:"+s.name, found["element"] || found["elements"], c.mpos(s, "Encode"), "no write of the elements found in Encode of %s", s.name)
				continue
			}
			c.ob("covered:"+s.name+":"+p.name, found[p.name], c.mpos(s, "Encode"), "no write of the %s found in Encode of %s", p.name, s.name)
		}
		c.ob("pieces:"+s.name, true, 0, "")
	})
}

func ruleSizes(c *Ctx) {
	c.eachAll(func(s *Subject) {
		if s.kind == "api" {
			c.apiSizes(s)
			return
		}
		en := c.entry(s)
		l := s.layout(en)
		if l == nil {
			c.ob("layout:"+s.name, false, 0, "no layout known for %s", s.name)
			return
		}
		if ret, all := c.decided(s, "SizeOf"); all {
			for _, o := range ret {
				if o.kind != "return" {
					c.ob("sizeof:"+s.name, false, o.pos, "SizeOf of %s: %s", s.name, o.reason)
					continue
				}
				p, ok := o.res[0].(*Poly)
				c.ob("sizeof:"+s.name, ok && s.eq(o.st.facts, p, l.total), c.mpos(s, "SizeOf"), "SizeOf of %s is %s, its encoding has %s bytes", s.name, showVal(o.res[0]), l.total)
			}
		}
		ret, all := c.decided(s, "Encode")
		if !all {
			return
		}
		nw, wn := c.w.e.fnByName("enc", "NewEncodingWriter"), c.w.e.method("enc", "EncodingWriter", "Written")
		if nw == nil || wn == nil {
			c.ob("count:"+s.name, false, 0, "EncodingWriter not found")
			return
		}
		w := en.st.inline(nw, Opaque{kind: "writer", key: "W", t: c.w.e.ioType("Writer")})
		for _, o := range ret {
			if o.kind != "return" {
				continue
			}
			st := o.st.Clone()
			cnt, ok := st.inline(wn, w[0])[0].(*Poly)
			wr := st.ghostGet("wr:W")
			c.ob("count:"+s.name, ok && s.eq(st.facts, cnt, wr), c.mpos(s, "Encode"), "after Encode of %s the encoder counts %s bytes, %s were handed to the writer", s.name, cnt, wr)
			if c.okOutcome(o) {
				c.ob("total:"+s.name, s.eq(o.st.facts, wr, l.total), c.mpos(s, "Encode"), "Encode of %s writes %s bytes, its size is %s", s.name, wr, l.total)
			}
		}
	})
}

func (c *Ctx) apiSizes(s *Subject) {
	ret, _ := c.decided(s, "Encode")
	for _, o := range ret {
		if o.kind != "return" || len(o.res) < 2 {
			c.ob("count:zssz", o.kind == "return", o.pos, "Encode: %s", o.reason)
			continue
		}
		p, ok := o.res[0].(*Poly)
		wr := o.st.ghostGet("wr:W")
		c.ob("count:zssz", ok && s.eq(o.st.facts, p, wr), c.mpos(s, "Encode"), "Encode returns the count %s, %s bytes were handed to the writer", showVal(o.res[0]), wr)
	}
	ret, _ = c.decided(s, "SizeOf")
	want := sizeOfAtom(sszOf(s.typ), Ptr{r: c.valReg(s), off: polyZero})
	for _, o := range ret {
		if o.kind != "return" {
			continue
		}
		p, ok := o.res[0].(*Poly)
		c.ob("sizeof:zssz", ok && s.eq(o.st.facts, p, want), c.mpos(s, "SizeOf"), "SizeOf returns %s, the value's size is %s", showVal(o.res[0]), want)
	}
	// the element codec is applied to the caller's value
	ret, _ = c.decided(s, "Encode")
	for _, o := range ret {
		n := 0
		walk(o.st.events, nil, func(ev *Event, in []*LoopPath) {
			if ev.kind == "child" && ev.str == "Encode" {
				n++
				c.ob("value:zssz", ev.ptr.r == c.valReg(s) && ev.ptr.off.isZero() && ev.val.(Opaque).key == sszOf(s.typ).key, ev.pos, "Encode does not encode the caller's value")
			}
		})
		c.ob("once:zssz", n == 1, c.mpos(s, "Encode"), "Encode encodes the value %d times", n)
	}
}

// valReg is the region of the caller's value in an analysis of an entry point.
func (c *Ctx) valReg(s *Subject) int { return len(s.st.regs) }

// evKey identifies an event across the outcomes that share it.
func evKey(ev *Event) string { return fmt.Sprintf("%p/%d", ev.facts, ev.pos) }

// allFixed: every field of the container is fixed-size.
func (s *Subject) allFixed() bool {
	return s.kind == "struct" && s.nf != nil && s.st.entailsCond(Cond{s.fieldSum(0, "1", s.nf), '='})
}

// norm rewrites sums over elements to one form: the size of a fixed-size element is its fixed
// length, and when all fields are fixed-size sums do not need to select them.
func (s *Subject) norm(p *Poly) *Poly {
	if s.elem.kind == "" && s.kind != "struct" {
		return p
	}
	all, el := s.allFixed(), false
	if s.kind == "vec" || s.kind == "list" {
		el = s.elemFixed()
	}
	var fixed func(sizes bool) func(a *Atom) *Poly
	fixed = func(sizes bool) func(a *Atom) *Poly {
		return func(a *Atom) *Poly {
			if a.sum != nil {
				var g []Guard
				isF := all || el
				for _, x := range a.sum.guard {
					if at := x.atom.SingleAtom(); at != nil && strings.HasPrefix(at.op, "IsFixed:") {
						if x.val == 1 {
							isF = true
						}
						if all && x.val == 0 {
							return polyZero
						}
						if all {
							continue
						}
					}
					g = append(g, x)
				}
				up := a.args[0].Subst(fixed(all || el))
				body := a.sum.mono.Subst(fixed(isF))
				if len(g) == 0 && !body.Mentions(func(x *Atom) bool { return x == kapAtom.SingleAtom() }) {
					return up.Mul(body)
				}
				return sumOver(g, body, up)
			}
			if sizes && strings.HasPrefix(a.op, "SizeOf:") {
				if i := strings.LastIndex(a.op, "@r"); i > 0 {
					return szAtom("FixedLen:"+a.op[len("SizeOf:"):i], a.args[:len(a.args)-1]...)
				}
			}
			return nil
		}
	}
	return p.Subst(fixed(all || el))
}

// sumOver distributes a sum over the terms of its body.
func sumOver(g []Guard, body, up *Poly) *Poly {
	out := polyZero
	for _, t := range body.terms {
		m := polyOne
		for _, a := range t.mono {
			m = m.Mul(atomP(atomTab[a]))
		}
		out = out.Add(mkSumRaw(append([]Guard{}, g...), m, up).MulB(t.c))
	}
	return out
}

// eq: equal under the facts, up to norm.
func (s *Subject) eq(f *Facts, a, b *Poly) bool {
	if eqF(f, a, b) {
		return true
	}
	x, y := s.norm(a), s.norm(b)
	return (x != a || y != b) && eqF(f, x, y)
}
