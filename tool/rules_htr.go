package main

import (
	"fmt"
	"os"
)

// C07: what is merkleized, under which limit, and what is mixed in.

func init() {
	rules["C07"] = &rule{run: ruleRootsFull, shards: 1, both: true, min: 120, rule: "The term HashTreeRoot and SigningRoot return is compared with the SSZ definition of the kind: the chunk count and the limit handed to Merkleize, the mixed-in length, the hasher, and the bytes of the chunk the leaf function yields at an arbitrary index below the count."}
}

// htrSpec is the SSZ definition of a root.
type htrSpec struct {
	count, limit *Poly
	mix          *Poly
	bytes        *Poly // data: number of bytes in the chunks
	w            int64
	data         int // region of the data
	last         *Poly
	lastVal      *Poly // value of the byte at position last
	ssz          func(i *Poly) Opaque
	ptr          func(i *Poly) Ptr
}

func ceilDiv(p *Poly, n int64) *Poly { return mkDiv(p.AddC(n-1), constP(n)) }

func (s *Subject) htrSpec(en *Entry, signing bool) *htrSpec {
	h := &htrSpec{data: en.data, w: 1}
	switch s.kind {
	case "bytesN", "bitvector", "bytes", "basicvec", "basiclist":
		if n := s.elemName(); n != "" && s.kind != "bytesN" && s.kind != "bytes" && s.kind != "bitvector" {
			h.w = basicSize[n]
		}
		h.bytes = s.count(en).MulC(h.w)
		h.count = ceilDiv(h.bytes, 32)
		h.limit = h.count
		if s.kind == "bytes" || s.kind == "basiclist" {
			h.limit = ceilDiv(s.limit().MulC(h.w), 32)
			h.mix = s.count(en)
		}
	case "vec", "list":
		h.count, h.limit = s.count(en), s.typLen()
		if s.kind == "list" {
			h.limit, h.mix = s.limit(), h.count
		}
		h.ssz = func(*Poly) Opaque { return s.child() }
		h.ptr = func(i *Poly) Ptr { return s.elemPtr(en, i) }
	case "struct":
		if s.nf == nil {
			return nil
		}
		h.count = s.nf
		if signing {
			h.count = s.nf.AddC(-1)
		}
		h.limit = h.count
		h.ssz = func(i *Poly) Opaque { return s.field(i) }
		h.ptr = func(i *Poly) Ptr { return s.fieldPtr(en, i) }
	default:
		return nil
	}
	return h
}

// valueCase is a class of values with its definition of the root.
type valueCase struct {
	name string
	f    *Facts
	h    *htrSpec
}

// htrCases splits the values on a path into classes with one definition each.
func (c *Ctx) htrCases(s *Subject, en *Entry, f *Facts, m string) (out []valueCase) {
	add := func(name string, h *htrSpec, cs ...Con) {
		g := f.Clone()
		for _, x := range cs {
			g.add(x)
		}
		if g.feasibleWith(nil) {
			out = append(out, valueCase{name, g, h})
		}
	}
	ge := func(p *Poly) Con { return Con{p, false} }
	switch s.kind {
	case "bitlist":
		add("nil", &htrSpec{count: polyZero, limit: ceilDiv(s.limit(), 256), mix: polyZero, bytes: polyZero, w: 1, data: en.data}, Con{en.l, true})
		last := en.l.AddC(-1)
		x := c.memOf(en.data, last, 1)
		for b := int64(0); b < 8; b++ {
			n := last.MulC(8).AddC(b)
			by := en.l
			if b == 0 {
				by = last
			}
			add(fmt.Sprintf("bit%d", b), &htrSpec{count: ceilDiv(by, 32), limit: ceilDiv(s.limit(), 256), mix: n, bytes: by, w: 1, data: en.data, last: last, lastVal: x.AddC(-(1 << b))},
				ge(last), ge(x.AddC(-(1 << b))), ge(constP(2<<b).AddC(-1).Sub(x)), ge(constP(255).Sub(x)), ge(s.limit().Sub(n)))
		}
	case "struct":
		if m == "SigningRoot" {
			add("empty", &htrSpec{count: polyZero, limit: polyZero}, Con{s.nf, true})
			add("fields", s.htrSpec(en, true), ge(s.nf.AddC(-1)))
			return
		}
		fallthrough
	default:
		h := s.htrSpec(en, false)
		if h == nil {
			return
		}
		add("all", h, ge(h.limit.Sub(h.count)))
	}
	return
}

// dataByte checks that a piece of chunk data is the data of the value at position q.
func (c *Ctx) dataPiece(f *Facts, h *htrSpec, seg Seg, q *Poly) bool {
	if f.entails(Con{seg.n, true}) {
		return true
	}
	in := func(n *Poly) bool { return f.entails(Con{h.bytes.Sub(q).Sub(n), false}) }
	past := f.entails(Con{q.Sub(h.bytes), false})
	raw := h.w == 1 || c.w.little
	isLast := h.last != nil && eqF(f, q, h.last)
	switch k := seg.c.(type) {
	case CZero:
		return past || isLast && eqF(f, seg.n, polyOne) && f.entails(Con{h.lastVal, true})
	case CRaw:
		if !raw || k.r != h.data || !eqF(f, k.off, q) || !in(seg.n) {
			return false
		}
		return h.last == nil || f.entails(Con{h.last.Sub(q).Sub(seg.n), false})
	case CInt:
		if k.from != 0 || !eqF(f, seg.n, constP(int64(k.n))) {
			return false
		}
		if past && f.entails(Con{k.v, true}) {
			return true
		}
		if isLast {
			return k.n == 1 && eqF(f, k.v, h.lastVal)
		}
		if !in(seg.n) || h.last != nil && !f.entails(Con{h.last.Sub(q).AddC(-1), false}) {
			return false
		}
		if k.n == 1 && raw {
			return eqF(f, k.v, c.memOf(h.data, q, 1))
		}
		for j := int64(0); j < h.w; j++ {
			i := exactQuot(q.AddC(-j), constP(h.w))
			if i == nil {
				continue
			}
			if int64(k.n) == h.w && j == 0 && k.order == 'L' && eqF(f, k.v, c.memOf(h.data, q, h.w)) {
				return true
			}
			if k.n == 1 && !raw && eqF(f, k.v, c.memOf(h.data, i.MulC(h.w).AddC(h.w-1-j), 1)) {
				return true
			}
		}
	}
	return false
}

// chunk checks the chunk at index i.
func (c *Ctx) chunk(f *Facts, h *htrSpec, segs []Seg, i *Poly) (bool, string) {
	if h.ssz != nil {
		if len(segs) > 0 {
			if k, ok := segs[0].c.(CBlob); ok && k.from.isZero() && f.entails(Con{segs[0].n.AddC(-32), false}) && sameTerm(f, k.h, childRoot(h.ssz(i), h.ptr(i), nil)) && isHasher(k.h.fn) {
				return true, ""
			} else if ok && k.from.isZero() && sameTerm(f, k.h, childRoot(h.ssz(i), h.ptr(i), nil)) {
				return false, fmt.Sprintf("the root of element %s, but not with the caller's hasher", i)
			}
		}
		return false, fmt.Sprintf("%s, which is not the root of element %s", segsKey(segs), i)
	}
	q := i.MulC(32)
	for _, seg := range segs {
		if !c.dataPiece(f, h, seg, q) {
			return false, fmt.Sprintf("%s at byte %s of the data", segsKey([]Seg{seg}), q)
		}
		q = q.Add(seg.n)
	}
	if !f.entails(Con{q.Sub(i.MulC(32)).AddC(-32), false}) {
		return false, fmt.Sprintf("only %s bytes", q.Sub(i.MulC(32)))
	}
	return true, ""
}

func isHasher(v Value) bool {
	o, ok := v.(Opaque)
	return ok && o.kind == "hasher" && o.key == "h"
}

// ruleRootsFull adds the functions the roots are built with: trees, zero hashes and the mix-in.
func ruleRootsFull(c *Ctx) {
	ruleRoots(c)
	c.globalEach(c.adapterObs)
	c.shard(1, func() { c.merkleObs("C08") })
}

func ruleRoots(c *Ctx) {
	c.eachAll(func(s *Subject) {
		ms := []string{"HashTreeRoot"}
		if s.kind == "struct" || s.kind == "api" {
			ms = append(ms, "SigningRoot")
		}
		for _, m := range ms {
			ret, all := c.decided(s, m)
			if !all {
				continue
			}
			if s.kind == "api" {
				c.apiRoots(s, m, ret)
				continue
			}
			en := c.entry(s)
			for _, o := range ret {
				c.rootOutcome(s, en, m, o)
			}
		}
	})
}

func (c *Ctx) rootOutcome(s *Subject, en *Entry, m string, o *Outcome) {
	k := s.name + ":" + m
	if o.kind != "return" {
		for _, vc := range c.htrCases(s, en, o.st.facts, m) {
			c.ob("panics:"+k, false, o.pos, "%s of %s panics for a valid value (%s): %s", m, s.name, vc.name, o.reason)
		}
		return
	}
	b, ok := o.res[0].(Bytes)
	if !ok {
		c.ob("root:"+k, false, o.pos, "%s of %s returns %s", m, s.name, showVal(o.res[0]))
		return
	}
	f := o.st.facts
	if n, ok := basicSize[s.kind]; ok {
		h := &htrSpec{bytes: constP(n), w: n, data: en.p.r}
		ok, why := c.chunk(f, h, b.segs, polyZero)
		c.ob("chunk:"+k, ok, c.mpos(s, m), "%s of %s is %s; it must be the value, little-endian, padded with zeros", m, s.name, why)
		return
	}
	if s.kind == "ptr" {
		h := &htrSpec{ssz: func(*Poly) Opaque { return s.child() }, ptr: func(*Poly) Ptr { return Ptr{r: en.data, off: polyZero} }}
		ok, why := c.chunk(f, h, b.segs, polyZero)
		c.ob("chunk:"+k, ok, c.mpos(s, m), "%s of %s is %s", m, s.name, why)
		return
	}
	cases := c.htrCases(s, en, f, m)
	for _, vc := range cases {
		c.rootCase(s, m, o, b, vc)
	}
	c.ob("root:"+k, true, 0, "")
}

func (c *Ctx) rootCase(s *Subject, m string, o *Outcome, b Bytes, vc valueCase) {
	k := s.name + ":" + m
	f, h := vc.f, vc.h
	pos := c.mpos(s, m)
	segs := b.segs
	if h.mix != nil {
		t := wholeBlob(b)
		if !c.ob("mixin:"+k, t != nil && t.op == "mixin" && len(t.n) == 1 && len(t.args) == 1, pos, "%s of %s does not mix in the length (%s)", m, s.name, segsKey(b.segs)) {
			return
		}
		c.ob("mixed:"+k, eqF(f, t.n[0], h.mix), pos, "%s of %s mixes in %s, the length is %s", m, s.name, t.n[0], h.mix)
		c.ob("hasher:"+k, isHasher(t.fn), pos, "%s of %s does not mix in with the caller's hasher", m, s.name)
		segs = blob(t.args[0]).segs
	}
	t := wholeBlob(Bytes{constP(32), segs})
	if t == nil || t.op != "merkle" {
		// a tree without or with one leaf has no inner nodes
		if f.entails(Con{h.limit, true}) && len(segs) == 1 {
			if _, z := segs[0].c.(CZero); z {
				return
			}
		}
		if eqF(f, h.limit, polyOne) && eqF(f, h.count, polyOne) {
			if ok, _ := c.chunk(f, h, segs, polyZero); ok {
				c.ob("chunk:"+k, true, pos, "")
				return
			}
		}
		if eqF(f, h.limit, polyOne) && eqF(f, h.count, polyZero) && len(segs) == 1 {
			if _, z := segs[0].c.(CZero); z {
				return
			}
		}
		c.ob("merkle:"+k, false, pos, "%s of %s is %s, not the root of its chunks", m, s.name, segsKey(segs))
		return
	}
	c.ob("merkle:"+k, true, pos, "")
	c.ob("hasher:"+k, isHasher(t.fn), pos, "%s of %s does not merkleize with the caller's hasher", m, s.name)
	c.ob("count:"+k, eqF(f, t.n[0], h.count), pos, "%s of %s merkleizes %s chunks, there are %s (%s)", m, s.name, t.n[0], h.count, vc.name)
	c.ob("limit:"+k, eqF(f, t.n[1], h.limit), pos, "%s of %s merkleizes under the limit %s, the type's is %s", m, s.name, t.n[1], h.limit)
	if f.entails(Con{h.count, true}) {
		return
	}
	var ev *Event
	for i := range o.st.events {
		e := &o.st.events[i]
		if e.kind == "merkle" && len(e.objs) == 1 {
			if x := wholeBlob(e.objs[0].(Bytes)); x != nil && x.Key() == t.Key() {
				ev = e
			}
		}
	}
	if ev == nil || ev.loop == nil {
		c.ob("leaf:"+k, false, pos, "the chunks of %s cannot be followed in %s", s.name, m)
		return
	}
	n := 0
	for _, p := range ev.loop.paths {
		g := p.facts.Clone()
		for _, x := range vc.f.cons {
			if !f.keys[x.keyStr()] || !p.facts.keys[x.keyStr()] {
				g.add(x)
			}
		}
		if h.last != nil {
			var ps []*Poly
			for _, x := range p.leaf {
				if k, ok := x.c.(CInt); ok {
					ps = append(ps, k.v)
				}
			}
			g.congruent(c.memOf(h.data, h.last, 1), ps)
		}
		if !g.feasibleWith(nil) {
			continue
		}
		n++
		if p.bad != "" {
			if os.Getenv("ZDBG") != "" {
				fmt.Println("DBG", vc.name, factsStr(g, newFacts()))
			}
			c.ob("leafpanic:"+k, false, ev.pos, "%s of %s panics for a valid value at chunk %s: %s", m, s.name, ev.loop.k, p.bad)
			continue
		}
		ok, why := c.chunk(g, h, p.leaf, ev.loop.k)
		if !ok && os.Getenv("ZDBG") != "" {
			fmt.Println("DBG", factsStr(g, newFacts()))
		}
		c.ob("chunk:"+k, ok, ev.pos, "%s of %s: chunk %s has %s (%s)", m, s.name, ev.loop.k, why, vc.name)
	}
	c.ob("leafs:"+k, n > 0 || !f.feasibleCond(Cond{h.count.AddC(-1), '+'}), ev.pos, "no leaf of %s found", s.name)
}

func (c *Ctx) apiRoots(s *Subject, m string, ret []*Outcome) {
	for _, o := range ret {
		op := map[string]string{"HashTreeRoot": "htr", "SigningRoot": "sig"}[m]
		ok := false
		if o.kind == "return" {
			if b, isB := o.res[0].(Bytes); isB {
				if t := wholeBlob(b); t != nil {
					w := childRoot(sszOf(s.typ), Ptr{r: c.valReg(s), off: polyZero}, nil)
					w.op = op
					ok = sameTerm(o.st.facts, t, w) && isHasher(t.fn)
				}
			}
		}
		c.ob("value:zssz:"+m, ok, c.mpos(s, m), "%s does not return the %s of the caller's value with the caller's hasher", m, m)
	}
}

// congruent makes the memory atoms whose address equals that of x equal to x.
func (f *Facts) congruent(x *Poly, more []*Poly) {
	a := x.SingleAtom()
	seen := map[int]bool{}
	var hits []*Atom
	look := func(p *Poly) {
		p.Mentions(func(b *Atom) bool {
			if b != a && b.op == a.op && len(b.args) == 1 && !seen[b.id] {
				seen[b.id] = true
				hits = append(hits, b)
			}
			return false
		})
	}
	for _, c := range f.cons {
		look(c.p)
	}
	for _, p := range append(more, f.ne...) {
		look(p)
	}
	for _, b := range hits {
		if f.entails(Con{b.args[0].Sub(a.args[0]), true}) {
			bp, ap := atomP(b), atomP(a)
			f.add(Con{bp.Sub(ap), true})
			// terms computed from the two agree as well
			for _, d := range []int64{2, 4, 8, 16, 32, 64, 128} {
				f.add(Con{mkDiv(bp, constP(d)).Sub(mkDiv(ap, constP(d))), true})
			}
		}
	}
}
