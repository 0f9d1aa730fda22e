package main

import (
	"fmt"
	"go/types"
)

// C20: bitfield helpers, for byte strings of any length. The one byte a helper inspects bit by bit is
// partitioned into its 256 values; lengths, indices and all other bytes stay symbolic.

func init() {
	rules["C20"] = &rule{run: ruleBits, min: 9000, rule: "Every path of every exported bitfield helper is compared with its definition, for byte strings of every length: highest-bit index, bitlist length, bit read, bit written (and nothing else written), bitlist and bitvector validity, zero test."}
}

type bitsRun struct {
	c   *Ctx
	st  *State
	reg *Region
	n   *Poly
	b   Slice
}

// newBytes prepares a byte string of length n whose byte at q (if q is given) is v.
func (c *Ctx) newBytes(n, q *Poly, v int64) *bitsRun {
	st := c.w.base.Clone()
	st.events = nil
	g := st.newRegion("b", "user", n)
	g.rawName = "b"
	r := &bitsRun{c: c, st: st, reg: g, n: n, b: Slice{Ptr{r: g.id, off: polyZero}, n, n}}
	if q != nil {
		st.assume(Cond{q, '+'})
		st.assume(Cond{n.Sub(q).AddC(-1), '+'})
		st.putWrite(g.id, &Write{off: q, size: polyOne, val: constP(v), t: types.Typ[types.Byte]})
	}
	return r
}

func (c *Ctx) callBits(key, name string, st *State, args ...Value) []*Outcome {
	fn := c.w.e.fnByName("bitfields", name)
	if fn == nil {
		c.ob("anchor:"+name, false, 0, "bitfields.%s not found", name)
		return nil
	}
	var outs []*Outcome
	func() {
		defer func() {
			if x := recover(); x != nil {
				outs = nil
				c.ob(key, false, fn.Pos(), "bitfields.%s cannot be analysed: %s", name, haltStr(x))
			}
		}()
		outs = c.w.e.Call(st, fn, args, nil)
	}()
	c.nOutc += len(outs)
	c.nRun++
	for _, o := range outs {
		if o.kind != "return" {
			c.ob(key, false, o.pos, "bitfields.%s: %s: %s", name, o.kind, o.reason)
			return nil
		}
		c.noteFuncs(o.st.events)
	}
	if len(outs) == 0 {
		c.ob(key, false, fn.Pos(), "bitfields.%s never returns", name)
	}
	return outs
}

func topBit(v int64) int64 {
	t := int64(-1)
	for ; v > 0; v >>= 1 {
		t++
	}
	return t
}

// truth: the value of a boolean result under more facts: 1, 0, or -1 unknown.
func truth(f *Facts, v Value) int {
	b, ok := v.(Bool)
	if !ok {
		return -1
	}
	if f.entailsCond(b.c) {
		return 1
	}
	if f.entailsCond(b.c.Not()) {
		return 0
	}
	return -1
}

func ruleBits(c *Ctx) {
	c.global(func() {
		n := szAtom("blen")
		for v := int64(0); v < 256; v++ {
			c.bitIndex(v)
			c.bitlistLen(n, v)
			c.bitlistCheck(n, v)
			c.bitvectorCheck(n, v)
			c.zeroBitlist(n, v)
			for _, p := range []string{"get", "set1", "set0"} {
				for i := int64(0); i < 8; i++ {
					c.bitAt(n, v, i, p)
				}
			}
		}
		c.emptyBits()
	})
}

func (c *Ctx) bitIndex(v int64) {
	if v == 0 {
		return
	}
	k := fmt.Sprintf("BitIndex:%d", v)
	st := c.w.base.Clone()
	st.events = nil
	for _, o := range c.callBits(k, "BitIndex", st, constP(v)) {
		p, ok := o.res[0].(*Poly)
		c.ob(k, ok && eqF(o.st.facts, p, constP(topBit(v))), o.pos, "BitIndex(%d) is %s, the highest set bit is %d", v, showVal(o.res[0]), topBit(v))
	}
}

func (c *Ctx) bitlistLen(n *Poly, v int64) {
	if v == 0 {
		return
	}
	k := fmt.Sprintf("BitlistLen:%d", v)
	r := c.newBytes(n, n.AddC(-1), v)
	want := n.AddC(-1).MulC(8).AddC(topBit(v))
	for _, o := range c.callBits(k, "BitlistLen", r.st, r.b) {
		p, ok := o.res[0].(*Poly)
		c.ob(k, ok && eqF(o.st.facts, p, want), o.pos, "BitlistLen of %s bytes ending in %d is %s, not %s", n, v, showVal(o.res[0]), want)
	}
}

// verdicts compares the error results of a check with its definition.
func (c *Ctx) verdicts(k string, outs []*Outcome, valid []Cond, what string) {
	for _, o := range outs {
		if c.okOutcome(o) {
			for _, x := range valid {
				c.ob(k, o.st.facts.entailsCond(x), o.pos, "%s is accepted although %s may not hold", what, x)
			}
			continue
		}
		f, feas := o.st.facts.Clone(), true
		for _, x := range valid {
			if !f.feasibleCond(x) {
				feas = false
				break
			}
			assumeFacts(f, x)
		}
		c.ob(k, !feas || !f.feasibleWith(nil), o.pos, "%s is refused although it may be valid", what)
	}
}

var never = Cond{constP(-1), '+'}

func (c *Ctx) bitlistCheck(n *Poly, v int64) {
	k := fmt.Sprintf("BitlistCheck:%d", v)
	lim := szAtom("bits")
	r := c.newBytes(n, n.AddC(-1), v)
	valid := []Cond{never}
	if v != 0 {
		valid = []Cond{{lim.Sub(n.AddC(-1).MulC(8)).AddC(-topBit(v)), '+'}}
	}
	c.verdicts(k, c.callBits(k, "BitlistCheck", r.st, r.b, lim), valid, fmt.Sprintf("a bitlist of blen bytes ending in %d under a limit of bits", v))
}

func (c *Ctx) bitvectorCheck(n *Poly, v int64) {
	for rem := int64(0); rem < 8; rem++ {
		k := fmt.Sprintf("BitvectorCheck:%d:%d", v, rem)
		p := szAtom("full")
		bits := p.MulC(8).AddC(rem)
		r := c.newBytes(n, n.AddC(-1), v)
		need := p
		if rem > 0 {
			need = p.AddC(1)
		}
		valid := []Cond{{n.Sub(need), '='}}
		if rem > 0 && v>>uint(rem) != 0 {
			valid = []Cond{never}
		}
		c.verdicts(k, c.callBits(k, "BitvectorCheck", r.st, r.b, bits), valid, fmt.Sprintf("a bitvector of blen bytes ending in %d for %s bits", v, bits))
	}
}

func (c *Ctx) bitAt(n *Poly, v, i int64, op string) {
	k := fmt.Sprintf("%s:%d:%d", op, v, i)
	q := szAtom("byte")
	r := c.newBytes(n, q, v)
	idx := q.MulC(8).AddC(i)
	if op == "get" {
		want := int(v >> uint(i) & 1)
		for _, o := range c.callBits(k, "GetBit", r.st, r.b, idx) {
			c.ob(k, truth(o.st.facts, o.res[0]) == want, o.pos, "bit %d of byte %d reads %s, not %d", i, v, showVal(o.res[0]), want)
		}
		return
	}
	want, set := v&^(1<<uint(i)), false
	if op == "set1" {
		want, set = v|1<<uint(i), true
	}
	for _, o := range c.callBits(k, "SetBit", r.st, r.b, idx, boolC(set)) {
		bad := false
		walk(o.st.events, nil, func(ev *Event, in []*LoopPath) {
			if ev.kind == "store" && ev.ptr.r == r.reg.id && !(eqF(ev.facts, ev.ptr.off, q) && eqF(ev.facts, ev.n, polyOne)) {
				bad = true
				c.ob(k, false, ev.pos, "setting a bit of byte %s writes %s bytes at %s", q, ev.n, ev.ptr.off)
			}
		})
		if bad {
			continue
		}
		got, ok := o.st.loadAt(r.reg.id, q, types.Typ[types.Byte]).(*Poly)
		c.ob(k, ok && eqF(o.st.facts, got, constP(want)), o.pos, "setting bit %d of byte %d to %v gives %v, not %d", i, v, set, got, want)
	}
}

func (c *Ctx) zeroBitlist(n *Poly, v int64) {
	k := fmt.Sprintf("IsZeroBitlist:%d", v)
	r := c.newBytes(n, n.AddC(-1), v)
	lastZero := v&(v-1) == 0
	for _, o := range c.callBits(k, "IsZeroBitlist", r.st, r.b) {
		switch truth(o.st.facts, o.res[0]) {
		case 1:
			ok := lastZero && (o.st.facts.entailsCond(Cond{n.AddC(-1), '='}) || r.allZero(o))
			c.ob(k, ok, o.pos, "a bitlist ending in %d counts as zero although a bit other than the delimiter may be set", v)
		case 0:
			c.ob(k, !lastZero || r.someSet(o), o.pos, "a bitlist ending in %d does not count as zero although no bit but the delimiter may be set", v)
		default:
			c.ob(k, false, o.pos, "the zero test of a bitlist ending in %d gives %s", v, showVal(o.res[0]))
		}
	}
}

// scans lists the completed loops over all bytes but the last, with the byte seen in round k.
func (r *bitsRun) scans(o *Outcome, fn func(l *LoopEv, m *Poly) bool) bool {
	for i := range o.st.events {
		ev := &o.st.events[i]
		if ev.kind != "loop" || len(ev.loop.paths) == 0 || !eqF(o.st.facts, ev.n, r.n.AddC(-1)) {
			continue
		}
		k := ev.loop.k
		for _, off := range []*Poly{k, r.n.AddC(-2).Sub(k)} {
			if fn(ev.loop, memAtom(r.reg, off, 1)) {
				return true
			}
		}
	}
	return false
}

// allZero: every byte before the last one is zero: each round of a loop has seen that, or they have
// been accumulated in a variable that is zero.
func (r *bitsRun) allZero(o *Outcome) bool {
	return r.covered(o) || r.scans(o, func(l *LoopEv, m *Poly) bool {
		all := true
		for _, p := range l.paths {
			all = all && eqF(p.facts, m, polyZero)
		}
		if all {
			return true
		}
		for v, x := range l.vars {
			all := eqF(o.st.facts, x, polyZero)
			for _, p := range l.paths {
				n := p.next[v]
				all = all && n != nil && p.facts.entails(Con{n.Sub(x), false}) && p.facts.entails(Con{n.Sub(m), false})
			}
			if all {
				return true
			}
		}
		return false
	})
}

// bytesIn lists the bytes of the region that facts talk about.
func (r *bitsRun) bytesIn(f *Facts) (as []*Atom) {
	for _, a := range atomTab {
		if a != nil && len(a.args) == 1 && memAtom(r.reg, a.args[0], 1).Eq(atomP(a)) && f.mentions(func(x *Atom) bool { return x == a }) {
			as = append(as, a)
		}
	}
	return
}

// zeroSpans lists ranges of bytes known to be zero, seen one by one or in the rounds of a loop.
func (r *bitsRun) zeroSpans(o *Outcome) (spans [][2]*Poly) {
	for _, a := range r.bytesIn(o.st.facts) {
		if eqF(o.st.facts, atomP(a), polyZero) {
			spans = append(spans, [2]*Poly{a.args[0], a.args[0].AddC(1)})
		}
	}
	for i := range o.st.events {
		ev := &o.st.events[i]
		if ev.kind != "loop" || len(ev.loop.paths) == 0 {
			continue
		}
		kA := ev.loop.k.SingleAtom()
		if kA == nil {
			continue
		}
		var offs []*Poly
		for _, a := range r.bytesIn(ev.loop.paths[0].facts) {
			all := true
			for _, p := range ev.loop.paths {
				all = all && eqF(p.facts, atomP(a), polyZero)
			}
			if all {
				offs = append(offs, a.args[0])
			}
		}
		has := func(p *Poly) bool {
			for _, q := range offs {
				if q.Eq(p) {
					return true
				}
			}
			return false
		}
		for _, off := range offs {
			first := off.SubstAtom(kA, polyZero)
			s, ok := off.Sub(first).SubstAtom(kA, polyOne).Int64()
			if !ok || !off.Eq(first.Add(ev.loop.k.MulC(s))) || s == 0 {
				continue
			}
			w := s
			if s < 0 {
				w = -s
			}
			all := w <= 64
			for j := int64(1); all && j < w; j++ {
				all = has(off.AddC(j))
			}
			if !all {
				continue
			}
			if s > 0 {
				spans = append(spans, [2]*Poly{first, first.Add(ev.n.MulC(w))})
			} else {
				end := first.AddC(w)
				spans = append(spans, [2]*Poly{end.Sub(ev.n.MulC(w)), end})
			}
		}
	}
	return
}

// covered: the spans, one after the other, reach over every byte but the last.
func (r *bitsRun) covered(o *Outcome) bool {
	f := o.st.facts
	spans := r.zeroSpans(o)
	cur := polyZero
	for {
		if f.entailsCond(geC(cur, r.n.AddC(-1))) {
			return true
		}
		hit := -1
		for i, s := range spans {
			if f.entailsCond(geC(cur, s[0])) {
				hit = i
				break
			}
		}
		if hit < 0 {
			return false
		}
		if f.entailsCond(geC(spans[hit][1], cur)) {
			cur = spans[hit][1]
		}
		spans = append(spans[:hit:hit], spans[hit+1:]...)
	}
}

// someSet: the bytes before the last one that the facts talk about cannot all be zero, or the bytes
// have been accumulated in a variable that is not zero.
func (r *bitsRun) someSet(o *Outcome) bool {
	f := o.st.facts.Clone()
	for _, a := range r.bytesIn(o.st.facts) {
		if o.st.facts.entailsCond(Cond{r.n.AddC(-2).Sub(a.args[0]), '+'}) && o.st.facts.entailsCond(Cond{a.args[0], '+'}) {
			assumeFacts(f, Cond{atomP(a), '='})
		}
	}
	if f.bad || !f.feasibleWith(nil) {
		return true
	}
	f = o.st.facts
	return r.scans(o, func(l *LoopEv, m *Poly) bool {
		for v, x := range l.vars {
			all := l.inits[v] != nil && l.inits[v].isZero() && f.entailsNe(x)
			for _, p := range l.paths {
				n := p.next[v]
				all = all && n != nil && p.facts.entails(Con{x.Add(m).Sub(n), false})
			}
			if all {
				return true
			}
		}
		return false
	})
}

func (c *Ctx) emptyBits() {
	r := c.newBytes(polyZero, nil, 0)
	k := "BitlistCheck:empty"
	c.verdicts(k, c.callBits(k, "BitlistCheck", r.st, r.b, szAtom("bits")), []Cond{never}, "an empty bitlist")
	r = c.newBytes(polyZero, nil, 0)
	k = "BitvectorCheck:empty"
	bits := szAtom("bits")
	c.verdicts(k, c.callBits(k, "BitvectorCheck", r.st, r.b, bits), []Cond{{bits, '='}}, "an empty bitvector")
	r = c.newBytes(polyZero, nil, 0)
	k = "IsZeroBitlist:empty"
	for _, o := range c.callBits(k, "IsZeroBitlist", r.st, r.b) {
		c.ob(k, truth(o.st.facts, o.res[0]) == 1, o.pos, "an empty bitlist does not count as zero")
	}
}
