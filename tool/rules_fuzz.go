package main

import (
	"fmt"
	"go/types"
	"strings"
)

func ruleFuzz(c *Ctx) {
	c.eachAll(func(s *Subject) {
		fmin := chAtom("FuzzMinLen", sszOf(s.typ))
		if s.kind != "api" {
			r, ok := c.decided(s, "FuzzMinLen")
			if !ok || len(r) != 1 || r[0].kind != "return" {
				c.ob("minimum:"+s.name, false, 0, "FuzzMinLen of %s has no unique value", s.name)
				return
			}
			fmin, _ = r[0].res[0].(*Poly)
		}
		ret, _ := c.decided(s, "Fuzz")
		n := 0
		for _, o := range ret {
			if o.kind != "return" {
				continue
			}
			c.fuzzModes(s, o)
			start := polyZero
			if o.started {
				start = szAtom("I0")
			}
			if hasEvent(o.st.events, "ioerr", "short") != nil {
				continue
			}
			x := &scene{f: o.st.facts.Clone(), free: map[int]bool{}}
			x.add(ge(szAtom("M").Sub(start).Sub(fmin)))
			if s.kind == "vec" || s.kind == "list" {
				e := s.child()
				fm, fl := chAtom("FuzzMinLen", e), chAtom("FixedLen", e)
				if s.elemFixed() {
					// contract of fixed-size element codecs (C06)
					x.replace(fm.SingleAtom(), fl)
					fm = fl
				}
				x.products(fm.SingleAtom())
			}
			if s.kind == "struct" && s.allFixed() {
				// contract of fixed-size element codecs (C06), for every field
				fm := s.fieldSum(-1, "FuzzMinLen", idxT).SingleAtom()
				g := func(q *Poly) *Poly {
					return q.Subst(func(a *Atom) *Poly {
						switch {
						case fm != nil && a.op == fm.op && len(a.args) == 1:
							return s.fieldSum(-1, "FixedLen", a.args[0])
						case a.op == "FuzzMinLen:"+s.seqKey:
							return mkAtom("FixedLen:"+s.seqKey, bigZero, sizeHi, a.args...)
						}
						return nil
					})
				}
				x.f = x.f.subst(g)
				x.subs = append(x.subs, g)
			}
			x.solve()
			if !c.okOutcome(o) {
				ok := x.infeasible()
				if !ok {
					items, done := c.fuzzItems(s, o)
					ok = x.clone().closeAll(items, done, 6) || s.kind == "bitlist" && (x.neCases(8) || x.byteCases())
					if !ok && len(dbgClause) > 0 && strings.HasPrefix("sufficient:"+s.name+":", dbgClause+":") {
						dumpScene(o, nil, x, items)
						dbgLeaf = true
						x.clone().closeAll(items, done, 6)
						dbgLeaf = false
					}
				}
				c.ob("sufficient:"+s.name, ok, o.pos, "fuzz-mode decoding of %s can fail with %s bytes or more (%s)", s.name, fmin, where(c, o))
				continue
			}
			n++
			if s.kind != "api" {
				c.fuzzValid(s, o)
			}
		}
		c.ob("sufficient:"+s.name, true, 0, "")
		c.ob("modes:"+s.name, true, 0, "")
		c.ob("some:"+s.name, n > 0, 0, "fuzz-mode decoding of %s never succeeds", s.name)
	})
}

func (c *Ctx) fuzzItems(s *Subject, o *Outcome) (items []item, done func(*scene) bool) {
	for _, ev := range readLoops(o) {
		items = append(items, item{guard: []Con{ge(ev.n.AddC(-1))}, alts: instance(ev, ev.n.AddC(-1)), what: "previous iteration"})
		items = append(items, item{guard: []Con{eq(ev.n)}, then: initLink(ev, ev.n), what: "none before"})
	}
	return items, func(*scene) bool { return false }
}

// fuzzModes: elements are decoded in fuzz mode.
func (c *Ctx) fuzzModes(s *Subject, o *Outcome) {
	walk(o.st.events, nil, func(ev *Event, in []*LoopPath) {
		if ev.kind != "child" || ev.str != "Decode" && ev.str != "DryCheck" {
			return
		}
		b, ok := ev.objs[3].(Bool)
		c.ob("modes:"+s.name, ok && ev.str == "Decode" && truth(ev.facts, b) == 1, ev.pos, "fuzz-mode decoding of %s calls an element codec outside fuzz mode in %s", s.name, fnName(ev.fn))
	})
}

// fuzzValid: the value left in the destination is valid.
func (c *Ctx) fuzzValid(s *Subject, o *Outcome) {
	key := func(k string) string { return "valid-" + k + ":" + s.name }
	err := c.forks(o.st, func(st *State) {
		d, ok := finalDest(s, st, o.en)
		if !ok {
			c.ob(key("header"), false, o.pos, "fuzz-mode decoding of %s leaves an unknown slice header or pointer", s.name)
			return
		}
		switch s.kind {
		case "bytes", "basiclist", "list":
			c.ob(key("limit"), c.proveAll(st.facts, s.limit().Sub(d.n), d.n), o.pos, "fuzz-mode decoding of %s leaves %s elements, not known to be within the limit", s.name, d.n)
		}
		last := d.off.Add(d.n).AddC(-1)
		u8 := types.Typ[types.Uint8]
		switch {
		case s.kind == "bool":
			c.ob(key("value"), st.eng != nil, o.pos, "")
		case s.elemName() == "bool" && (s.kind == "basicvec" || s.kind == "basiclist"):
			c.fuzzBools(s, o, st, d, key)
		case s.kind == "bitvector":
			c.forkOb(key("padding"), st, o, func(z *State) (bool, string) {
				if !z.decide(Cond{d.n.AddC(-1), '+'}) {
					return true, ""
				}
				b, ok := z.loadAt(d.reg, last, u8).(*Poly)
				if !ok {
					return false, "unknown"
				}
				bl := szAtom("BitLen:"+s.typ.key, s.typ.args...)
				r := bl.Sub(mkDiv(bl, constP(8)).MulC(8))
				for q := int64(1); q < 8; q++ {
					f := z.facts.Clone()
					f.add(eq(r.AddC(-q)))
					if f.feasibleWith(nil) && !f.entails(ge(constP(1<<uint(q)-1).Sub(b))) {
						return false, fmt.Sprintf("the last byte is %s with %d bits in use", b, q)
					}
				}
				return true, ""
			})
		case s.kind == "bitlist":
			c.forkOb(key("bitlist"), st, o, func(z *State) (bool, string) {
				b, ok := z.loadAt(d.reg, last, u8).(*Poly)
				if !ok {
					return false, "unknown last byte"
				}
				if !z.facts.entails(ge(d.n.AddC(-1))) || !z.facts.entails(ge(b.AddC(-1))) {
					return false, fmt.Sprintf("%s bytes, the last %s", d.n, b)
				}
				for t := int64(0); t < 8; t++ {
					f := z.facts.Clone()
					f.add(ge(b.AddC(-(1 << uint(t)))))
					f.add(ge(constP(2<<uint(t) - 1).Sub(b)))
					if f.feasibleWith(nil) && !f.entails(ge(s.limit().Sub(d.n.AddC(-1).MulC(8)).AddC(-t))) {
						return false, fmt.Sprintf("%s bytes, the delimiter at bit %d of the last", d.n, t)
					}
				}
				return true, ""
			})
		}
	})
	c.ob(key("final"), err == "", o.pos, "the memory left by fuzz-mode decoding of %s cannot be determined: %s", s.name, err)
}

// forkOb records an obligation that holds in every case of the partition its queries need.
func (c *Ctx) forkOb(key string, st *State, o *Outcome, f func(z *State) (bool, string)) {
	err := c.forks(st, func(z *State) {
		ok, why := f(z)
		c.ob(key, ok, o.pos, "%s: %s", key, why)
	})
	c.ob(key, err == "", o.pos, "%s: %s", key, err)
}

// fuzzBools: the elements of bool series are 0 or 1.
func (c *Ctx) fuzzBools(s *Subject, o *Outcome, st *State, d dest, key func(string) string) {
	T := idxT
	y := st.Clone()
	y.assume(Cond{T, '+'})
	if !y.facts.feasibleCond(Cond{d.n.Sub(T).AddC(-1), '+'}) {
		return
	}
	y.assume(Cond{d.n.Sub(T).AddC(-1), '+'})
	c.forkOb(key("bools"), y, o, func(z *State) (bool, string) {
		v, ok := z.loadAt(d.reg, d.off.Add(T), types.Typ[types.Uint8]).(*Poly)
		if ok && z.facts.entails(ge(polyOne.Sub(v))) {
			return true, ""
		}
		// a loop over all elements that leaves each valid
		for i := range o.st.events {
			ev := &o.st.events[i]
			if ev.kind != "loop" || len(ev.loop.paths) == 0 || !eqF(o.st.facts, ev.n, d.n) {
				continue
			}
			all := true
			for _, p := range ev.loop.paths {
				at := d.off.Add(ev.loop.k)
				var fin *Poly
				for j := range p.events {
					e := &p.events[j]
					if e.ptr.r != d.reg || e.kind != "store" && e.kind != "load" {
						continue
					}
					q, ok := e.val.(*Poly)
					if !ok || !eqF(p.facts, e.ptr.off, at) || !e.n.Eq(polyOne) {
						if e.kind == "store" {
							all = false
							break
						}
						continue
					}
					fin = q
				}
				if fin == nil {
					all = false
					break
				}
				all = all && p.facts.entails(ge(polyOne.Sub(fin)))
			}
			if all {
				return true, ""
			}
		}
		return false, fmt.Sprintf("element %s is %s", T, showVal(v))
	})
}

// neCases: the scene is infeasible in each case of the disequalities it knows (less or greater).
func (x *scene) neCases(depth int) bool {
	if x.infeasible() {
		return true
	}
	if depth == 0 {
		return false
	}
	for _, p := range x.f.ne {
		lo, hi := x.f.entails(ge(p)), x.f.entails(ge(p.Neg()))
		if lo && hi {
			return true
		}
		if lo || hi {
			q := p
			if hi {
				q = p.Neg()
			}
			if x.f.entails(ge(q.AddC(-1))) {
				continue
			}
			y := x.clone()
			y.add(ge(q.AddC(-1)))
			return y.neCases(depth - 1)
		}
	}
	return false
}

// byteCases: the scene is infeasible for each of the 256 values of its one input byte.
func (x *scene) byteCases() bool {
	var in *Atom
	one := true
	see := func(p *Poly) {
		p.Mentions(func(a *Atom) bool {
			if strings.HasPrefix(a.op, "in1:") {
				one = one && (in == nil || in == a)
				in = a
			}
			return false
		})
	}
	for _, q := range x.f.cons {
		see(q.p)
	}
	for _, p := range x.f.ne {
		see(p)
	}
	if in == nil || !one {
		return false
	}
	for v := int64(0); v < 256; v++ {
		y := x.clone()
		y.replace(in, constP(v))
		y.solve()
		if !y.infeasible() && !y.neCases(8) {
			return false
		}
	}
	return true
}

// replace puts p for the atom everywhere.
func (x *scene) replace(a *Atom, p *Poly) {
	g := func(q *Poly) *Poly { return q.SubstAtom(a, p) }
	x.f = x.f.subst(g)
	x.subs = append(x.subs, g)
}

// products multiplies the linear facts about the cofactors of a non-negative quantity by it.
func (x *scene) products(fa *Atom) {
	co, more := map[int]bool{}, map[int]bool{}
	for _, q := range x.f.cons {
		for _, t := range q.p.terms {
			if len(t.mono) == 2 {
				for i := range t.mono {
					if t.mono[i] == fa.id {
						co[t.mono[1-i]] = true
					}
				}
			}
		}
	}
	// quotients by the quantity: div(a, f)·f <= a
	for _, q := range append([]Con{}, x.f.cons...) {
		q.p.Mentions(func(a *Atom) bool {
			if a.op == "div" && len(a.args) == 2 && a.args[1].SingleAtom() == fa && !co[a.id] {
				co[a.id] = true
				x.add(ge(a.args[0].Sub(atomP(a).Mul(atomP(fa)))))
			}
			return false
		})
	}
	for _, q := range append([]Con{}, x.f.cons...) {
		lin, has := true, false
		for _, t := range q.p.terms {
			lin = lin && len(t.mono) < 2
			has = has || len(t.mono) == 1 && co[t.mono[0]]
		}
		if lin && has {
			for _, t := range q.p.terms {
				if len(t.mono) == 1 {
					more[t.mono[0]] = true
				}
			}
		}
	}
	for id := range more {
		co[id] = true
	}
	for _, q := range append([]Con{}, x.f.cons...) {
		ok := len(q.p.terms) > 0
		for _, t := range q.p.terms {
			if len(t.mono) > 1 || len(t.mono) == 1 && !co[t.mono[0]] {
				ok = false
			}
		}
		if ok {
			x.add(Con{q.p.Mul(atomP(fa)), q.eq})
		}
	}
}
