package main

// C01, C02, C03: the inputs Decode and DryCheck accept, compared with the definition of a valid
// encoding of the codec's kind.

import (
	"fmt"
	"go/token"
	"strings"
)

func init() {
	rules["C01"] = &rule{run: func(c *Ctx) { ruleVerdict(c, true) }, min: 100, rule: "For every successful outcome of Decode and DryCheck in which the whole extent was read, the path condition and the summaries of the loops on the path entail each clause of the definition of a valid encoding of the kind (limits, canonical values, padding bits, delimiter, first offset, offset order, element spans, element validity), the indexed clauses at an arbitrary index."}
	rules["C02"] = &rule{run: func(c *Ctx) { ruleVerdict(c, false) }, min: 100, rule: "No failing outcome of Decode or DryCheck other than one caused by the reader is compatible with the clauses of the definition of a valid encoding of the kind."}
	rules["C03"] = &rule{run: ruleAgree, min: 40, rule: "Decode and DryCheck of a codec are decided against the same definition of validity, clause by clause and in both directions, and the outcomes agree."}
}

// ---------------------------------------------------------------- scenes

// scene is a set of facts closed under the elimination of loop variables and indices.
type scene struct {
	f    *Facts
	subs []func(*Poly) *Poly
	free map[int]bool // index atoms that may be eliminated
	goal []*Poly      // terms of interest
	recs []place      // element decodings of the iterations in view
}

// place is one decoding of an element: where it reads and where it writes.
type place struct {
	ptr  Ptr
	pos  *Poly
	span *Poly
	elem Opaque
	fuzz bool
}

func (x *scene) clone() *scene {
	return &scene{x.f.Clone(), x.subs[:len(x.subs):len(x.subs)], x.free, x.goal, x.recs[:len(x.recs):len(x.recs)]}
}

func (x *scene) n(p *Poly) *Poly {
	for _, g := range x.subs {
		p = g(p)
	}
	return p
}

func (x *scene) add(c Con) { x.f.add(Con{x.n(c.p), c.eq}) }
func (x *scene) ne(p *Poly) {
	x.f.addNe(x.n(p))
}

func (x *scene) addAll(f *Facts, g func(*Poly) *Poly) {
	for _, c := range f.cons {
		x.add(Con{g(c.p), c.eq})
	}
	for _, p := range f.ne {
		x.ne(g(p))
	}
}

// solve eliminates loop variables and index atoms that are equal to other terms.
func (x *scene) solve() {
	for round := 0; round < 40; round++ {
		var hit *Atom
		var expr *Poly
		for _, c := range x.f.cons {
			if !c.eq {
				continue
			}
			for _, t := range c.p.terms {
				if len(t.mono) != 1 || !t.c.IsInt64() || t.c.Int64() != 1 && t.c.Int64() != -1 {
					continue
				}
				a := atomTab[t.mono[0]]
				if !strings.HasPrefix(a.op, "lv:") && !x.free[a.id] {
					continue
				}
				rest := c.p.Sub(atomP(a).MulC(t.c.Int64()))
				if rest.Mentions(func(b *Atom) bool { return b == a }) {
					continue
				}
				hit, expr = a, rest.MulC(-t.c.Int64())
				break
			}
			if hit != nil {
				break
			}
		}
		if hit == nil {
			return
		}
		lo, hi := hit.bounds()
		g := func(p *Poly) *Poly { return p.SubstAtom(hit, expr) }
		x.f = x.f.subst(g)
		if lo != nil {
			x.f.add(Con{expr.Sub(constB(lo)), false})
		}
		if hi != nil {
			x.f.add(Con{constB(hi).Sub(expr), false})
		}
		x.subs = append(x.subs, g)
	}
}

func (x *scene) infeasible() bool { return x.f.bad || !x.f.feasibleWith(nil) }

func (x *scene) entails(c Con) bool { return x.f.entails(Con{x.n(c.p), c.eq}) }

func (x *scene) refutes(c Con) bool {
	n := x.n(c.p)
	if c.eq {
		return x.f.entailsNe(n)
	}
	return x.f.entails(Con{n.Neg().AddC(-1), false})
}

var congOps = []string{"bad:", "used:", "in1:", "inL2:", "inL4:", "inL8:", "inB4:", "FixedLen:", "IsFixed:", "MinLen:"}

// congruence adds equalities between terms whose arguments are equal.
func (x *scene) congruence() bool {
	by := map[string][]*Atom{}
	seen := map[int]bool{}
	look := func(p *Poly) {
		p.Mentions(func(a *Atom) bool {
			if seen[a.id] || len(a.args) == 0 {
				return false
			}
			seen[a.id] = true
			for _, o := range congOps {
				if strings.HasPrefix(a.op, o) {
					by[a.op] = append(by[a.op], a)
				}
			}
			return false
		})
	}
	for _, c := range x.f.cons {
		look(c.p)
	}
	for _, p := range x.f.ne {
		look(p)
	}
	for _, p := range x.goal {
		look(x.n(p))
	}
	added := false
	gone := map[int]bool{}
	for _, op := range sortedKeys(by) {
		as := by[op]
		for i := range as {
			for j := i + 1; j < len(as); j++ {
				a, b := as[i], as[j]
				if len(a.args) != len(b.args) {
					continue
				}
				if gone[a.id] || gone[b.id] {
					continue
				}
				same := true
				for k := range a.args {
					if q := a.args[k].Sub(b.args[k]); !q.isZero() {
						if _, isC := q.Const(); isC || !x.f.entails(Con{q, true}) {
							same = false
							break
						}
					}
				}
				if same {
					g := func(p *Poly) *Poly { return p.SubstAtom(b, atomP(a)) }
					x.f = x.f.subst(g)
					x.subs = append(x.subs, g)
					gone[b.id] = true
					added = true
				}
			}
		}
	}
	return added
}

// item is a piece of knowledge that holds under a guard, with alternatives.
type item struct {
	guard []Con
	then  []Con
	alts  func(x *scene) []*scene
	what  string
	unify func(x *scene) bool // standing rule that identifies equal terms
}

// closeAll shows that done holds in every case left open by the items.
func (x *scene) closeAll(items []item, done func(*scene) bool, depth int) bool {
	if x.infeasible() || done(x) {
		return true
	}
	for i, it := range items {
		if it.unify != nil {
			continue
		}
		open := false
		dead := false
		for _, g := range it.guard {
			if x.entails(g) {
				continue
			}
			open = true
			if x.refutes(g) {
				dead = true
				break
			}
		}
		if dead {
			return x.closeAll(append(append([]item{}, items[:i]...), items[i+1:]...), done, depth)
		}
		if open {
			continue
		}
		rest := append(append([]item{}, items[:i]...), items[i+1:]...)
		for _, t := range it.then {
			x.add(t)
		}
		if it.alts == nil {
			x.solve()
			return x.closeAll(rest, done, depth)
		}
		for _, y := range it.alts(x) {
			if !y.closeAll(rest, done, depth) {
				return false
			}
		}
		return true
	}
	more := x.congruence()
	for _, it := range items {
		if it.unify != nil && it.unify(x) {
			more = true
		}
	}
	if more {
		x.solve()
		return x.closeAll(items, done, depth)
	}
	if depth <= 0 || len(items) == 0 {
		if dbgLeaf {
			dumpScene(&Outcome{kind: "leaf"}, nil, x, items)
			dbgLeaf = false
		}
		return false
	}
	// split on the first open guard
	for _, it := range items {
		for _, g := range it.guard {
			if x.entails(g) {
				continue
			}
			var sides []*scene
			y := x.clone()
			y.add(g)
			sides = append(sides, y)
			if g.eq {
				for _, sg := range []int64{1, -1} {
					z := x.clone()
					z.add(Con{g.p.MulC(sg).AddC(-1), false})
					sides = append(sides, z)
				}
			} else {
				z := x.clone()
				z.add(Con{g.p.Neg().AddC(-1), false})
				sides = append(sides, z)
			}
			for _, y := range sides {
				y.solve()
				if !y.closeAll(items, done, depth-1) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- loop instances

func renamer(ev *Event, t *Poly) func(*Poly) *Poly {
	L := ev.loop
	k := L.k.SingleAtom()
	raw := t.Eq(ev.n)
	tag := "@" + t.Key()
	pre := "lv:" + L.id + ":"
	f := func(a *Atom) *Poly {
		if a == k {
			return t
		}
		if raw {
			return nil
		}
		if strings.HasPrefix(a.op, pre) || atomSeq(a.op) > L.entry {
			if strings.Contains(a.op, "@") {
				return nil
			}
			lo, hi := a.bounds()
			args := make([]*Poly, len(a.args))
			for i := range a.args {
				args[i] = a.args[i].SubstAtom(k, t)
			}
			return mkAtom(a.op+tag, lo, hi, args...)
		}
		return nil
	}
	return func(p *Poly) *Poly { return p.Subst(f) }
}

// instance: the alternatives of iteration t of the loop, linked to the state before and after.
func instance(ev *Event, t *Poly) func(x *scene) []*scene {
	return func(x *scene) (out []*scene) {
		at := renamer(ev, t)
		after := renamer(ev, t.AddC(1))
		if ev.n.Eq(t.AddC(1)) || x.entails(Con{ev.n.Sub(t).AddC(-1), true}) {
			after = renamer(ev, ev.n)
		}
		for _, p := range ev.loop.paths {
			if p.bad != "" {
				continue
			}
			y := x.clone()
			y.addAll(p.facts, at)
			y.recs = append(y.recs, places(p.events, at)...)
			for _, v := range sortedKeys(p.next) {
				if s, ok := ev.loop.vars[v]; ok {
					y.add(Con{after(s).Sub(at(p.next[v])), true})
				}
			}
			y.solve()
			if !y.infeasible() {
				out = append(out, y)
			}
		}
		return out
	}
}

// initLink: the loop variables at index t, which is the first.
func initLink(ev *Event, t *Poly) (out []Con) {
	at := renamer(ev, t)
	for _, v := range sortedKeys(ev.loop.inits) {
		if s, ok := ev.loop.vars[v]; ok {
			out = append(out, Con{at(s).Sub(ev.loop.inits[v]), true})
		}
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sortStrings(ks)
	return ks
}

// readLoops are the loops of an outcome whose iterations depend on the input.
func readLoops(o *Outcome) (out []*Event) {
	for i := range o.st.events {
		ev := &o.st.events[i]
		if ev.kind != "loop" {
			continue
		}
		rel := false
		for _, p := range ev.loop.paths {
			if hasEvent(p.events, "child", "childok", "consume") != nil {
				rel = true
			}
			for _, c := range p.facts.cons {
				if ev.facts != nil && ev.facts.keys[c.keyStr()] {
					continue
				}
				if c.p.Mentions(func(a *Atom) bool {
					return strings.HasPrefix(a.op, "in") && strings.Contains(a.op, ":"+streamR)
				}) {
					rel = true
				}
			}
		}
		if rel {
			out = append(out, ev)
		}
	}
	return out
}

// ---------------------------------------------------------------- definition of validity

// clause: if guard then then; idx is the arbitrary index of an indexed clause.
type clause struct {
	name  string
	guard []Con
	then  []Con
	idx   *Poly
	nxt   *Poly // index of the following element, if the clause is about two elements
	last  bool
	first bool
	lemma bool // follows from the other clauses for all indices
}

type decSpec struct {
	s     *Subject
	pos   *Poly
	ext   *Poly
	fixed bool
	cl    []clause
	skip  bool
	ser   *series
	def   []Con // naming of quantities
}

// series describes elements with offsets.
type series struct {
	n, cnt, fixed *Poly // index bound, number of offsets, size of the fixed part
	isVar         func(j *Poly) []Con
	rank          func(j *Poly) *Poly
	offPos        func(j *Poly) *Poly
	child         func(j *Poly) Opaque
	all           bool // every element has an offset
}

func in4(pos *Poly) *Poly { return inAtom(CIn{streamR, pos}, 4, 'L') }
func in1(pos *Poly) *Poly { return inAtom(CIn{streamR, pos}, 1, 'L') }

func chk(what string, r Opaque, pos, span *Poly) *Poly {
	args := append(append([]*Poly{}, r.args...), pos, span)
	if what == "bad" {
		return bAtom("bad:"+r.key, args...)
	}
	return szAtom(what+":"+r.key, args...)
}

var idxT, idxN = szAtom("index#T"), szAtom("index#N")

func ge(p *Poly) Con { return Con{p, false} }
func eq(p *Poly) Con { return Con{p, true} }

// specs lists the cases of the definition of a valid encoding.
func (s *Subject) specs(started bool) (out []*decSpec) {
	M, I0 := szAtom("M"), szAtom("I0")
	pos := szAtom("pos0")
	if started {
		pos = pos.Add(I0)
	}
	mk := func(ext *Poly, fixed bool) *decSpec {
		d := &decSpec{s: s, pos: pos, ext: ext, fixed: fixed}
		out = append(out, d)
		return d
	}
	cl := func(d *decSpec, name string, then ...Con) { d.cl = append(d.cl, clause{name: name, then: then}) }
	inRange := func(n *Poly) []Con { return []Con{ge(idxT), ge(n.Sub(idxT).AddC(-1))} }
	tl := s.typLen()
	if w, ok := basicSize[s.kind]; ok {
		d := mk(constP(w), true)
		if s.kind == "bool" {
			cl(d, "value", ge(polyOne.Sub(in1(pos))))
		}
		return
	}
	e := s.child()
	switch s.kind {
	case "bytesN":
		mk(tl, true)
	case "bitvector":
		d := mk(tl, true)
		bl := szAtom("BitLen:"+s.typ.key, s.typ.args...)
		for r := int64(1); r < 8; r++ {
			d.cl = append(d.cl, clause{name: fmt.Sprintf("padding%d", r), guard: []Con{eq(bl.Sub(mkDiv(bl, constP(8)).MulC(8)).AddC(-r))},
				then: []Con{ge(constP(1<<uint(r) - 1).Sub(in1(pos.Add(tl).AddC(-1))))}})
		}
	case "bytes":
		d := mk(M, false)
		cl(d, "limit", ge(s.limit().Sub(M)))
	case "bitlist":
		d := mk(M, false)
		last := in1(pos.Add(M).AddC(-1))
		cl(d, "nonempty", ge(M.AddC(-1)))
		cl(d, "delimiter", ge(last.AddC(-1)))
		for b := int64(0); b < 8; b++ {
			d.cl = append(d.cl, clause{name: fmt.Sprintf("limit%d", b), guard: []Con{ge(last.AddC(-(1 << uint(b)))), ge(constP(2<<uint(b) - 1).Sub(last))},
				then: []Con{ge(s.limit().Sub(M.AddC(-1).MulC(8)).AddC(-b))}})
		}
	case "basicvec", "basiclist":
		w := basicSize[s.elemName()]
		var d *decSpec
		if s.kind == "basicvec" {
			d = mk(tl.MulC(w), true)
		} else {
			d = mk(M, false)
			n := mkDiv(M, constP(w))
			cl(d, "whole", eq(M.Sub(n.MulC(w))))
			cl(d, "limit", ge(s.limit().Sub(n)))
		}
		if s.elemName() == "bool" {
			d.cl = append(d.cl, clause{name: "values", guard: inRange(d.ext), then: []Con{ge(polyOne.Sub(in1(pos.Add(idxT))))}, idx: idxT})
		}
	case "ptr":
		isF := chAtom("IsFixed", e)
		d := mk(chAtom("FixedLen", e), true)
		d.def = []Con{eq(isF.AddC(-1))}
		cl(d, "element", eq(chk("bad", e, pos, d.ext)))
		if !started {
			d = mk(M, false)
			d.def = []Con{eq(isF)}
			cl(d, "element", eq(chk("bad", e, pos, M)), eq(chk("used", e, pos, M).Sub(M)))
		}
	case "vec", "list":
		fl := chAtom("FixedLen", e)
		if s.elemFixed() {
			n := tl
			var d *decSpec
			if s.kind == "vec" {
				d = mk(tl.Mul(fl), true)
			} else {
				d = mk(M, false)
				n = mkDiv(M, fl)
				d.def = []Con{ge(fl.AddC(-1))}
				cl(d, "whole", eq(M.Sub(n.Mul(fl))))
				cl(d, "limit", ge(s.limit().Sub(n)))
			}
			d.cl = append(d.cl, clause{name: "elements", guard: inRange(n), then: []Con{eq(chk("bad", e, pos.Add(idxT.Mul(fl)), fl))}, idx: idxT})
			return
		}
		d := mk(M, false)
		d.def = []Con{eq(M)}
		if s.kind == "vec" {
			cl(d, "count", eq(tl))
		}
		d = mk(M, false)
		d.def = []Con{ge(M.AddC(-1))}
		o0 := in4(pos)
		n := tl
		cl(d, "room", ge(M.AddC(-4)))
		if s.kind == "list" {
			n = mkDiv(o0, constP(4))
			cl(d, "limit", ge(s.limit().Sub(n)))
		}
		cl(d, "count", ge(n.AddC(-1)))
		d.ser = &series{n: n, cnt: n, fixed: n.MulC(4), all: true,
			isVar:  func(j *Poly) []Con { return nil },
			rank:   func(j *Poly) *Poly { return j },
			offPos: func(j *Poly) *Poly { return j.MulC(4) },
			child:  func(j *Poly) Opaque { return e }}
		d.offsets()
	case "struct":
		if s.nf == nil {
			return
		}
		// offset of field j in the fixed part
		at := func(j *Poly) *Poly {
			return s.norm(s.fieldSum(1, "FixedLen", j).Add(s.fieldSum(0, "1", j).MulC(4)))
		}
		var d *decSpec
		if s.allFixed() {
			d = mk(at(s.nf), true)
		} else {
			d = mk(M, false)
			d.ser = &series{n: s.nf, cnt: s.fieldSum(0, "1", s.nf), fixed: at(s.nf),
				isVar:  func(j *Poly) []Con { return []Con{eq(chAtom("IsFixed", s.field(j)))} },
				rank:   func(j *Poly) *Poly { return s.fieldSum(0, "1", j) },
				offPos: at,
				child:  s.field}
			d.offsets()
		}
		g := inRange(s.nf)
		if !s.allFixed() {
			g = append(g, eq(chAtom("IsFixed", s.field(idxT)).AddC(-1)))
		}
		d.cl = append(d.cl, clause{name: "fixed-fields", guard: g, then: []Con{eq(chk("bad", s.field(idxT), pos.Add(at(idxT)), chAtom("FixedLen", s.field(idxT))))}, idx: idxT})
	}
	return
}

// offsets adds the clauses of a series of elements with offsets.
func (d *decSpec) offsets() {
	r := d.ser
	off := func(j *Poly) *Poly { return in4(d.pos.Add(r.offPos(j))) }
	T := idxT
	g := append([]Con{ge(T), ge(r.n.Sub(T).AddC(-1))}, r.isVar(T)...)
	with := func(x ...Con) []Con { return append(append([]Con{}, g...), x...) }
	elem := func(name string, nxt *Poly, last bool, span *Poly, guard []Con, more ...Con) {
		ch := r.child(T)
		p := d.pos.Add(off(T))
		then := append([]Con{ge(span), eq(chk("bad", ch, p, span)), eq(chk("used", ch, p, span).Sub(span))}, more...)
		d.cl = append(d.cl, clause{name: name, guard: guard, then: then, idx: T, nxt: nxt, last: last})
	}
	d.cl = append(d.cl, clause{name: "first-offset", guard: with(eq(r.rank(T))), then: []Con{eq(off(T).Sub(r.fixed))}, idx: T, first: true})
	d.cl = append(d.cl, clause{name: "room-for-offsets", then: []Con{ge(d.ext.Sub(r.fixed))}})
	elem("last-element", nil, true, d.ext.Sub(off(T)), with(eq(r.cnt.Sub(r.rank(T)).AddC(-1))))
	nx := T.AddC(1)
	gn := with(ge(r.n.Sub(T).AddC(-2)))
	if !r.all {
		nx = idxN
		gn = with(ge(nx.Sub(T).AddC(-1)), ge(r.n.Sub(nx).AddC(-1)), eq(r.rank(nx).Sub(r.rank(T)).AddC(-1)))
		gn = append(gn, r.isVar(nx)...)
	}
	elem("elements", nx, false, off(nx).Sub(off(T)), gn)
	// consequences of the order of the offsets and of the sizes of valid elements
	lem := func(idx, nxt *Poly, guard []Con, then ...Con) {
		d.cl = append(d.cl, clause{name: "lemma", guard: guard, then: then, idx: idx, nxt: nxt, lemma: true})
	}
	lem(T, nil, g, ge(off(T).Sub(r.fixed)), ge(d.ext.Sub(off(T))))
	lem(T, nx, gn, ge(d.ext.Sub(off(nx))))
	if r.all {
		lem(nil, nil, nil, ge(d.ext.Sub(r.n.Mul(chAtom("MinLen", r.child(T)).AddC(4)))))
	}
}

// ---------------------------------------------------------------- verdicts

type verdict struct {
	key    string
	accept bool
	ok     bool
	pos    token.Pos
	msg    string
}

var verdictMemo = map[string][]verdict{}

func (c *Ctx) verdictsOf(s *Subject, m string) []verdict {
	k := fmt.Sprintf("%v/%s/%s", c.w.little, s.name, m)
	if v, ok := verdictMemo[k]; ok {
		return v
	}
	v := c.judge(s, m)
	verdictMemo[k] = v
	return v
}

func isStarted(o *Outcome) bool { return o.started }

func (c *Ctx) judge(s *Subject, m string) (out []verdict) {
	ret, _ := c.decided(s, m)
	for _, o := range ret {
		if o.kind != "return" {
			continue
		}
		okO := c.okOutcome(o)
		if !okO && hasEvent(o.st.events, "ioerr", "short") != nil {
			continue
		}
		for i, d := range s.specs(o.started) {
			x := &scene{f: o.st.facts.Clone(), free: map[int]bool{}}
			for _, a := range []*Poly{idxT, idxN} {
				x.free[a.SingleAtom().id] = true
			}
			for _, g := range d.def {
				x.add(g)
			}
			if x.infeasible() {
				continue
			}
			tag := ""
			if i > 0 {
				tag = fmt.Sprintf("#%d", i)
			}
			if okO {
				out = append(out, c.acceptance(s, m, o, d, x, tag)...)
			} else {
				out = append(out, c.refusal(s, m, o, d, x, tag))
			}
		}
	}
	return
}

func (c *Ctx) acceptance(s *Subject, m string, o *Outcome, d *decSpec, x *scene, tag string) (out []verdict) {
	end := o.st.ghostGet("pos:" + streamR)
	read := end.Sub(d.pos)
	v := func(key string, ok bool, format string, a ...interface{}) {
		out = append(out, verdict{"accept:" + s.name + tag + ":" + m + ":" + key, true, ok, o.pos, fmt.Sprintf(format, a...)})
	}
	if d.fixed {
		v("extent", s.eq(x.f, read, d.ext), "%s of %s succeeds after reading %s bytes instead of %s", m, s.name, read, d.ext)
	} else {
		x.add(eq(read.Sub(d.ext)))
		x.solve()
		if x.infeasible() {
			return
		}
	}
	loops := readLoops(o)
	for i := range d.cl {
		cl := &d.cl[i]
		if cl.lemma {
			continue
		}
		y := x.clone()
		for _, g := range cl.guard {
			y.add(g)
		}
		y.solve()
		var items []item
		for _, t := range cl.then {
			y.goal = append(y.goal, t.p)
		}
		if cl.idx != nil {
			items = d.instances(loops, cl)
		}
		done := func(z *scene) bool {
			for _, t := range cl.then {
				if !z.entails(t) && !byByte(z, t) {
					return false
				}
			}
			return true
		}
		ok := y.closeAll(items, done, 6)
		if !ok && len(dbgClause) > 0 && strings.Contains("accept:"+s.name+":"+m+":"+cl.name, dbgClause) {
			dumpScene(o, cl, y, items)
		}
		v(cl.name, ok, "%s of %s can accept an input of which the clause %q of a valid encoding is not established: %s", m, s.name, cl.name, consStr(cl.then))
	}
	return
}

func consStr(cs []Con) string {
	var s []string
	for _, c := range cs {
		s = append(s, c.String())
	}
	return strings.Join(s, ", ")
}

// byByte proves a bound on an input byte value by value.
func byByte(x *scene, t Con) bool {
	p := x.n(t.p)
	var b *Atom
	p.Atoms(func(a *Atom) {
		if strings.HasPrefix(a.op, "in1:") {
			b = a
		}
	})
	if b == nil {
		return false
	}
	for v := int64(0); v < 256; v++ {
		f := x.f.Clone()
		f.add(eq(atomP(b).AddC(-v)))
		q := p.SubstAtom(b, constP(v))
		if f.entails(Con{q, t.eq}) {
			continue
		}
		g := f.subst(func(r *Poly) *Poly { return r.SubstAtom(b, constP(v)) })
		if g.bad || !g.feasibleWith(nil) {
			continue
		}
		return false
	}
	return true
}

// instances of the loops at the indices a clause speaks about.
func (d *decSpec) instances(loops []*Event, cl *clause) (items []item) {
	add := func(ev *Event, t *Poly) {
		items = append(items, item{guard: []Con{ge(t), ge(ev.n.Sub(t).AddC(-1))}, alts: instance(ev, t), what: "iteration"})
		items = append(items, item{guard: []Con{eq(t), ge(ev.n.AddC(-1))}, then: initLink(ev, t), what: "first"})
	}
	T := cl.idx
	if d.ser != nil && !d.ser.all && cl.name != "fixed-fields" {
		r := d.ser
		for _, ev := range loops {
			sk := d.skips(ev)
			add(ev, T)
			if cl.first {
				items = append(items, item{guard: []Con{ge(ev.n.Sub(T))}, then: d.stutter(ev, sk, nil, T)})
			}
			if cl.last {
				items = append(items, item{guard: []Con{eq(ev.n.Sub(r.n))}, then: d.stutter(ev, sk, T.AddC(1), ev.n)})
			}
			if cl.nxt != nil {
				items = append(items, item{guard: []Con{ge(ev.n.Sub(cl.nxt))}, then: d.stutter(ev, sk, T.AddC(1), cl.nxt)})
				add(ev, cl.nxt)
			}
		}
		if cl.nxt != nil {
			items = append(items, item{unify: d.ranks(cl.nxt), what: "ranks"})
		}
		return
	}
	for _, ev := range loops {
		add(ev, T)
		if cl.nxt != nil {
			add(ev, cl.nxt)
		}
	}
	// iterations may be numbered from the second or before the first element
	for _, ev := range loops {
		if len(loops) == 1 || d.ser != nil {
			add(ev, T.AddC(-1))
		}
		if cl.nxt == nil && !cl.last {
			add(ev, T.AddC(1))
		}
	}
	return
}

// skips lists the loop variables that iterations over fixed-size fields leave alone.
func (d *decSpec) skips(ev *Event) map[string]bool {
	out := map[string]bool{}
	for v := range ev.loop.vars {
		out[v] = true
	}
	isVar := d.ser.isVar(ev.loop.k)
	for _, p := range ev.loop.paths {
		x := &scene{f: p.facts.Clone()}
		for _, g := range isVar {
			x.add(eq(g.p.AddC(-1)))
		}
		if x.infeasible() {
			continue
		}
		for v := range out {
			n, ok := p.next[v]
			if !ok || !x.entails(eq(n.Sub(ev.loop.vars[v]))) {
				delete(out, v)
			}
		}
	}
	return out
}

// stutter: between the indices only fixed-size fields are visited. from nil is the start of the loop.
func (d *decSpec) stutter(ev *Event, sk map[string]bool, from, to *Poly) (out []Con) {
	b := renamer(ev, to)
	for _, v := range sortedKeys(sk) {
		s := ev.loop.vars[v]
		if s == nil || s.Mentions(func(a *Atom) bool { return a == ev.loop.k.SingleAtom() }) {
			continue
		}
		if from == nil {
			if i := ev.loop.inits[v]; i != nil {
				out = append(out, eq(b(s).Sub(i)))
			}
			continue
		}
		out = append(out, eq(b(s).Sub(renamer(ev, from)(s))))
	}
	return
}

// ranks: two variable-size fields of equal rank are the same field.
func (d *decSpec) ranks(nx *Poly) func(x *scene) bool {
	r := d.ser
	return func(x *scene) bool {
		tgt := x.n(nx)
		seen := map[int]bool{}
		var hits []*Atom
		for _, c := range x.f.cons {
			c.p.Mentions(func(a *Atom) bool {
				if strings.HasPrefix(a.op, "next:") && !seen[a.id] {
					seen[a.id] = true
					hits = append(hits, a)
				}
				return false
			})
		}
		for _, a := range hits {
			q := atomP(a)
			if q.Eq(tgt) || tgt.Mentions(func(b *Atom) bool { return a == b }) {
				continue
			}
			ok := x.f.entails(eq(r.rank(q).Sub(r.rank(tgt))))
			for _, p := range []*Poly{q, tgt} {
				for _, g := range r.isVar(p) {
					ok = ok && x.f.entails(g)
				}
			}
			if ok {
				g := func(p *Poly) *Poly { return p.SubstAtom(a, tgt) }
				x.f = x.f.subst(g)
				x.subs = append(x.subs, g)
				return true
			}
		}
		return false
	}
}

func (c *Ctx) refusal(s *Subject, m string, o *Outcome, d *decSpec, x *scene, tag string) verdict {
	loops := readLoops(o)
	M := szAtom("M")
	if d.fixed {
		start := polyZero
		if o.started {
			start = szAtom("I0")
		}
		x.add(ge(M.Sub(start).Sub(d.ext)))
	}
	var items []item
	inst := func(cl *clause, t, nx *Poly) {
		sub := func(cs []Con) (out []Con) {
			for _, q := range cs {
				p := q.p
				if t != nil {
					p = p.Subst(func(a *Atom) *Poly {
						switch a {
						case idxT.SingleAtom():
							return t
						case idxN.SingleAtom():
							return nx
						}
						return nil
					})
				}
				out = append(out, Con{p, q.eq})
			}
			return
		}
		items = append(items, item{guard: sub(cl.guard), then: sub(cl.then), what: cl.name})
	}
	var simple []item
	for i := range d.cl {
		if cl := &d.cl[i]; cl.idx == nil {
			if len(cl.guard) == 0 {
				for _, t := range cl.then {
					x.add(t)
				}
				continue
			}
			simple = append(simple, item{guard: cl.guard, then: cl.then, what: cl.name})
		}
	}
	// indices the outcome speaks about
	var idx []*Poly
	seen := map[string]bool{}
	addIdx := func(p *Poly) {
		if !seen[p.Key()] {
			seen[p.Key()] = true
			idx = append(idx, p)
		}
	}
	prev := map[string]*Poly{}
	for _, ev := range loops {
		partial := ev.n.Eq(ev.loop.k)
		if d.ser != nil && !d.ser.all {
			r := d.ser
			if partial {
				addIdx(ev.loop.k)
			}
			// the last variable-size field visited before the end of the loop
			pv := szAtom("index#P" + ev.loop.id)
			prev[ev.loop.k.Key()] = pv
			sk := d.skips(ev)
			some := ge(r.rank(ev.n).AddC(-1))
			def := append([]Con{ge(pv), ge(ev.n.Sub(pv).AddC(-1)), eq(r.rank(ev.n).Sub(r.rank(pv)).AddC(-1))}, r.isVar(pv)...)
			def = append(def, d.stutter(ev, sk, pv.AddC(1), ev.n)...)
			items = append(items, item{guard: []Con{some}, then: def, alts: nil, what: "previous"})
			items = append(items, item{guard: append([]Con{some}, def[2]), alts: instance(ev, pv), what: "previous iteration"})
			items = append(items, item{guard: []Con{eq(r.rank(ev.n))}, then: d.stutter(ev, sk, nil, ev.n), what: "none before"})
			items = append(items, item{unify: d.ranks(ev.loop.k), what: "ranks"})
			addIdx(pv)
			continue
		}
		items = append(items, item{guard: []Con{ge(ev.n.AddC(-1))}, alts: instance(ev, ev.n.AddC(-1)), what: "previous iteration"})
		items = append(items, item{guard: []Con{eq(ev.n)}, then: initLink(ev, ev.n), what: "none before"})
		if partial {
			addIdx(ev.loop.k)
		}
		addIdx(ev.n.AddC(-1))
	}
	// indices of the element codecs that refused, and of the bytes looked at
	if d.ser == nil {
		for i := range o.st.events {
			if ev := &o.st.events[i]; ev.kind == "child" {
				if a := ev.val.(Opaque).args; len(a) == 1 && s.kind == "struct" {
					addIdx(a[0])
				}
			}
		}
	}
	if d.ser != nil && d.ser.all {
		addIdx(polyZero)
		addIdx(d.ser.n.AddC(-1))
	} else {
		addIdx(polyZero)
	}
	for i := range d.cl {
		cl := &d.cl[i]
		if cl.idx == nil {
			continue
		}
		for _, t := range idx {
			if cl.nxt == nil {
				inst(cl, t, nil)
				continue
			}
			if d.ser.all {
				inst(cl, t, nil)
				continue
			}
			for _, u := range d.nextOf(o, t, idx) {
				inst(cl, t, u)
			}
		}
	}
	items = append(items, simple...)
	done := func(z *scene) bool { return false }
	y := x.clone()
	y.solve()
	ok := y.closeAll(items, done, 8) || c.byteCases(x, simple)
	key := "refuse:" + s.name + tag + ":" + m
	if !ok && len(dbgClause) > 0 && strings.Contains(key, dbgClause) {
		dumpScene(o, nil, x, items)
		dbgLeaf = true
		y = x.clone()
		y.solve()
		y.closeAll(items, done, 8)
		dbgLeaf = false
	}
	pos := o.pos
	return verdict{key, false, ok, pos, fmt.Sprintf("%s of %s can refuse a valid encoding (%s)", m, s.name, where(c, o))}
}

// byteCases refutes the scene for every value of the input byte it depends on.
func (c *Ctx) byteCases(x *scene, simple []item) bool {
	var bs []*Atom
	seen := map[int]bool{}
	for _, q := range x.f.cons {
		q.p.Mentions(func(a *Atom) bool {
			if strings.HasPrefix(a.op, "in1:") && !seen[a.id] {
				seen[a.id] = true
				bs = append(bs, a)
			}
			return false
		})
	}
	if len(bs) != 1 {
		return false
	}
	for v := int64(0); v < 256; v++ {
		g := func(r *Poly) *Poly { return r.SubstAtom(bs[0], constP(v)) }
		y := &scene{f: x.f.subst(g), free: x.free}
		y.subs = append(append([]func(*Poly) *Poly{}, x.subs...), g)
		if !y.closeAll(simple, func(*scene) bool { return false }, 8) {
			return false
		}
	}
	return true
}

// nextOf: candidates for the variable-size field after t.
func (d *decSpec) nextOf(o *Outcome, t *Poly, idx []*Poly) (out []*Poly) {
	seen := map[string]bool{}
	add := func(p *Poly) {
		if !p.Eq(t) && !seen[p.Key()] {
			seen[p.Key()] = true
			out = append(out, p)
		}
	}
	for _, u := range idx {
		if _, c := u.Const(); !c {
			add(u)
		}
	}
	for _, c := range o.st.facts.cons {
		c.p.Mentions(func(a *Atom) bool {
			if strings.HasPrefix(a.op, "next:") && len(a.args) == 1 && a.args[0].Eq(t) {
				add(atomP(a))
			}
			return false
		})
	}
	return
}

func where(c *Ctx, o *Outcome) string {
	for i := len(o.st.events) - 1; i >= 0; i-- {
		if ev := &o.st.events[i]; ev.fn != nil {
			return "after " + ev.kind + " in " + fnName(ev.fn)
		}
	}
	return "at entry"
}

// ---------------------------------------------------------------- the top-level functions

func (c *Ctx) apiVerdicts(s *Subject, m string) (out []verdict) {
	ret, _ := c.decided(s, m)
	M, pos := szAtom("M"), szAtom("pos0")
	T := Opaque{kind: "ssz", key: "S:T"}
	for _, o := range ret {
		if o.kind != "return" {
			continue
		}
		okO := c.okOutcome(o)
		if !okO && hasEvent(o.st.events, "ioerr", "short") != nil {
			continue
		}
		for _, fixed := range []bool{true, false} {
			x := &scene{f: o.st.facts.Clone()}
			isF := chAtom("IsFixed", T)
			var valid []Con
			if fixed {
				x.add(eq(isF.AddC(-1)))
				fl := chAtom("FixedLen", T)
				valid = []Con{eq(M.Sub(fl)), eq(chk("bad", T, pos, fl))}
			} else {
				x.add(eq(isF))
				valid = []Con{eq(chk("bad", T, pos, M)), eq(chk("used", T, pos, M).Sub(M))}
			}
			if x.infeasible() {
				continue
			}
			if okO {
				for i, t := range valid {
					out = append(out, verdict{fmt.Sprintf("accept:zssz:%s:%v%d", m, fixed, i), true, x.entails(t), o.pos, fmt.Sprintf("%s can succeed on an input of which it is not established that %s", m, t)})
				}
				continue
			}
			for _, t := range valid {
				x.add(t)
			}
			// valid encodings have a length in the codec's bounds
			x.add(ge(M.Sub(chAtom("MinLen", T))))
			x.add(ge(chAtom("MaxLen", T).Sub(M)))
			out = append(out, verdict{fmt.Sprintf("refuse:zssz:%s:%v", m, fixed), false, x.infeasible(), o.pos, fmt.Sprintf("%s can refuse a valid encoding (%s)", m, where(c, o))})
		}
	}
	return
}

func (c *Ctx) allVerdicts(s *Subject, m string) []verdict {
	if s.kind == "api" {
		return c.apiVerdicts(s, m)
	}
	return c.verdictsOf(s, m)
}

func ruleVerdict(c *Ctx, accept bool) {
	c.eachAll(func(s *Subject) {
		for _, m := range []string{"Decode", "DryCheck"} {
			if c.decodeOnly && m != "Decode" {
				continue
			}
			for _, v := range c.allVerdicts(s, m) {
				if v.accept == accept {
					c.ob(v.key, v.ok, v.pos, "%s", v.msg)
				}
			}
		}
	})
}

// ruleAgree: the two are compared clause by clause.
func ruleAgree(c *Ctx) {
	c.eachAll(func(s *Subject) {
		by := map[string]map[string]*verdict{}
		for _, m := range []string{"Decode", "DryCheck"} {
			for _, v := range c.allVerdicts(s, m) {
				v := v
				k := strings.Replace(v.key, ":"+m, "", 1)
				if by[k] == nil {
					by[k] = map[string]*verdict{}
				}
				if old := by[k][m]; old == nil || old.ok && !v.ok {
					by[k][m] = &v
				}
			}
		}
		for _, k := range sortedKeys(by) {
			a, b := by[k]["Decode"], by[k]["DryCheck"]
			okA, okB := a == nil || a.ok, b == nil || b.ok
			bad, m := a, "DryCheck"
			if okA {
				bad, m = b, "Decode"
			}
			if okA != okB {
				c.ob("agree:"+k, false, bad.pos, "%s; %s does not", bad.msg, m)
			} else {
				c.ob("agree:"+k, true, 0, "")
			}
		}
	})
}
