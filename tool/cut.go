package main

// Cutpoint analysis of the merkleization code.
//
// A subtree of the padded tree over the leaves 0,1,2,... is named by its level and its index:
// node(l,x) covers the leaves [x*2^l, (x+1)*2^l), of which those at or beyond count are zero
// chunks. The analysis tracks which subtree every 32-byte value in memory is the root of. The only
// equations used are
//
//	leaf(i)                           = node(0,i)          for i < count
//	32 zero bytes                     = zero(0)
//	ZeroHashes[j]                     = zero(j)            the root of 2^j zero chunks
//	Combi(node(l,2y), node(l,2y+1))   = node(l+1,y)
//	zero(l)                           = node(l,x)          when x*2^l >= count
//
// Loops that fetch leaves are summarised by an inductive invariant over the number K of leaves
// taken so far; all other loops have at most 65 rounds and are followed round by round, joining the
// abstract states after each round.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

type cutMode struct {
	count, limit, index *Poly
	probe               bool
	checked             int               // discharged conditions of loop invariants
	explore             bool              // only looking for the memory a loop changes
	levels              int               // entries of the zero-hash table
	bad                 map[string]string // position -> problem
	combis, leaves      map[string]bool
	loops               int
	zh                  int             // region of the zero-hash table
	dull                map[string]bool // inequations that are no bits
	k                   []*Poly         // counters of the enclosing leaf loops
}

func (c *cutMode) problem(st *State, format string, a ...interface{}) {
	if _, ok := c.bad[st.where()]; ok {
		return
	}
	c.bad[st.where()] = fmt.Sprintf(format, a...)
	if os.Getenv("ZCUT") != "" {
		fmt.Fprintf(os.Stderr, "PROBLEM %s: %s\n%s\n", st.where(), fmt.Sprintf(format, a...), factsStr(st.facts, newFacts()))
	}
}

func pow2(j int) *Poly { return constB(new(big.Int).Lsh(bigOne, uint(j))) }

func divPow(x *Poly, j int) *Poly { return shrP(x, j) }

func bitP(x *Poly, j int) *Poly { return divPow(x, j).Sub(divPow(x, j+1).MulC(2)) }

// sibling of x: x^1
func sibP(x *Poly) *Poly {
	return x.AddC(1).Sub(x.Sub(mkDiv(x, constP(2)).MulC(2)).MulC(2))
}

func hNode(l int, x *Poly) *HTerm { return &HTerm{op: "node", n: []*Poly{constP(int64(l)), x}} }
func hZero(l int) *HTerm          { return &HTerm{op: "zero", n: []*Poly{constP(int64(l))}} }

func hLevel(h *HTerm) int {
	if h == nil || len(h.n) == 0 {
		return -1
	}
	switch h.op {
	case "node", "zero", "slot", "bslot":
		if l, ok := h.n[0].Int64(); ok && l >= 0 && l <= 64 {
			return int(l)
		}
	}
	return -1
}

func (c *cutMode) termOf(b Bytes) *HTerm {
	if h := wholeBlob(b); h != nil {
		return h
	}
	if len(b.segs) == 1 {
		if r, ok := b.segs[0].c.(CRaw); ok && r.r == c.zh {
			if q := exactQuot(r.off, constP(32)); q != nil {
				return &HTerm{op: "zero", n: []*Poly{q}}
			}
		}
	}
	for _, s := range b.segs {
		if _, ok := s.c.(CZero); !ok {
			return nil
		}
	}
	if len(b.segs) == 0 {
		return nil
	}
	return hZero(0)
}

func (st *State) termAt(r int, off *Poly) *HTerm {
	return st.eng.cut.termOf(Bytes{constP(32), st.readBytes(r, off, constP(32))})
}

// prove with case distinctions over the signs of the given polynomials
func prove(f *Facts, c Cond, splits ...*Poly) bool {
	if f.entailsCond(c) {
		return true
	}
	if len(splits) == 0 {
		return false
	}
	p := splits[0]
	for _, s := range []Cond{{p.AddC(-1), '+'}, {p, '='}, {p.Neg().AddC(-1), '+'}} {
		if !f.feasibleCond(s) {
			continue
		}
		g := f.Clone()
		addCond(g, s)
		if g.bad {
			continue
		}
		if !prove(g, c, splits[1:]...) {
			return false
		}
	}
	return true
}

func addCond(f *Facts, c Cond) {
	switch c.op {
	case '+':
		f.add(Con{c.p, false})
	case '=':
		f.add(Con{c.p, true})
	case '!':
		f.addNe(c.p)
	}
}

func (c *cutMode) splitsFor(l int) []*Poly {
	if c.index == nil {
		return nil
	}
	var out []*Poly
	out = append(out, bitP(c.index, l))
	for _, k := range append([]*Poly{c.count}, c.k...) {
		out = append(out, divPow(k, l+1).Sub(divPow(c.index, l+1)))
	}
	return out
}

func (c *cutMode) sib(l int) *Poly { return sibP(divPow(c.index, l)) }

func eqC(a, b *Poly) Cond { return Cond{a.Sub(b), '='} }
func geC(a, b *Poly) Cond { return Cond{a.Sub(b), '+'} }

// asNode: under f, h is the root of node(l,x)
func (c *cutMode) asNode(f *Facts, h *HTerm, l int, x *Poly) bool {
	if hLevel(h) != l {
		return false
	}
	switch h.op {
	case "node":
		return h.n[1].Eq(x) || prove(f, eqC(h.n[1], x), c.splitsFor(l)...)
	case "zero":
		return prove(f, geC(x.Mul(pow2(l)), c.count), c.splitsFor(l)...)
	case "slot":
		k := h.n[1]
		return f.entailsCond(eqC(bitP(k, l), polyOne)) && prove(f, eqC(x, divPow(k, l).AddC(-1)))
	case "bslot":
		k := h.n[1]
		s := c.sib(l)
		if !x.Eq(s) && !prove(f, eqC(x, s), c.splitsFor(l)...) {
			return false
		}
		g := f.Clone()
		addCond(g, geC(s.AddC(1).Mul(pow2(l)), k.AddC(1)))
		return g.bad || prove(g, geC(s.Mul(pow2(l)), c.count), c.splitsFor(l)...)
	}
	return false
}

// asBranch: under f, h is what the proof holds at level l once k leaves have been taken
func (c *cutMode) asBranch(f *Facts, h *HTerm, l int, k *Poly) bool {
	s := c.sib(l)
	done := geC(k, s.AddC(1).Mul(pow2(l)))
	if h != nil && h.op == "bslot" && hLevel(h) == l {
		if h.n[1].Eq(k) {
			return true
		}
		if h.n[1].AddC(1).Eq(k) {
			return prove(f, Cond{s.AddC(1).Mul(pow2(l)).Sub(k), '!'}, c.splitsFor(l)...)
		}
	}
	a := f.Clone()
	addCond(a, done)
	if !(a.bad || c.asNode(a, h, l, s) || !a.feasibleWith(nil)) {
		return false
	}
	b := f.Clone()
	addCond(b, done.Not())
	if b.bad || h != nil && h.op == "zero" && hLevel(h) == l {
		return true
	}
	return prove(f, done, c.splitsFor(l)...)
}

func (c *cutMode) combi(st *State, a, b *HTerm) *HTerm {
	c.combis[st.top().fn.Name()] = true
	unk := &HTerm{op: "unk", key: st.fresh("h")}
	l := hLevel(a)
	if a == nil || b == nil || l < 0 || hLevel(b) != l || l >= 64 {
		c.problem(st, "combines %s with %s, which are not roots of the same height", hShow(a), hShow(b))
		return unk
	}
	if a.op == "zero" && b.op == "zero" {
		return hZero(l + 1)
	}
	parent := func(h *HTerm) *Poly {
		switch h.op {
		case "node":
			return mkDiv(h.n[1], constP(2))
		case "slot":
			return divPow(h.n[1], l+1)
		case "bslot":
			return divPow(c.index, l+1)
		}
		return nil
	}
	for _, h := range []*HTerm{a, b} {
		y := parent(h)
		if y == nil {
			continue
		}
		if c.asNode(st.facts, a, l, y.MulC(2)) && c.asNode(st.facts, b, l, y.MulC(2).AddC(1)) {
			return hNode(l+1, y)
		}
	}
	c.problem(st, "combines %s with %s, which are not a left and a right sibling", hShow(a), hShow(b))
	return unk
}

func hShow(h *HTerm) string {
	if h == nil {
		return "an unknown value"
	}
	switch h.op {
	case "node":
		return fmt.Sprintf("the subtree %s at level %s", h.n[1], h.n[0])
	case "zero":
		return fmt.Sprintf("the zero hash of level %s", h.n[0])
	case "slot":
		return fmt.Sprintf("the pending left subtree of level %s after %s leaves", h.n[0], h.n[1])
	case "bslot":
		return fmt.Sprintf("the proof entry of level %s after %s leaves", h.n[0], h.n[1])
	}
	return h.op
}

// ---------------------------------------------------------------- tree depths

func init() {
	// depth(x): the number of levels of the smallest tree of x leaves, with depth(1) = 1
	axiomTab["depth"] = depthAxioms
	axiomTab["len64"] = depthAxioms
}

func depthAxioms(f *Facts, a *Atom) []Con {
	lo, hi := int64(0), int64(64)
	for _, c := range f.cons {
		var coef *big.Int
		ok := true
		for _, t := range c.p.terms {
			if len(t.mono) == 0 {
				continue
			}
			if len(t.mono) == 1 && t.mono[0] == a.id {
				coef = t.c
				continue
			}
			ok = false
			break
		}
		if !ok || coef == nil || coef.CmpAbs(bigOne) != 0 {
			continue
		}
		k := new(big.Int).Mul(c.p.ConstTerm(), coef) // a + k >= 0 (coef 1) or a - k... with sign
		if !k.IsInt64() {
			continue
		}
		v := -k.Int64()
		if (coef.Sign() > 0 || c.eq) && v > lo {
			lo = v
		}
		if (coef.Sign() < 0 || c.eq) && v < hi {
			hi = v
		}
	}
	if lo > hi || lo > 64 || hi < 0 {
		return []Con{{constP(-1), false}}
	}
	x := a.args[0]
	return []Con{{x.Sub(depthLow(a.op, lo)), false}, {depthHigh(a.op, hi).Sub(x), false}}
}

func depthConst(x *big.Int) int64 {
	if x.Sign() == 0 {
		return 0
	}
	d := new(big.Int).Sub(x, bigOne).BitLen()
	if d == 0 {
		d = 1
	}
	return int64(d)
}

// settle replaces tree depths that have become known by their value.
func (c *cutMode) settle(st *State) {
	// a bit that is not zero is one
	for {
		f := st.facts
		if f.bad {
			return
		}
		hit := -1
		var eq *Poly
		for i, p := range f.ne {
			if c.dull[p.Key()] {
				continue
			}
			q, _ := tighten(p, false)
			if q.ConstTerm().Sign() != 0 {
				continue
			}
			o := &Facts{keys: map[string]bool{}, known: map[int]*big.Int{}}
			for _, s := range []*Poly{q, q.Neg()} {
				if o.entails(Con{s, false}) && o.entails(Con{polyOne.Sub(s), false}) {
					hit, eq = i, s.AddC(-1)
				}
			}
			if hit >= 0 {
				break
			}
			c.dull[p.Key()] = true
		}
		if hit < 0 {
			break
		}
		w := st.wfacts()
		w.ne = append(append([]*Poly{}, w.ne[:hit]...), w.ne[hit+1:]...)
		w.add(Con{eq, true})
	}
	c.exclude(st)
	for {
		var a *Atom
		ids := make([]int, 0, len(st.facts.known))
		for id := range st.facts.known {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			if x := atomTab[id]; x.op == "depth" || x.op == "len64" {
				a = x
				break
			}
		}
		if a == nil {
			return
		}
		v := st.facts.known[a.id]
		ax := axiomTab[a.op](st.facts, a)
		f := st.wfacts()
		for _, x := range ax {
			f.add(x)
		}
		if f.bad = f.bad || !f.feasibleWith(nil); f.bad {
			return
		}
		st.eng.substState(st, a, constB(v), nil)
		delete(st.wfacts().known, a.id)
	}
}

// exclude: a depth that is known to be at least (at most) v and not v is more (less).
func (c *cutMode) exclude(st *State) {
	for again := true; again; {
		again = false
		f := st.facts
		for i, p := range f.ne {
			a, v := singleOffset(p)
			if a == nil || a.op != "depth" && a.op != "len64" || v < 0 || v > 64 {
				continue
			}
			x := atomP(a)
			var to *Poly
			switch {
			case f.entailsCond(geC(a.args[0], depthLow(a.op, v))) || f.entailsCond(geC(x, constP(v))):
				to = x.AddC(-v - 1)
			case f.entailsCond(geC(depthHigh(a.op, v), a.args[0])) || f.entailsCond(geC(constP(v), x)):
				to = constP(v - 1).Sub(x)
			default:
				continue
			}
			w := st.wfacts()
			w.ne = append(append([]*Poly{}, w.ne[:i]...), w.ne[i+1:]...)
			w.add(Con{to, false})
			if w.bad || !w.feasibleWith(nil) {
				w.bad = true
				return
			}
			again = true
			break
		}
	}
}

// singleOffset: p = ±(a - v)
func singleOffset(p *Poly) (*Atom, int64) {
	k := p.ConstTerm()
	q := p.Sub(constB(k))
	if a := q.SingleAtom(); a != nil && k.IsInt64() {
		return a, -k.Int64()
	}
	if a := q.Neg().SingleAtom(); a != nil && k.IsInt64() {
		return a, k.Int64()
	}
	return nil, 0
}

func depthLow(op string, l int64) *Poly {
	if op == "depth" {
		if l <= 1 {
			return constP(l)
		}
		return pow2(int(l - 1)).AddC(1)
	}
	if l == 0 {
		return polyZero
	}
	return pow2(int(l - 1))
}

func depthHigh(op string, h int64) *Poly {
	if op == "depth" {
		if h == 0 {
			return polyZero
		}
		return pow2(int(h))
	}
	return pow2(int(h)).AddC(-1)
}

// final settles the depths which the constraints of a finished path determine.
func (c *cutMode) final(st *State) {
	seen := map[int]bool{}
	for _, k := range append([]Con{}, st.facts.cons...) {
		for _, t := range k.p.terms {
			for _, id := range t.mono {
				if op := atomTab[id].op; seen[id] || op != "depth" && op != "len64" {
					continue
				}
				seen[id] = true
				a := atomP(atomTab[id])
				lo, hi := int64(0), int64(64) // the greatest bound that holds
				for lo < hi {
					m := (lo + hi + 1) / 2
					if st.facts.entailsCond(geC(a, constP(m))) {
						lo = m
					} else {
						hi = m - 1
					}
				}
				if st.facts.entailsCond(eqC(a, constP(lo))) {
					st.wfacts().add(Con{a.AddC(-lo), true})
				}
			}
		}
	}
	c.settle(st)
}

// ---------------------------------------------------------------- loops

func (e *Engine) cutLoop(st *State, l *natLoop, prev *ssa.BasicBlock, base int) ([]*State, []*Outcome) {
	c := e.cut
	// loops are followed round by round from levels that are known
	settle := false
	for _, v := range st.phiVals(l.header, prev) {
		if x, ok := v.(*Poly); ok {
			for _, t := range x.terms {
				for _, id := range t.mono {
					if a := atomTab[id]; a.op == "depth" || a.op == "len64" {
						v := st.enumerate(atomP(a), 65)
						st.assume(Cond{atomP(a).AddC(-v), '='})
						settle = true
					}
				}
			}
		}
	}
	if settle {
		c.settle(st)
	}
	p := st.Clone()
	p.watch = append(p.watch[:len(p.watch):len(p.watch)], &loopWatch{depth: len(st.frames), loop: l})
	p.enter(l.header, prev)
	save := c.bad
	c.bad = map[string]string{}
	was := c.probe
	c.probe = true
	isLeaf := false
	for _, o := range e.run([]*State{p}, base) {
		isLeaf = isLeaf || o.reason == "leaf-probe"
	}
	c.probe = was
	c.bad = save
	if was {
		// only looking for the first leaf
		if isLeaf {
			undecided("leaf-probe")
		}
		return e.unrollJoin(st, l, prev, base)
	}
	c.loops++
	if isLeaf {
		return e.leafLoop(st, l, prev, base)
	}
	return e.unrollJoin(st, l, prev, base)
}

// leave continues after the loop, for outcomes other than back edges.
func (e *Engine) leave(outs []*Outcome, base int, adjust func(*State) bool) (work []*State, res []*Outcome) {
	for _, o := range outs {
		s := o.st
		switch o.kind {
		case "backedge":
			continue
		case "undecided", "panic":
			s.watch = s.watch[:len(s.watch)-1]
			res = append(res, o)
			continue
		}
		s = s.Clone()
		s.watch = s.watch[:len(s.watch)-1]
		if adjust != nil && !adjust(s) {
			continue
		}
		if o.kind == "exit" {
			f := s.frame()
			f.block = o.prev
			w, os, cont := e.transfer(s, o.block, base)
			if cont {
				work = append(work, s)
			}
			work = append(work, w...)
			res = append(res, os...)
			continue
		}
		d := len(s.frames)
		if n := len(s.watch); n > 0 && s.watch[n-1].depth == d {
			o2 := *o
			o2.st = s
			res = append(res, &o2)
			continue
		}
		f := s.top()
		s.frames = s.frames[:d-1]
		if len(s.frames) == base {
			o2 := *o
			o2.st = s
			res = append(res, &o2)
			continue
		}
		s.finishCall(f.callee, o.res)
		work = append(work, s)
	}
	return
}

func (e *Engine) unrollJoin(st *State, l *natLoop, prev *ssa.BasicBlock, base int) (work []*State, res []*Outcome) {
	c := e.cut
	entry := st.Clone()
	s := st.Clone()
	s.watch = append(s.watch[:len(s.watch):len(s.watch)], &loopWatch{depth: len(st.frames), loop: l})
	s.enter(l.header, prev)
	cur := []*State{s}
	for it := 0; ; it++ {
		if it > 140 {
			undecided("loop at %s does not end within 140 rounds", e.fset.Position(instrPos(l.header.Instrs[0])))
		}
		outs := e.run(cur, base)
		var backs []*Outcome
		for _, o := range outs {
			if o.kind == "backedge" {
				backs = append(backs, o)
			}
		}
		w, r := e.leave(outs, base, nil)
		work, res = append(work, w...), append(res, r...)
		if len(backs) == 0 || c.explore && it >= 2 {
			break
		}
		cur = nil
		nb := len(backs)
		for len(backs) > 0 {
			o := backs[0]
			backs = backs[1:]
			a, phis := o.st.Clone(), o.phis
			var rest []*Outcome
			for _, b := range backs {
				if j, jp := e.join(entry, a, phis, b.st, b.phis); j != nil {
					a, phis = j, jp
				} else {
					rest = append(rest, b)
				}
			}
			backs = rest
			a.enterWith(l.header, o.prev, phis)
			cur = append(cur, a)
		}
		if os.Getenv("ZCUT") != "" {
			fmt.Fprintf(os.Stderr, "%s loop %s round %d: %d backs -> %d states, %d cons %d ne\n", time.Now().Format("05.000"), e.fset.Position(instrPos(l.header.Instrs[0])), it, nb, len(cur), len(cur[0].facts.cons), len(cur[0].facts.ne))
		}
		if len(cur) > 40 {
			undecided("states of the loop at %s cannot be joined", e.fset.Position(instrPos(l.header.Instrs[0])))
		}
	}
	return
}

// onlyOld: v refers to no memory allocated after n regions existed.
func onlyOld(v Value, n int) bool {
	switch x := v.(type) {
	case nil, *Poly, Bool, Str, Bytes, Opaque:
		return true
	case Ptr:
		return x.r < n
	case Slice:
		return x.p.r < n
	}
	return false
}

// join of two states at the same back edge; nil if they must be kept apart.
func (e *Engine) join(entry, a *State, pa []Value, b *State, pb []Value) (*State, []Value) {
	c := e.cut
	n0 := len(entry.regs)
	j := a.Clone()
	if b.seq > j.seq {
		j.seq = b.seq
	}
	// facts common to both
	nf := entry.facts.Clone()
	if nf.bad {
		return nil, nil
	}
	neSeen := map[string]bool{}
	for _, q := range nf.ne {
		neSeen[q.Key()] = true
	}
	common := func(x, y *Facts) {
		for _, q := range x.cons {
			if y.entails(q) {
				nf.add(q)
			}
		}
		for _, q := range x.ne {
			if k := q.Key(); !neSeen[k] && y.entailsNe(q) {
				neSeen[k] = true
				nf.addNe(q)
			}
		}
	}
	common(a.facts, b.facts)
	common(b.facts, a.facts)
	// what distinguishes them
	var da, db []*Poly
	_ = da
	_ = db
	// loop variables
	phis := make([]Value, len(pa))
	unify := func(x, y Value, t types.Type) (Value, bool) {
		if x == nil || y == nil {
			return nil, true
		}
		if valKey(x) == valKey(y) && onlyOld(x, n0) {
			return x, true
		}
		if p, ok := x.(*Poly); ok {
			if q, ok := y.(*Poly); ok {
				if a.facts.entailsCond(eqC(p, q)) && !mentionsNew(p) {
					return q, true
				}
				if b.facts.entailsCond(eqC(p, q)) {
					return p, true
				}
				return nil, false
			}
		}
		if p, ok := x.(Bytes); ok {
			if q, ok := y.(Bytes); ok && p.n.Eq(constP(32)) && q.n.Eq(p.n) {
				if h := c.unifyTerm(a.facts, c.termOf(p), b.facts, c.termOf(q)); h != nil {
					return blob(h), true
				}
			}
		}
		return nil, false
	}
	for i := range pa {
		v, ok := unify(pa[i], pb[i], nil)
		if !ok {
			return nil, nil
		}
		phis[i] = v
	}
	// registers of the frames: keep what agrees
	for i := range j.frames {
		if i >= len(b.frames) {
			return nil, nil
		}
		fa, fb := j.frames[i], b.frames[i]
		if fa == fb {
			continue
		}
		if fa.fn != fb.fn || fa.block != fb.block || fa.pc != fb.pc {
			return nil, nil
		}
		nfm := *fa
		nfm.gen = j.gen
		nfm.env = append([]Value(nil), fa.env...)
		for k := range nfm.env {
			if nfm.env[k] == nil || fb.env[k] == nil {
				nfm.env[k] = nil
				continue
			}
			if valKey(nfm.env[k]) != valKey(fb.env[k]) || !onlyOldDeep(nfm.env[k], n0) {
				nfm.env[k] = Opaque{kind: "dropped"}
			}
		}
		j.frames[i] = &nfm
	}
	// memory
	for r := 0; r < n0; r++ {
		ra, rb := a.reg(r), b.reg(r)
		if ra == rb {
			continue
		}
		inB := map[*Write]bool{}
		for _, w := range rb.writes {
			inB[w] = true
		}
		inA := map[*Write]bool{}
		for _, w := range ra.writes {
			inA[w] = true
		}
		type cell struct {
			off, size *Poly
			t         types.Type
			val       Value
		}
		cells := map[string]cell{}
		var keys []string
		add := func(w *Write) bool {
			if w.q != nil || !isConstP(w.size) || !isConstP(w.off) {
				return false
			}
			k := w.off.Key() + "/" + w.size.Key()
			if _, ok := cells[k]; !ok {
				cells[k] = cell{w.off, w.size, w.t, w.val}
				keys = append(keys, k)
			}
			return true
		}
		for _, w := range ra.writes {
			if !inB[w] && !add(w) {
				return nil, nil
			}
		}
		for _, w := range rb.writes {
			if !inA[w] && !add(w) {
				return nil, nil
			}
		}
		sort.Strings(keys)
		for _, k := range keys {
			x := cells[k]
			sz, _ := x.size.Int64()
			if sz == 32 {
				ta, tb := a.termAt(r, x.off), b.termAt(r, x.off)
				h := c.unifyTerm(a.facts, ta, b.facts, tb)
				if h == nil {
					if os.Getenv("ZUNK") != "" {
						fmt.Fprintf(os.Stderr, "join of %s and %s at %s of %s\n", hShow(ta), hShow(tb), x.off, ra.name)
						if ra.name == "append" && x.off.String() == "64" && ta.op == "bslot" {
							fmt.Fprintln(os.Stderr, "FACTS", a.facts)
							fmt.Fprintln(os.Stderr, "NE", a.facts.ne)
							fmt.Fprintln(os.Stderr, "FACTSB", b.facts)
						}
					}
					h = &HTerm{op: "unk", key: j.fresh("join")}
				}
				j.putWrite(r, &Write{off: x.off, size: x.size, segs: blob(h).segs})
				continue
			}
			if _, isBytes := x.val.(Bytes); x.val != nil && x.t != nil && !isBytes && sz <= 8 {
				va, vb := a.loadAt(r, x.off, x.t), b.loadAt(r, x.off, x.t)
				v, ok := unify(va, vb, x.t)
				if !ok {
					if _, num := va.(*Poly); num {
						lo, hi := sizeRange(x.t)
						v = mkAtom(j.fresh("joined"), lo, hi)
					} else {
						return nil, nil
					}
				}
				if v == nil {
					v = Opaque{kind: "dropped"}
				}
				j.putWrite(r, &Write{off: x.off, size: x.size, t: x.t, val: v})
				continue
			}
			sa, sb := a.readBytes(r, x.off, x.size), b.readBytes(r, x.off, x.size)
			if segsKey(sa) == segsKey(sb) {
				j.putWrite(r, &Write{off: x.off, size: x.size, segs: sa})
				continue
			}
			j.putWrite(r, &Write{off: x.off, size: x.size, segs: []Seg{{x.size, CUnk{j.fresh("join")}}}})
		}
	}
	j.facts = nf
	j.fshared = false
	return j, phis
}

func mentionsNew(p *Poly) bool { return false }

func onlyOldDeep(v Value, n int) bool {
	switch x := v.(type) {
	case Closure:
		for _, f := range x.free {
			if !onlyOldDeep(f, n) {
				return false
			}
		}
		return true
	case Tuple:
		for _, f := range x {
			if !onlyOldDeep(f, n) {
				return false
			}
		}
		return true
	case Box:
		return onlyOldDeep(x.v, n)
	case Builtin:
		return true
	case Iface:
		return true
	}
	return onlyOld(v, n)
}

// unifyTerm: one description valid in both states.
func (c *cutMode) unifyTerm(fa *Facts, a *HTerm, fb *Facts, b *HTerm) *HTerm {
	l := hLevel(a)
	if l < 0 || hLevel(b) != l {
		return nil
	}
	if a.Key() == b.Key() {
		return a
	}
	var cands []*Poly
	for _, h := range []*HTerm{a, b} {
		if h.op == "node" {
			cands = append(cands, h.n[1])
		}
	}
	if c.index != nil {
		cands = append(cands, c.sib(l))
	}
	cands = append(cands, divPow(c.count, l))
	for _, k := range c.k {
		cands = append(cands, divPow(k, l))
	}
	for _, x := range cands {
		if c.asNode(fa, a, l, x) && c.asNode(fb, b, l, x) {
			return hNode(l, x)
		}
	}
	if c.index != nil {
		for _, k := range c.k {
			for _, q := range []*Poly{k, k.AddC(1)} {
				if c.asBranch(fa, a, l, q) && c.asBranch(fb, b, l, q) {
					return &HTerm{op: "bslot", n: []*Poly{constP(int64(l)), q}}
				}
			}
		}
	}
	return nil
}

type cutCell struct {
	key  string
	r    int
	off  *Poly
	size *Poly
	t    types.Type
	w    *Write
	num  bool
	init *Poly
	step int64
	lin  bool // value = init + step*K
	h    *Poly
}

func (e *Engine) leafLoop(st *State, l *natLoop, prev *ssa.BasicBlock, base int) (work []*State, res []*Outcome) {
	c := e.cut
	id := st.fresh("K")
	K := mkAtom("k:"+id, bigZero, maxU64)
	kA := K.SingleAtom()
	phis := st.phiVals(l.header, prev)
	var phiIns []*ssa.Phi
	for _, ins := range l.header.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phiIns = append(phiIns, p)
	}
	entry := st.Clone()
	type num struct {
		init *Poly
		step int64
		lin  bool
		h    *Poly
	}
	nums := make([]*num, len(phis))
	dead := make([]bool, len(phis))
	for i, v := range phis {
		if p, ok := v.(*Poly); ok {
			lo, hi := sizeRange(phiIns[i].Type())
			nums[i] = &num{init: p, step: 1, lin: true, h: mkAtom(fmt.Sprintf("lv:%s:phi%d", id, i), lo, hi)}
		}
	}
	cells := map[string]*cutCell{}
	slots := map[int]string{} // region -> template
	savedK := c.k
	c.k = append(append([]*Poly{}, c.k...), K)
	defer func() { c.k = savedK }()
	badBefore := map[string]string{}
	for k, v := range c.bad {
		badBefore[k] = v
	}
	var outs []*Outcome
	exploring := true
	for round := 0; ; round++ {
		if round > 30 {
			undecided("no invariant found for the loop over the leaves at %s", e.fset.Position(instrPos(l.header.Instrs[0])))
		}
		c.bad = map[string]string{}
		for k, v := range badBefore {
			c.bad[k] = v
		}
		s := entry.Clone()
		s.assume(geC(c.count, K))
		vals := make([]Value, len(phis))
		for i := range phis {
			switch {
			case dead[i]:
			case nums[i] != nil && nums[i].lin:
				vals[i] = nums[i].init.Add(K.MulC(nums[i].step))
			case nums[i] != nil:
				vals[i] = nums[i].h
			default:
				vals[i] = phis[i]
			}
		}
		var rs []int
		for r := range slots {
			rs = append(rs, r)
		}
		sort.Ints(rs)
		for _, r := range rs {
			for j := 0; j <= 64; j++ {
				h := &HTerm{op: slots[r], n: []*Poly{constP(int64(j)), K}}
				s.putWrite(r, &Write{off: constP(int64(32 * j)), size: constP(32), segs: blob(h).segs})
			}
		}
		var ks []string
		for k := range cells {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			x := cells[k]
			switch {
			case x.num && x.lin:
				s.putWrite(x.r, &Write{off: x.off, size: x.size, t: x.t, val: x.init.Add(K.MulC(x.step))})
			case x.num:
				s.putWrite(x.r, &Write{off: x.off, size: x.size, t: x.t, val: x.h})
			default:
				s.putWrite(x.r, &Write{off: x.off, size: x.size, segs: []Seg{{x.size, CUnk{s.fresh("loopcell")}}}})
			}
		}
		s.watch = append(s.watch[:len(s.watch):len(s.watch)], &loopWatch{depth: len(st.frames), loop: l})
		hdr := s.Clone()
		hdr.enterWith(l.header, prev, vals)
		c.explore = exploring
		outs = e.run([]*State{hdr}, base)
		c.explore = false
		changed := false
		var backs []*Outcome
		for _, o := range outs {
			if o.kind == "backedge" {
				backs = append(backs, o)
			}
		}
		if os.Getenv("ZCUT") != "" {
			fmt.Fprintf(os.Stderr, "leaf loop round %d: %d outcomes %d back edges, slots %v cells %d\n", round, len(outs), len(backs), slots, len(cells))
		}
		// modified memory
		for _, o := range backs {
			for r := 0; r < len(entry.regs); r++ {
				ra, rb := s.reg(r), o.st.reg(r)
				if ra == rb || slots[r] != "" {
					continue
				}
				old := map[*Write]bool{}
				for _, w := range ra.writes {
					old[w] = true
				}
				for _, w := range rb.writes {
					if old[w] {
						continue
					}
					if w.q != nil || !isConstP(w.size) || !isConstP(w.off) {
						undecided("the loop over the leaves writes to memory at an unknown place")
					}
					sz, _ := w.size.Int64()
					off, _ := w.off.Int64()
					reg := entry.reg(r)
					if c64, ok := reg.size, true; ok && sz == 32 && off%32 == 0 && (c64 == nil || !c64.Eq(constP(32))) {
						tmpl := "slot"
						if c.index != nil {
							all := true
							for j := 0; j <= 64 && all; j++ {
								ent := entry.Clone()
								if reg.size != nil {
									ent.assume(geC(reg.size, constP(int64(32*j+32))))
									if ent.facts.bad || !ent.facts.feasibleWith(nil) {
										continue
									}
								}
								h := ent.termAt(r, constP(int64(32*j)))
								all = h != nil && h.op == "zero" && hLevel(h) == j
								if os.Getenv("ZCUT") != "" && !all {
									fmt.Fprintf(os.Stderr, "no zero hash in region %d at %d: %s %s\n", r, j, hShow(h), "")
								}
							}
							if all {
								tmpl = "bslot"
							}
						}
						slots[r] = tmpl
						changed = true
						break
					}
					key := fmt.Sprintf("r%d+%s/%s", r, w.off, w.size)
					if cells[key] != nil {
						continue
					}
					x := &cutCell{key: key, r: r, off: w.off, size: w.size, t: w.t, w: w}
					if _, ok := w.val.(*Poly); ok && w.t != nil {
						if p, ok := entry.loadAt(r, w.off, w.t).(*Poly); ok {
							lo, hi := sizeRange(w.t)
							x.num, x.init, x.step, x.lin = true, p, 1, true
							x.h = mkAtom("lv:"+id+":"+key, lo, hi)
						}
					}
					cells[key] = x
					changed = true
				}
			}
		}
		if changed {
			continue
		}
		// values after one more leaf
		for _, o := range backs {
			for i := range phis {
				if dead[i] {
					continue
				}
				if n := nums[i]; n != nil {
					q, ok := o.phis[i].(*Poly)
					if !ok {
						dead[i] = true
						changed = true
						continue
					}
					if n.lin && !o.st.proveEq(q, n.init.Add(K.AddC(1).MulC(n.step))) {
						n.lin = false
						changed = true
					}
					continue
				}
				if valKey(o.phis[i]) != valKey(phis[i]) {
					dead[i] = true
					changed = true
				}
			}
			for _, k := range ks {
				x := cells[k]
				if !x.num || !x.lin {
					continue
				}
				q, ok := o.st.loadAt(x.r, x.off, x.t).(*Poly)
				if !ok || !o.st.proveEq(q, x.init.Add(K.AddC(1).MulC(x.step))) {
					x.lin = false
					changed = true
				}
			}
		}
		if changed {
			continue
		}
		if exploring {
			exploring = false
			continue
		}
		// the invariant is preserved
		for _, o := range backs {
			if !o.st.entailsCond(geC(c.count, K.AddC(1))) {
				undecided("the loop over the leaves may go beyond the last leaf")
			}
			m := 0
			for m < 64 && o.st.entailsCond(eqC(bitP(K, m), polyOne)) {
				m++
			}
			if m == 64 {
				continue
			}
			if !o.st.entailsCond(eqC(bitP(K, m), polyZero)) {
				if os.Getenv("ZCUT") != "" {
					fmt.Fprintf(os.Stderr, "NOBIT %d %s\n", m, factsStr(o.st.facts, newFacts()))
				}
				undecided("the loop over the leaves ends a round without having looked at bit %d of the leaf number", m)
			}
			for _, r := range rs {
				c.checked += 65
				for j := 0; j <= m; j++ {
					h := o.st.termAt(r, constP(int64(32*j)))
					if slots[r] == "slot" {
						// bit j of K+1 is set for j == m only; K+1 >> m == (K >> m) + 1
						if j == m && !c.asNode(o.st.facts, h, j, divPow(K, j)) {
							c.bad[fmt.Sprintf("%s slot %d", o.st.where(), j)] = fmt.Sprintf("after a leaf whose number has its lowest zero bit at %d, the pending subtree of that level is %s", m, hShow(h))
						}
						continue
					}
					if !c.asBranch(o.st.facts, h, j, K.AddC(1)) {
						c.bad[fmt.Sprintf("%s branch %d", o.st.where(), j)] = fmt.Sprintf("after a leaf, the proof entry of level %d is %s", j, hShow(h))
					}
				}
				for j := m + 1; j <= 64; j++ {
					h := o.st.termAt(r, constP(int64(32*j)))
					if h == nil || h.op != slots[r] || !h.n[1].Eq(K) || hLevel(h) != j {
						c.bad[fmt.Sprintf("%s %s %d", o.st.where(), slots[r], j)] = fmt.Sprintf("a leaf that completes no subtree of level %d changes the entry of that level to %s", j, hShow(h))
					}
				}
			}
		}
		break
	}
	return e.leave(outs, base, func(s *State) bool {
		if s.entailsCond(eqC(K, c.count)) {
			e.substState(s, kA, c.count, nil)
		}
		return !s.facts.bad
	})
}

// merkleFn analyses Merkleize or ConstructProof.
func (e *Engine) cutStart(base *State, withIndex bool) *State {
	st := base.Clone()
	st.events = nil
	count := mkAtom("count", bigZero, maxU64)
	limit := mkAtom("limit", bigZero, maxU64)
	c := &cutMode{count: count, limit: limit, bad: map[string]string{}, combis: map[string]bool{}, leaves: map[string]bool{}, dull: map[string]bool{}, levels: 65}
	if withIndex {
		c.index = mkAtom("index", bigZero, maxU64)
	}
	e.cut = c
	for _, p := range e.pkgs {
		g, ok := p.Members["ZeroHashes"].(*ssa.Global)
		if !ok {
			continue
		}
		r := e.globalRegion(st, g)
		z := st.newRegion("zerohashes", "global", constP(int64(32*c.levels)))
		c.zh = z.id
		z.initFn = func(s *State, rg *Region, off *Poly, size int64, t types.Type) Value {
			if size != 32 {
				return nil
			}
			q := exactQuot(off, constP(32))
			if q == nil {
				q = mkDiv(off, constP(32))
				if !s.proveEq(q.MulC(32), off) {
					return nil
				}
			}
			return blob(&HTerm{op: "zero", n: []*Poly{q}})
		}
		n := constP(int64(c.levels))
		st.storeAt(r, polyZero, Slice{Ptr{r: z.id, off: polyZero}, n, n}, g.Type().(*types.Pointer).Elem())
	}
	if fn := e.fnByName("merkle", "GetDepth"); fn != nil {
		e.contracts[fn] = func(s *State, args []Value) []Value {
			x := args[0].(*Poly)
			if v, ok := x.Const(); ok {
				return []Value{constP(depthConst(v))}
			}
			return []Value{mkAtom("depth", bigZero, big.NewInt(64), x)}
		}
	}
	return st
}

var _ = token.NoPos
