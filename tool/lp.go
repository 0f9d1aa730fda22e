package main

// Constraint store and polyhedral emptiness test.

import (
	"fmt"
	"hash/fnv"
	"math"
	"math/big"
	"sort"
	"strconv"
)

// Con is p >= 0 (eq=false) or p == 0 (eq=true).
type Con struct {
	p  *Poly
	eq bool
}

func (c Con) String() string {
	if c.eq {
		return c.p.String() + " == 0"
	}
	return c.p.String() + " >= 0"
}

type Facts struct {
	cons  []Con
	ne    []*Poly
	keys  map[string]bool
	known map[int]*big.Int // atom id -> constant
	bad   bool             // contradictory
}

func newFacts() *Facts {
	return &Facts{keys: map[string]bool{}, known: map[int]*big.Int{}}
}

func (f *Facts) Clone() *Facts {
	n := &Facts{cons: f.cons[:len(f.cons):len(f.cons)], ne: f.ne[:len(f.ne):len(f.ne)],
		keys: make(map[string]bool, len(f.keys)+4), known: make(map[int]*big.Int, len(f.known)+2), bad: f.bad}
	for k := range f.keys {
		n.keys[k] = true
	}
	for k, v := range f.known {
		n.known[k] = v
	}
	return n
}

func tighten(p *Poly, eq bool) (*Poly, bool) { // returns normalised poly, infeasible
	g := new(big.Int)
	for _, t := range p.terms {
		if len(t.mono) > 0 {
			g.GCD(nil, nil, g, new(big.Int).Abs(t.c))
		}
	}
	if g.Sign() == 0 || g.Cmp(bigOne) == 0 {
		return p, false
	}
	out := make([]term, 0, len(p.terms))
	for _, t := range p.terms {
		q, r := new(big.Int), new(big.Int)
		q.DivMod(t.c, g, r) // Euclidean: floor for positive g
		if r.Sign() != 0 && eq {
			return p, true
		}
		if q.Sign() != 0 {
			out = append(out, term{t.mono, q})
		}
	}
	return &Poly{terms: out}, false
}

func (f *Facts) add(c Con) {
	if f.bad {
		return
	}
	if v, ok := c.p.Const(); ok {
		if (c.eq && v.Sign() != 0) || (!c.eq && v.Sign() < 0) {
			f.bad = true
		}
		return
	}
	p, inf := tighten(c.p, c.eq)
	if inf {
		f.bad = true
		return
	}
	c.p = p
	k := p.Key()
	if c.eq {
		k = "=" + k
		if f.keys["="+p.Neg().Key()] {
			return
		}
	}
	if f.keys[k] {
		return
	}
	f.keys[k] = true
	f.cons = append(f.cons, c)
	if c.eq {
		// atom == const
		n := 0
		var at *Atom
		var co *big.Int
		for _, t := range p.terms {
			if len(t.mono) == 0 {
				continue
			}
			n++
			if len(t.mono) == 1 {
				at = atomTab[t.mono[0]]
				co = t.c
			}
		}
		if n == 1 && at != nil {
			v := new(big.Int).Neg(p.ConstTerm())
			q, r := new(big.Int), new(big.Int)
			q.QuoRem(v, co, r)
			if r.Sign() == 0 {
				if o, ok := f.known[at.id]; ok && o.Cmp(q) != 0 {
					f.bad = true
				}
				f.setKnown(at, q)
			}
		}
	} else if len(p.terms) == 1 || len(p.terms) == 2 && (len(p.terms[0].mono) == 0 || len(p.terms[1].mono) == 0) {
		// boolean-like bounds: a-1>=0 or -a>=0 on [0,1] atoms
		for _, t := range p.terms {
			if len(t.mono) == 1 {
				at := atomTab[t.mono[0]]
				lo, hi := at.bounds()
				if lo != nil && hi != nil {
					ct := p.ConstTerm()
					if t.c.Cmp(bigOne) == 0 && new(big.Int).Add(hi, ct).Sign() == 0 {
						f.setKnown(at, hi)
					}
					if t.c.Cmp(big.NewInt(-1)) == 0 && new(big.Int).Sub(ct, lo).Sign() == 0 {
						f.setKnown(at, lo)
					}
				}
			}
		}
	}
}

func (f *Facts) setKnown(a *Atom, v *big.Int) {
	f.known[a.id] = v
	if a.op == "none" {
		if v.Sign() == 0 {
			f.add(Con{a.args[0].AddC(-1), false})
		} else {
			f.add(Con{a.args[0], true})
		}
	}
}

func (f *Facts) addNe(p *Poly) {
	if v, ok := p.Const(); ok {
		if v.Sign() == 0 {
			f.bad = true
		}
		return
	}
	lo, hi := p.interval()
	if lo != nil && lo.Sign() == 0 {
		f.add(Con{p.AddC(-1), false})
		return
	}
	if hi != nil && hi.Sign() == 0 {
		f.add(Con{p.Neg().AddC(-1), false})
		return
	}
	f.ne = append(f.ne, p)
}

// knownAtom returns the constant value of a if recorded.
func (f *Facts) knownAtom(a *Atom) (*big.Int, bool) {
	v, ok := f.known[a.id]
	return v, ok
}

func (f *Facts) knownIs(p *Poly, v int64) bool {
	if c, ok := p.Int64(); ok {
		return c == v
	}
	a := p.SingleAtom()
	if a == nil {
		return false
	}
	k, ok := f.known[a.id]
	return ok && k.IsInt64() && k.Int64() == v
}

var lpQueries, lpRuns int

// entails: every integer point satisfying f satisfies c.
func (f *Facts) entails(c Con) bool {
	if f.bad {
		return true
	}
	if c.eq {
		if c.p.isZero() {
			return true
		}
		return f.entails(Con{c.p, false}) && f.entails(Con{c.p.Neg(), false})
	}
	if v, ok := c.p.Const(); ok {
		if v.Sign() >= 0 {
			return true
		}
		return !f.feasibleWith(nil)
	}
	lo, _ := c.p.interval()
	if lo != nil && lo.Sign() >= 0 {
		return true
	}
	tp, _ := tighten(c.p, false)
	if f.keys[tp.Key()] {
		return true
	}
	if f.keys["="+tp.Key()] || f.keys["="+tp.Neg().Key()] {
		return true
	}
	neg := Con{c.p.Neg().AddC(-1), false}
	return !f.feasibleWith([]Con{neg})
}

func (f *Facts) entailsNe(p *Poly) bool {
	if f.bad {
		return true
	}
	if v, ok := p.Const(); ok {
		if v.Sign() != 0 {
			return true
		}
	}
	for _, q := range f.ne {
		if q.Eq(p) || q.Eq(p.Neg()) {
			return true
		}
	}
	return !f.feasibleWith([]Con{{p, true}})
}

func (p *Poly) isZero() bool { return len(p.terms) == 0 }

// feasibleWith: may the facts and extra hold together? (true = not refuted)
func (f *Facts) feasibleWith(extra []Con) bool {
	if f.bad {
		return false
	}
	lpQueries++
	var seed []*Poly
	for _, c := range extra {
		seed = append(seed, c.p)
	}
	cons, ne := f.relevant(seed, len(extra) == 0)
	cons = append(cons, extra...)
	ff := f
	if len(extra) > 0 {
		// conditional axioms may look at single-atom extras
		ff = f.Clone()
		for _, c := range extra {
			ff.add(c)
		}
		if ff.bad {
			return false
		}
	}
	cons = withAxioms(ff, cons, ne)
	h := fnv.New128a()
	for _, c := range cons {
		h.Write([]byte(c.keyStr()))
		h.Write([]byte{'\n'})
	}
	for _, p := range ne {
		h.Write([]byte(p.Key()))
		h.Write([]byte{'!'})
	}
	var k [16]byte
	h.Sum(k[:0])
	if r, ok := lpMemo[k]; ok {
		lpHits++
		return r
	}
	r := lpFeasible(cons, ne)
	lpMemo[k] = r
	return r
}

func atomClosure(p *Poly, out map[int]bool) {
	p.Atoms(func(a *Atom) {
		if !out[a.id] {
			out[a.id] = true
			for _, x := range a.args {
				atomClosure(x, out)
			}
		}
	})
}

func (f *Facts) relevant(seed []*Poly, all bool) ([]Con, []*Poly) {
	if all {
		return append([]Con{}, f.cons...), append([]*Poly{}, f.ne...)
	}
	in := map[int]bool{}
	for _, p := range seed {
		atomClosure(p, in)
	}
	used := make([]bool, len(f.cons))
	usedNe := make([]bool, len(f.ne))
	var cons []Con
	var ne []*Poly
	// sums are related to the atoms that occur in their guards
	ops, guardOps, uppers := map[string]bool{}, map[string]bool{}, map[string]bool{}
	touch := func(p *Poly) bool {
		hit := false
		p.Atoms(func(a *Atom) {
			if in[a.id] || guardOps[a.op] {
				hit = true
			}
			if !hit && (a.op == "div" || a.op == "mod") {
				a.args[0].Atoms(func(b *Atom) { hit = hit || in[b.id] })
			}
			if a.sum != nil {
				if uppers[a.args[0].Key()] {
					hit = true
				}
				for _, g := range a.sum.guard {
					if x := g.atom.SingleAtom(); x != nil && ops[x.op] {
						hit = true
					}
				}
			}
		})
		return hit
	}
	for changed := true; changed; {
		changed = false
		for id := range in {
			a := atomTab[id]
			ops[a.op] = true
			if a.sum != nil {
				uppers[a.args[0].Key()] = true
				for _, g := range a.sum.guard {
					if x := g.atom.SingleAtom(); x != nil {
						guardOps[x.op] = true
					}
				}
			}
		}
		for i, c := range f.cons {
			if !used[i] && touch(c.p) {
				used[i] = true
				changed = true
				cons = append(cons, c)
				atomClosure(c.p, in)
			}
		}
		for i, p := range f.ne {
			if !usedNe[i] && touch(p) {
				usedNe[i] = true
				changed = true
				ne = append(ne, p)
				atomClosure(p, in)
			}
		}
		// atoms related through axioms (e.g. TypSize -> TypLen*TypSize)
		for _, id := range sortedIDs(in) {
			for _, c := range axiomsOf(f, atomTab[id]) {
				before := len(in)
				atomClosure(c.p, in)
				if len(in) != before {
					changed = true
				}
			}
		}
	}
	// facts without atoms in common are irrelevant unless contradictory by themselves
	return cons, ne
}

type axiomFn func(f *Facts, a *Atom) []Con

var axiomTab = map[string]axiomFn{}
var axiomPrefix []struct {
	prefix string
	fn     axiomFn
}

func opBase(op string) string {
	for i := 0; i < len(op); i++ {
		if op[i] == ':' || op[i] == '@' {
			return op[:i]
		}
	}
	return op
}

func axiomsOf(f *Facts, a *Atom) []Con {
	var out []Con
	lo, hi := a.lo, a.hi
	if lo != nil {
		out = append(out, Con{atomP(a).Sub(constB(lo)), false})
	}
	if hi != nil {
		out = append(out, Con{constB(hi).Sub(atomP(a)), false})
	}
	switch a.op {
	case "div":
		x, c := a.args[0], a.args[1]
		ok := false
		if v, isC := c.Const(); isC && v.Sign() > 0 {
			ok = true
		} else if lo, _ := c.interval(); lo != nil && lo.Sign() > 0 {
			ok = true
		} else if f.keys[c.AddC(-1).Key()] {
			ok = true
		}
		if ok {
			cd := c.Mul(atomP(a))
			out = append(out, Con{x.Sub(cd), false}, Con{cd.Add(c).AddC(-1).Sub(x), false})
		}
		if xl, _ := x.interval(); xl != nil && xl.Sign() >= 0 {
			out = append(out, Con{atomP(a), false})
			// the quotient exists only where the divisor was proved not to be zero
			if cl, _ := c.interval(); cl != nil && cl.Sign() >= 0 {
				out = append(out, Con{x.Sub(atomP(a)), false})
			}
		}
	case "mod":
		x, c := a.args[0], a.args[1]
		out = append(out, Con{c.AddC(-1).Sub(atomP(a)), false}, Con{x.Sub(atomP(a)), false})
		d := mkDiv(x, c)
		out = append(out, Con{x.Sub(c.Mul(d)).Sub(atomP(a)), true})
	}
	if fn := axiomTab[opBase(a.op)]; fn != nil {
		out = append(out, fn(f, a)...)
	}
	return out
}

// divLinks: quotients of one number by constants that divide each other.
func divLinks(seen map[int]bool) []Con {
	by := map[string][]*Atom{}
	var order []string
	for _, id := range sortedIDs(seen) {
		a := atomTab[id]
		if a.op != "div" {
			continue
		}
		if c, ok := a.args[1].Const(); !ok || c.Sign() <= 0 {
			continue
		}
		k := a.args[0].Key()
		if by[k] == nil {
			order = append(order, k)
		}
		by[k] = append(by[k], a)
	}
	var out []Con
	for _, k := range order {
		as := by[k]
		sort.Slice(as, func(i, j int) bool {
			x, _ := as[i].args[1].Const()
			y, _ := as[j].args[1].Const()
			return x.Cmp(y) < 0
		})
		for i := 1; i < len(as); i++ {
			x, _ := as[i-1].args[1].Const()
			y, _ := as[i].args[1].Const()
			m, r := new(big.Int).QuoRem(y, x, new(big.Int))
			if r.Sign() != 0 {
				continue
			}
			d := atomP(as[i-1]).Sub(constB(m).Mul(atomP(as[i])))
			out = append(out, Con{d, false}, Con{constB(m).AddC(-1).Sub(d), false})
		}
	}
	return out
}

func withAxioms(f *Facts, cons []Con, ne []*Poly) []Con {
	seen := map[int]bool{}
	keys := map[string]bool{}
	var out []Con
	push := func(c Con) {
		k := c.p.Key()
		if c.eq {
			k = "=" + k
		}
		if !keys[k] {
			keys[k] = true
			out = append(out, c)
		}
	}
	for _, c := range cons {
		push(c)
	}
	var sums []*Atom
	visit := func(p *Poly) {
		p.Atoms(func(a *Atom) {
			if seen[a.id] {
				return
			}
			seen[a.id] = true
			for _, c := range axiomsOf(f, a) {
				push(c)
			}
			if a.sum != nil {
				sums = append(sums, a)
			}
		})
	}
	for _, p := range ne {
		visit(p)
	}
	for i := 0; i < len(out); i++ {
		visit(out[i].p)
	}
	if len(sums) > 0 {
		var all []*Atom
		for id := range seen {
			all = append(all, atomTab[id])
		}
		sort.Slice(all, func(i, j int) bool { return all[i].id < all[j].id })
		for _, c := range sumAxioms(f, sums, all) {
			push(c)
		}
		n := len(out)
		for i := 0; i < n; i++ {
			visit(out[i].p)
		}
	}
	for _, c := range divLinks(seen) {
		push(c)
	}
	// product lemmas
	monos := map[string][]int{}
	for _, c := range out {
		for _, t := range c.p.terms {
			if len(t.mono) == 2 {
				monos[monoKey(t.mono)] = t.mono
			}
		}
	}
	if len(monos) > 0 {
		present := map[string]bool{}
		for _, c := range out {
			for _, t := range c.p.terms {
				present[monoKey(t.mono)] = true
			}
		}
		var mk []string
		for k := range monos {
			mk = append(mk, k)
		}
		sort.Strings(mk)
		base := out[:len(out):len(out)]
		cnt := 0
		for _, k := range mk {
			m := monos[k]
			lo0, _ := atomTab[m[0]].bounds()
			lo1, _ := atomTab[m[1]].bounds()
			if lo0 == nil || lo1 == nil || lo0.Sign() < 0 || lo1.Sign() < 0 {
				continue
			}
			push(Con{&Poly{terms: []term{{m, bigOne}}}, false})
			for s := 0; s < 2; s++ {
				x, b := m[s], m[1-s]
				bp := atomP(atomTab[b])
				for _, c := range base {
					if cnt > 200 {
						break
					}
					has, lin := false, true
					for _, t := range c.p.terms {
						if len(t.mono) > 1 {
							lin = false
						}
						if len(t.mono) == 1 && t.mono[0] == x {
							has = true
						}
					}
					if !has || !lin {
						continue
					}
					pr := c.p.Mul(bp)
					ok := true
					for _, t := range pr.terms {
						if len(t.mono) == 2 && !present[monoKey(t.mono)] {
							ok = false
						}
					}
					if !ok {
						continue
					}
					cnt++
					push(Con{pr, c.eq})
				}
			}
		}
	}
	return out
}

func monoKey(m []int) string {
	b := make([]byte, 0, 8*len(m))
	for _, x := range m {
		b = append(b, byte(x), byte(x>>8), byte(x>>16), ',')
	}
	return string(b)
}

// ---------------------------------------------------------------------
// exact LP

// lpMemo remembers verdicts by the hash of the constraint system.
var lpMemo = map[[16]byte]bool{}
var lpHits int

type lin struct { // sum c[i]*x[i] + k >= 0
	c   map[int]*big.Int
	k   *big.Int
	key string // of a normalised row that does not change any more
}

func lpFeasible(cons []Con, ne []*Poly) bool {
	lpRuns++
	// map monomials to columns
	cols := map[string]int{}
	conv := func(p *Poly) lin {
		l := lin{c: map[int]*big.Int{}, k: new(big.Int)}
		for _, t := range p.terms {
			if len(t.mono) == 0 {
				l.k.Set(t.c)
				continue
			}
			k := monoKey(t.mono)
			j, ok := cols[k]
			if !ok {
				j = len(cols)
				cols[k] = j
			}
			l.c[j] = new(big.Int).Set(t.c)
		}
		return l
	}
	var eqs, ins []lin
	for _, c := range cons {
		l := conv(c.p)
		if c.eq {
			eqs = append(eqs, l)
		} else {
			ins = append(ins, l)
		}
	}
	var nes []lin
	for _, p := range ne {
		nes = append(nes, conv(p))
	}
	// integer-preserving elimination of equalities
again:
	for len(eqs) > 0 {
		sel, col := -1, -1
		for i, e := range eqs {
			if len(e.c) == 0 {
				if e.k.Sign() != 0 {
					return false
				}
				continue
			}
			best := -1
			for j, v := range e.c {
				if v.CmpAbs(bigOne) == 0 && (best < 0 || j < best) {
					best = j
				}
			}
			if best >= 0 {
				sel, col = i, best
				break
			}
		}
		if sel < 0 {
			break
		}
		e := eqs[sel]
		eqs = append(append([]lin{}, eqs[:sel]...), eqs[sel+1:]...)
		s := e.c[col]
		sub := func(l *lin) {
			a, ok := l.c[col]
			if !ok {
				return
			}
			// l -= (a/s)*e ; s = +-1
			m := new(big.Int).Mul(a, s)
			for j, v := range e.c {
				if l.c[j] == nil {
					l.c[j] = new(big.Int)
				}
				l.c[j].Sub(l.c[j], new(big.Int).Mul(m, v))
				if l.c[j].Sign() == 0 {
					delete(l.c, j)
				}
			}
			l.k.Sub(l.k, new(big.Int).Mul(m, e.k))
		}
		for i := range eqs {
			sub(&eqs[i])
		}
		for i := range ins {
			sub(&ins[i])
		}
		for i := range nes {
			sub(&nes[i])
		}
	}
	// opposite inequalities are equalities
	at := map[string]int{}
	for i := range ins {
		l, st := normLin(ins[i])
		if st < 0 {
			return false
		}
		if st > 0 {
			continue
		}
		ins[i] = l
		k := linKey(l)
		if j, ok := at[k]; !ok || l.k.Cmp(ins[j].k) < 0 {
			at[k] = i
		}
	}
	found := false
	for i := range ins {
		if len(ins[i].c) < 2 {
			continue
		}
		l := ins[i]
		if at[linKey(l)] != i {
			continue
		}
		j, ok := at[linKeySign(l, true)]
		if !ok {
			continue
		}
		unit := false
		for _, v := range l.c {
			unit = unit || v.CmpAbs(bigOne) == 0
		}
		switch s := new(big.Int).Add(l.k, ins[j].k); {
		case s.Sign() < 0:
			return false
		case s.Sign() == 0 && unit && i < j:
			n := lin{c: make(map[int]*big.Int, len(l.c)), k: new(big.Int).Set(l.k)}
			for j, v := range l.c {
				n.c[j] = new(big.Int).Set(v)
			}
			eqs = append(eqs, n) // a copy: eliminations change rows in place
			found = true
		}
	}
	if found {
		goto again
	}
	for _, e := range eqs {
		if len(e.c) == 0 {
			if e.k.Sign() != 0 {
				return false
			}
			continue
		}
		g := new(big.Int)
		for _, v := range e.c {
			g.GCD(nil, nil, g, new(big.Int).Abs(v))
		}
		if new(big.Int).Mod(e.k, g).Sign() != 0 {
			return false
		}
		n := lin{c: map[int]*big.Int{}, k: new(big.Int).Neg(e.k)}
		for j, v := range e.c {
			n.c[j] = new(big.Int).Neg(v)
		}
		ins = append(ins, e, n)
	}
	budget := 60
	return bb(ins, nes, len(cols), 0, &budget)
}

func normLin(l lin) (lin, int) { // 0 ok, 1 trivially true, -1 infeasible
	if l.key != "" {
		return l, 0
	}
	if len(l.c) == 0 {
		if l.k.Sign() < 0 {
			return l, -1
		}
		return l, 1
	}
	g64 := int64(0)
	for _, v := range l.c {
		if !v.IsInt64() || v.Int64() == math.MinInt64 {
			g64 = -1
			break
		}
		if g64 = gcd64(v.Int64(), g64); g64 == 1 {
			return l, 0
		}
	}
	g := big.NewInt(g64)
	if g64 < 0 {
		g = new(big.Int)
		for _, v := range l.c {
			g.GCD(nil, nil, g, new(big.Int).Abs(v))
		}
	}
	if g.Cmp(bigOne) != 0 {
		n := lin{c: make(map[int]*big.Int, len(l.c)), k: new(big.Int)}
		for j, v := range l.c {
			n.c[j] = new(big.Int).Quo(v, g)
		}
		n.k.Div(l.k, g) // Euclidean = floor for positive g
		return n, 0
	}
	return l, 0
}

func linKey(l lin) string { return linKeySign(l, false) }

// linKeySign is the key of the coefficients, or of the negated coefficients.
func linKeySign(l lin, neg bool) string {
	if l.key != "" && !neg {
		return l.key
	}
	var buf [16]int
	js := buf[:0]
	for j := range l.c {
		js = append(js, j)
	}
	sort.Ints(js)
	s := make([]byte, 0, 8*len(js)+8)
	for _, j := range js {
		v := l.c[j]
		if v.IsInt64() && v.Int64() != math.MinInt64 {
			x := v.Int64()
			if neg {
				x = -x
			}
			s = strconv.AppendInt(s, x, 10)
		} else if neg {
			s = new(big.Int).Neg(v).Append(s, 10)
		} else {
			s = v.Append(s, 10)
		}
		s = append(s, 'x')
		s = strconv.AppendInt(s, int64(j), 10)
		s = append(s, ';')
	}
	return string(s)
}

func itoa(i int) string { return big.NewInt(int64(i)).String() }

func bb(ins []lin, nes []lin, n int, depth int, budget *int) bool {
	*budget--
	if *budget < 0 {
		return true
	}
	best := map[string]int{}
	var rows []lin
	for _, l := range ins {
		l, st := normLin(l)
		if st < 0 {
			return false
		}
		if st > 0 {
			continue
		}
		k := linKey(l)
		l.key = k
		if i, ok := best[k]; ok {
			if l.k.Cmp(rows[i].k) < 0 {
				rows[i] = l
			}
			continue
		}
		best[k] = len(rows)
		rows = append(rows, l)
	}
	for _, l := range nes {
		if len(l.c) == 0 && l.k.Sign() == 0 {
			return false
		}
	}
	x, ok := simplex(rows, n)
	if !ok {
		return false
	}
	if depth > 14 || x == nil {
		return true
	}
	// integrality
	for j := 0; j < n; j++ {
		if !x[j].isInt() {
			fl := x[j].floor()
			a := lin{c: map[int]*big.Int{j: big.NewInt(-1)}, k: fl}
			b := lin{c: map[int]*big.Int{j: big.NewInt(1)}, k: new(big.Int).Neg(new(big.Int).Add(fl, bigOne))}
			return bb(append(rows[:len(rows):len(rows)], a), nes, n, depth+1, budget) ||
				bb(append(rows[:len(rows):len(rows)], b), nes, n, depth+1, budget)
		}
	}
	for i, l := range nes {
		v := numB(l.k)
		for j, c := range l.c {
			v = v.add(numB(c).mul(x[j]))
		}
		if v.sign() == 0 {
			a := lin{c: l.c, k: new(big.Int).Sub(l.k, bigOne)}
			b := lin{c: map[int]*big.Int{}, k: new(big.Int).Neg(l.k)}
			b.k.Sub(b.k, bigOne)
			for j, c := range l.c {
				b.c[j] = new(big.Int).Neg(c)
			}
			rest := append(append([]lin{}, nes[:i]...), nes[i+1:]...)
			return bb(append(rows[:len(rows):len(rows)], a), rest, n, depth+1, budget) ||
				bb(append(rows[:len(rows):len(rows)], b), rest, n, depth+1, budget)
		}
	}
	return true
}

// sumAxioms: monotonicity and stepping of prefix sums with non-negative bodies.
func sumAxioms(f *Facts, sums []*Atom, all []*Atom) []Con {
	var out []Con
	// an unguarded sum is the sum of its guarded parts
	have := map[int]bool{}
	for _, a := range sums {
		have[a.id] = true
	}
	add := func(p *Poly) {
		if a := p.SingleAtom(); a != nil && a.sum != nil && !have[a.id] {
			have[a.id] = true
			sums = append(sums, a)
		}
	}
	for _, a := range sums[:len(sums):len(sums)] {
		if len(a.sum.guard) != 0 {
			continue
		}
		for _, b := range sums[:len(sums):len(sums)] {
			if len(b.sum.guard) == 1 && a.args[0].Eq(b.args[0]) {
				g := b.sum.guard[0]
				p0 := mkSumRaw([]Guard{{g.atom, 0}}, a.sum.mono, a.args[0])
				p1 := mkSumRaw([]Guard{{g.atom, 1}}, a.sum.mono, a.args[0])
				add(p0)
				add(p1)
				out = append(out, Con{atomP(a).Sub(p0).Sub(p1), true})
				break
			}
		}
	}
	for i, a := range sums {
		ua := a.args[0]
		if c, ok := a.sum.mono.Const(); ok && c.Sign() >= 0 {
			out = append(out, Con{ua.MulB(c).Sub(atomP(a)), false})
		}
		if lo, _ := a.sum.mono.interval(); len(a.sum.guard) == 1 && lo != nil && lo.Sign() >= 0 {
			// every index below the upper end contributes its own term
			g := a.sum.guard[0]
			for _, x := range all {
				u := guardArg(g, x)
				if u == nil || !syntLe(f, u.AddC(1), ua) || !syntLe(f, polyZero, u) {
					continue
				}
				body := a.sum.mono.SubstAtom(kapAtom.SingleAtom(), u)
				ind := atomP(x)
				if g.val == 0 {
					ind = polyOne.Sub(ind)
				}
				if c, ok := body.Const(); ok {
					out = append(out, Con{atomP(a).Sub(ind.MulB(c)), false})
				} else if f.knownIs(atomP(x), g.val) {
					out = append(out, Con{atomP(a).Sub(body), false})
				}
			}
		}
		for j, b := range sums {
			if i == j {
				continue
			}
			if a.args[0].Eq(b.args[0]) && sameGuards(a, b) {
				if pointwise(a, b, false) {
					out = append(out, Con{atomP(b).Sub(atomP(a)), false})
				}
				if f.knownIs(atomP(a), 0) && pointwise(a, b, true) {
					out = append(out, Con{atomP(b), true})
				}
			}
			if !sameSumBody(a, b) {
				continue
			}
			ub := b.args[0]
			// ua <= ub  =>  S(ua) <= S(ub)
			if syntLe(f, ua, ub) {
				out = append(out, Con{atomP(b).Sub(atomP(a)), false})
			}
			// ua+1 <= ub and body(ua) known => S(ua)+body <= S(ub)
			if syntLe(f, ua.AddC(1), ub) {
				if e := sumStep(f, a, ua); e != nil {
					out = append(out, Con{atomP(b).Sub(atomP(a)).Sub(e), false})
				}
			}
		}
	}
	return out
}

// sumStep gives S(u+1)-S(u) if the guards at u are decided.
func sumStep(f *Facts, a *Atom, u *Poly) *Poly {
	at := func(p *Poly) *Poly { return p.SubstAtom(kapAtom.SingleAtom(), u) }
	for _, g := range a.sum.guard {
		ga := at(g.atom)
		if f.knownIs(ga, g.val) {
			continue
		}
		if f.knownIs(ga, 1-g.val) {
			return polyZero
		}
		return nil
	}
	return at(a.sum.mono)
}

func sameSumBody(a, b *Atom) bool {
	if a.sum.mono.Key() != b.sum.mono.Key() || len(a.sum.guard) != len(b.sum.guard) {
		return false
	}
	for i := range a.sum.guard {
		if a.sum.guard[i].val != b.sum.guard[i].val || !a.sum.guard[i].atom.Eq(b.sum.guard[i].atom) {
			return false
		}
	}
	return true
}

// syntLe: p <= q by cheap means (recorded facts, intervals, one-step sums of facts).
func syntLe(f *Facts, p, q *Poly) bool {
	d := q.Sub(p)
	if c, ok := d.Const(); ok {
		return c.Sign() >= 0
	}
	if lo, _ := d.interval(); lo != nil && lo.Sign() >= 0 {
		return true
	}
	if f.keys[d.Key()] || f.keys["="+d.Key()] || f.keys["="+d.Neg().Key()] {
		return true
	}
	for _, c := range f.cons {
		// d - c.p constant >= 0 (or c equality either way)
		if v, ok := d.Sub(c.p).Const(); ok && v.Sign() >= 0 {
			return true
		}
		if c.eq {
			if v, ok := d.Add(c.p).Const(); ok && v.Sign() >= 0 {
				return true
			}
		}
	}
	return false
}

func (c Con) keyStr() string {
	if c.eq {
		return "=" + c.p.Key()
	}
	return c.p.Key()
}

// subst rewrites every constraint.
func (f *Facts) subst(g func(*Poly) *Poly) *Facts {
	n := newFacts()
	n.bad = f.bad
	for _, c := range f.cons {
		n.add(Con{g(c.p), c.eq})
	}
	for _, p := range f.ne {
		n.addNe(g(p))
	}
	var ids []int
	for id := range f.known {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		v := f.known[id]
		p := g(atomP(atomTab[id]))
		if a := p.SingleAtom(); a != nil && p.Eq(atomP(a)) {
			if _, ok := n.known[a.id]; !ok {
				n.known[a.id] = v
			}
		}
	}
	return n
}

func (f *Facts) mentions(m func(*Atom) bool) bool {
	for _, c := range f.cons {
		if c.p.Mentions(m) {
			return true
		}
	}
	for _, p := range f.ne {
		if p.Mentions(m) {
			return true
		}
	}
	return false
}

// guardArg: x is the guard's atom at index u.
func guardArg(g Guard, x *Atom) *Poly {
	ga := g.atom.SingleAtom()
	if ga == nil || ga.op != x.op || len(ga.args) != len(x.args) || len(x.args) == 0 {
		return nil
	}
	kap := kapAtom.SingleAtom()
	for i, p := range ga.args {
		if p.SingleAtom() == kap {
			u := x.args[i]
			if u.Mentions(func(a *Atom) bool { return a == kap }) {
				return nil
			}
			if g.atom.SubstAtom(kap, u).Eq(atomP(x)) {
				return u
			}
		}
	}
	return nil
}

func sameGuards(a, b *Atom) bool {
	if len(a.sum.guard) != len(b.sum.guard) {
		return false
	}
	for i := range a.sum.guard {
		if a.sum.guard[i].val != b.sum.guard[i].val || !a.sum.guard[i].atom.Eq(b.sum.guard[i].atom) {
			return false
		}
	}
	return true
}

var pointTab = map[string]bool{}

// pointwise: for every index satisfying the (common) guards, body(a) <= body(b); with zero set,
// body(a) == 0 implies body(b) == 0 (and body(a) is never negative).
func pointwise(a, b *Atom, zero bool) bool {
	k := fmt.Sprintf("%d/%d/%v/%s|%s", a.id, b.id, zero, a.sum.mono.Key(), b.sum.mono.Key())
	if v, ok := pointTab[k]; ok {
		return v
	}
	pointTab[k] = false
	if a.sum.mono.Mentions(func(x *Atom) bool { return x.sum != nil }) || b.sum.mono.Mentions(func(x *Atom) bool { return x.sum != nil }) {
		return false
	}
	f := newFacts()
	for _, g := range a.sum.guard {
		f.add(Con{g.atom.AddC(-g.val), true})
	}
	var v bool
	if zero {
		if lo, _ := a.sum.mono.interval(); lo == nil || lo.Sign() < 0 {
			return false
		}
		f.add(Con{a.sum.mono, true})
		v = f.bad || f.entails(Con{b.sum.mono, true})
	} else {
		v = f.entails(Con{b.sum.mono.Sub(a.sum.mono), false})
	}
	pointTab[k] = v
	return v
}

func sortedIDs(m map[int]bool) []int {
	out := make([]int, 0, len(m))
	for id := range m {
		out = append(out, id)
	}
	sort.Ints(out)
	return out
}
