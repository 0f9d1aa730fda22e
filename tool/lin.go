package main

// Integer-linear abstract domain: hash-consed atoms, polynomials over atoms,
// and a store of linear constraints (a convex polyhedron whose dimensions are
// the monomials). Emptiness and entailment are decided by exact rational
// linear programming with gcd tightening and a small integer split.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Atom struct {
	id     int
	op     string
	args   []*Poly
	key    string
	lo, hi *big.Int // nil = unbounded
	sum    *SumBody // for op "Sum"
	depth  int
}

// SumBody is the body of a prefix sum: sum over kap in [0,upper) of body(kap)
// restricted to those kap where every guard atom has the given 0/1 value.
type SumBody struct {
	guard []Guard
	mono  *Poly // poly in atom kap
}

type Guard struct {
	atom *Poly // single boolean atom in kap
	val  int64
}

var (
	atomTab  []*Atom
	atomByK  = map[string]*Atom{}
	bigOne   = big.NewInt(1)
	bigZero  = big.NewInt(0)
	kapAtom  *Poly
	pow2tab  [130]*big.Int
	two64    *big.Int
	maxU64   *big.Int
	sizeHi   *big.Int // assumed bound on lengths and sizes
	polyZero *Poly
	polyOne  *Poly
)

func init() {
	for i := range pow2tab {
		pow2tab[i] = new(big.Int).Lsh(bigOne, uint(i))
	}
	two64 = pow2tab[64]
	maxU64 = new(big.Int).Sub(two64, bigOne)
	sizeHi = pow2tab[56]
	polyZero = &Poly{}
	polyOne = constP(1)
	kapAtom = mkAtom("kap", bigZero, sizeHi)
}

func rawAtom(op string, lo, hi *big.Int, args []*Poly, sum *SumBody) *Atom {
	var sb strings.Builder
	sb.WriteString(op)
	if sum != nil {
		sb.WriteString("{")
		for _, g := range sum.guard {
			fmt.Fprintf(&sb, "%s=%d;", g.atom.Key(), g.val)
		}
		sb.WriteString("|" + sum.mono.Key() + "}")
	}
	if len(args) > 0 {
		sb.WriteString("(")
		for i, a := range args {
			if i > 0 {
				sb.WriteString(",")
			}
			sb.WriteString(a.Key())
		}
		sb.WriteString(")")
	}
	k := sb.String()
	if a, ok := atomByK[k]; ok {
		return a
	}
	a := &Atom{id: len(atomTab), op: op, args: args, key: k, lo: lo, hi: hi, sum: sum}
	for _, p := range args {
		for _, t := range p.terms {
			for _, x := range t.mono {
				if d := atomTab[x].depth + 1; d > a.depth {
					a.depth = d
				}
			}
		}
	}
	atomTab = append(atomTab, a)
	atomByK[k] = a
	return a
}

func mkAtom(op string, lo, hi *big.Int, args ...*Poly) *Poly {
	a := rawAtom(op, lo, hi, args, nil)
	return atomP(a)
}

func atomP(a *Atom) *Poly {
	return &Poly{terms: []term{{mono: []int{a.id}, c: bigOne}}}
}

// Poly ---------------------------------------------------------------

type term struct {
	mono []int // sorted atom ids; empty = constant
	c    *big.Int
}

type Poly struct {
	terms []term // sorted by monomial, no zero coefficients
	key   string
}

func cmpMono(a, b []int) int {
	if len(a) != len(b) {
		return len(a) - len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] - b[i]
		}
	}
	return 0
}

func constP(n int64) *Poly { return constB(big.NewInt(n)) }

func constB(n *big.Int) *Poly {
	if n.Sign() == 0 {
		return &Poly{}
	}
	return &Poly{terms: []term{{nil, new(big.Int).Set(n)}}}
}

func (p *Poly) Key() string {
	if p.key == "" {
		var sb strings.Builder
		for _, t := range p.terms {
			sb.WriteString(t.c.String())
			for _, m := range t.mono {
				fmt.Fprintf(&sb, "*%d", m)
			}
			sb.WriteByte('+')
		}
		if len(p.terms) == 0 {
			sb.WriteByte('0')
		}
		p.key = sb.String()
	}
	return p.key
}

func (p *Poly) Eq(q *Poly) bool { return p == q || p.Key() == q.Key() }

func (p *Poly) String() string {
	if len(p.terms) == 0 {
		return "0"
	}
	var out []string
	for i := len(p.terms) - 1; i >= 0; i-- {
		t := p.terms[i]
		var ms []string
		for _, m := range t.mono {
			ms = append(ms, atomTab[m].String())
		}
		s := strings.Join(ms, "*")
		switch {
		case s == "":
			s = t.c.String()
		case t.c.Cmp(bigOne) == 0:
		case t.c.Cmp(big.NewInt(-1)) == 0:
			s = "-" + s
		default:
			s = t.c.String() + "*" + s
		}
		out = append(out, s)
	}
	return strings.ReplaceAll(strings.Join(out, " + "), "+ -", "- ")
}

func (a *Atom) String() string {
	s := a.op
	if a.sum != nil {
		var gs []string
		for _, g := range a.sum.guard {
			gs = append(gs, fmt.Sprintf("%s=%d", g.atom, g.val))
		}
		s += "{" + strings.Join(gs, ",") + "|" + a.sum.mono.String() + "}"
	}
	if len(a.args) == 0 {
		return s
	}
	var as []string
	for _, x := range a.args {
		as = append(as, x.String())
	}
	return s + "(" + strings.Join(as, ",") + ")"
}

func (p *Poly) Const() (*big.Int, bool) {
	if len(p.terms) == 0 {
		return bigZero, true
	}
	if len(p.terms) == 1 && len(p.terms[0].mono) == 0 {
		return p.terms[0].c, true
	}
	return nil, false
}

func (p *Poly) Int64() (int64, bool) {
	c, ok := p.Const()
	if !ok || !c.IsInt64() {
		return 0, false
	}
	return c.Int64(), true
}

func (p *Poly) ConstTerm() *big.Int {
	if len(p.terms) > 0 && len(p.terms[0].mono) == 0 {
		return p.terms[0].c
	}
	return bigZero
}

// SingleAtom: p is exactly one atom with coefficient 1.
func (p *Poly) SingleAtom() *Atom {
	if len(p.terms) == 1 && len(p.terms[0].mono) == 1 && p.terms[0].c.Cmp(bigOne) == 0 {
		return atomTab[p.terms[0].mono[0]]
	}
	return nil
}

func combine(p, q *Poly, s int64) *Poly { // p + s*q
	out := make([]term, 0, len(p.terms)+len(q.terms))
	i, j := 0, 0
	sb := big.NewInt(s)
	for i < len(p.terms) || j < len(q.terms) {
		var c int
		switch {
		case i == len(p.terms):
			c = 1
		case j == len(q.terms):
			c = -1
		default:
			c = cmpMono(p.terms[i].mono, q.terms[j].mono)
		}
		switch {
		case c < 0:
			out = append(out, p.terms[i])
			i++
		case c > 0:
			out = append(out, term{q.terms[j].mono, new(big.Int).Mul(sb, q.terms[j].c)})
			j++
		default:
			v := new(big.Int).Mul(sb, q.terms[j].c)
			v.Add(v, p.terms[i].c)
			if v.Sign() != 0 {
				out = append(out, term{p.terms[i].mono, v})
			}
			i++
			j++
		}
	}
	return &Poly{terms: out}
}

func (p *Poly) Add(q *Poly) *Poly { return combine(p, q, 1) }
func (p *Poly) Sub(q *Poly) *Poly { return combine(p, q, -1) }
func (p *Poly) AddC(n int64) *Poly {
	return combine(p, constP(n), 1)
}
func (p *Poly) Neg() *Poly { return combine(polyZero, p, -1) }

func (p *Poly) MulB(n *big.Int) *Poly {
	if n.Sign() == 0 {
		return &Poly{}
	}
	out := make([]term, len(p.terms))
	for i, t := range p.terms {
		out[i] = term{t.mono, new(big.Int).Mul(t.c, n)}
	}
	return &Poly{terms: out}
}
func (p *Poly) MulC(n int64) *Poly { return p.MulB(big.NewInt(n)) }

func (p *Poly) Mul(q *Poly) *Poly {
	if c, ok := p.Const(); ok {
		return q.MulB(c)
	}
	if c, ok := q.Const(); ok {
		return p.MulB(c)
	}
	res := polyZero
	for _, a := range p.terms {
		var ts []term
		for _, b := range q.terms {
			m := append(append([]int{}, a.mono...), b.mono...)
			sort.Ints(m)
			ts = append(ts, term{m, new(big.Int).Mul(a.c, b.c)})
		}
		sort.Slice(ts, func(i, j int) bool { return cmpMono(ts[i].mono, ts[j].mono) < 0 })
		res = res.Add(&Poly{terms: ts})
	}
	return res
}

// Atoms calls f for every atom occurring in p (not recursing in args).
func (p *Poly) Atoms(f func(*Atom)) {
	for _, t := range p.terms {
		for _, m := range t.mono {
			f(atomTab[m])
		}
	}
}

func (p *Poly) Mentions(pred func(*Atom) bool) bool {
	for _, t := range p.terms {
		for _, m := range t.mono {
			a := atomTab[m]
			if pred(a) {
				return true
			}
			for _, x := range a.args {
				if x.Mentions(pred) {
					return true
				}
			}
		}
	}
	return false
}

// Subst replaces atoms (deeply). f returns nil to keep.
func (p *Poly) Subst(f func(*Atom) *Poly) *Poly {
	changed := false
	cache := map[int]*Poly{}
	for _, t := range p.terms {
		for _, m := range t.mono {
			if _, ok := cache[m]; ok {
				continue
			}
			np := substAtom(atomTab[m], f)
			cache[m] = np
			if np != nil {
				changed = true
			}
		}
	}
	if !changed {
		return p
	}
	res := polyZero
	for _, t := range p.terms {
		cur := constB(t.c)
		for _, m := range t.mono {
			if np := cache[m]; np != nil {
				cur = cur.Mul(np)
			} else {
				cur = cur.Mul(atomP(atomTab[m]))
			}
		}
		res = res.Add(cur)
	}
	return res
}

func substAtom(a *Atom, f func(*Atom) *Poly) *Poly {
	if r := f(a); r != nil {
		return r
	}
	if len(a.args) == 0 && a.sum == nil {
		return nil
	}
	changed := false
	nargs := make([]*Poly, len(a.args))
	for i, x := range a.args {
		nargs[i] = x.Subst(f)
		if nargs[i] != x {
			changed = true
		}
	}
	if a.sum != nil {
		g := func(x *Atom) *Poly {
			if x == kapAtom.SingleAtom() {
				return nil
			}
			return f(x)
		}
		nm := a.sum.mono.Subst(g)
		ch := nm != a.sum.mono
		var ng []Guard
		for _, gd := range a.sum.guard {
			na := gd.atom.Subst(g)
			if na != gd.atom {
				ch = true
			}
			ng = append(ng, Guard{na, gd.val})
		}
		if !changed && !ch {
			return nil
		}
		return mkSumRaw(ng, nm, nargs[0])
	}
	if !changed {
		return nil
	}
	return rebuildAtom(a, nargs)
}

func rebuildAtom(a *Atom, nargs []*Poly) *Poly {
	switch a.op {
	case "div":
		return mkDiv(nargs[0], nargs[1])
	case "mod":
		return mkMod(nargs[0], nargs[1])
	case "none":
		return mkNone(nargs[0])
	}
	return atomP(rawAtom(a.op, a.lo, a.hi, nargs, nil))
}

// mkNone: 1 if the non-negative s is zero, else 0.
func mkNone(s *Poly) *Poly {
	if c, ok := s.Const(); ok {
		if c.Sign() == 0 {
			return polyOne
		}
		return polyZero
	}
	return atomP(rawAtom("none", bigZero, bigOne, []*Poly{s}, nil))
}

func init() {
	axiomTab["none"] = func(f *Facts, a *Atom) []Con {
		s := a.args[0]
		out := []Con{{atomP(a).Add(s).AddC(-1), false}}
		if _, hi := s.interval(); hi != nil {
			out = append(out, Con{constB(hi).Sub(constB(hi).Mul(atomP(a))).Sub(s), false})
		}
		return out
	}
}

func substMap(m map[int]*Poly) func(*Atom) *Poly {
	return func(a *Atom) *Poly { return m[a.id] }
}

func (p *Poly) SubstAtom(a *Atom, q *Poly) *Poly {
	return p.Subst(func(x *Atom) *Poly {
		if x == a {
			return q
		}
		return nil
	})
}

// mkDiv builds floor(x/c) for x>=0 and c>0.
func mkDiv(x, c *Poly) *Poly {
	if cc, ok := c.Const(); ok && cc.Sign() > 0 {
		if cc.Cmp(bigOne) == 0 {
			return x
		}
		// split off the multiples of cc
		q, r := polyZero, polyZero
		for _, t := range x.terms {
			dq, dr := new(big.Int), new(big.Int)
			dq.DivMod(t.c, cc, dr)
			if dq.Sign() != 0 {
				q = q.Add(&Poly{terms: []term{{t.mono, dq}}})
			}
			if dr.Sign() != 0 {
				r = r.Add(&Poly{terms: []term{{t.mono, dr}}})
			}
		}
		if rc, ok := r.Const(); ok && rc.Sign() >= 0 {
			// rc < cc
			return q
		}
		// nested: floor(floor(y/b)/c) = floor(y/(b*c))
		if a := r.SingleAtom(); a != nil && a.op == "div" {
			if bc, ok := a.args[1].Const(); ok {
				return q.Add(mkDiv(a.args[0], constB(new(big.Int).Mul(bc, cc))))
			}
		}
		return q.Add(mkAtom("div", nil, nil, r, constB(cc)))
	}
	// symbolic divisor: exact multiples
	if q := exactQuot(x, c); q != nil {
		return q
	}
	return mkAtom("div", nil, nil, x, c)
}

// exactQuot: x == q*c syntactically, for single-term c.
func exactQuot(x, c *Poly) *Poly {
	if len(x.terms) == 0 {
		return polyZero
	}
	if len(c.terms) != 1 {
		if x.Eq(c) {
			return polyOne
		}
		return nil
	}
	ct := c.terms[0]
	q := polyZero
	for _, t := range x.terms {
		dq, dr := new(big.Int), new(big.Int)
		dq.QuoRem(t.c, ct.c, dr)
		if dr.Sign() != 0 {
			return nil
		}
		m := append([]int{}, t.mono...)
		for _, a := range ct.mono {
			found := false
			for i, b := range m {
				if b == a {
					m = append(m[:i], m[i+1:]...)
					found = true
					break
				}
			}
			if !found {
				return nil
			}
		}
		q = q.Add(&Poly{terms: []term{{m, dq}}})
	}
	return q
}

func mkMod(x, c *Poly) *Poly {
	if _, ok := c.Const(); ok {
		return x.Sub(c.Mul(mkDiv(x, c)))
	}
	if exactQuot(x, c) != nil {
		return polyZero
	}
	return mkAtom("mod", bigZero, maxU64, x, c)
}

func mkSumRaw(g []Guard, mono *Poly, upper *Poly) *Poly {
	if u, ok := upper.Const(); ok && u.Sign() <= 0 {
		return polyZero
	}
	sort.Slice(g, func(i, j int) bool { return g[i].atom.Key() < g[j].atom.Key() })
	a := rawAtom("Sum", bigZero, sizeHi, []*Poly{upper}, &SumBody{g, mono})
	return atomP(a)
}

// interval -------------------------------------------------------------

func (a *Atom) bounds() (lo, hi *big.Int) {
	lo, hi = a.lo, a.hi
	if a.op == "div" && lo == nil {
		if c, ok := a.args[1].Const(); ok {
			l, h := a.args[0].interval()
			if l != nil {
				lo = new(big.Int).Div(l, c)
			}
			if h != nil {
				hi = new(big.Int).Div(h, c)
			}
		} else {
			lo = bigZero
			_, hi = a.args[0].interval()
		}
	}
	return
}

func (p *Poly) interval() (lo, hi *big.Int) {
	lo, hi = new(big.Int), new(big.Int)
	for _, t := range p.terms {
		var tl, th *big.Int = big.NewInt(1), big.NewInt(1)
		for _, m := range t.mono {
			al, ah := atomTab[m].bounds()
			// all products only handled for non-negative factors
			if al == nil || al.Sign() < 0 {
				if len(t.mono) > 1 {
					tl, th = nil, nil
					break
				}
			}
			if tl != nil && al != nil {
				tl = new(big.Int).Mul(tl, al)
			} else {
				tl = nil
			}
			if th != nil && ah != nil {
				th = new(big.Int).Mul(th, ah)
			} else {
				th = nil
			}
		}
		var cl, ch *big.Int
		if t.c.Sign() > 0 {
			cl, ch = tl, th
		} else {
			cl, ch = th, tl
		}
		if lo != nil {
			if cl == nil {
				lo = nil
			} else {
				lo.Add(lo, new(big.Int).Mul(cl, t.c))
			}
		}
		if hi != nil {
			if ch == nil {
				hi = nil
			} else {
				hi.Add(hi, new(big.Int).Mul(ch, t.c))
			}
		}
	}
	return
}
