package main

// C06: declared length bounds.

func init() {
	rules["C06"] = &rule{run: ruleBounds, min: 100, rule: "For every kind of codec, the polynomial returned by each length getter is compared with the exact range of encoding sizes of that kind (a polynomial in the type's length, limit, field list and element bounds): minimum <= least size, greatest size <= maximum, all equal when the type is fixed-size, fuzzing minimum <= fuzzing maximum."}
}

// basicSize of an element kind name ("uint16" ...).
var basicSize = map[string]int64{"bool": 1, "uint8": 1, "uint16": 2, "uint32": 4, "uint64": 8}

func (s *Subject) elemName() string {
	for n := range basicSize {
		if len(s.name) > len(n) && s.name[len(s.name)-len(n):] == n {
			return n
		}
	}
	return ""
}

func (s *Subject) typLen() *Poly { return rtLen(s.typ) }
func (s *Subject) limit() *Poly  { return szAtom("Limit:"+s.typ.key, s.typ.args...) }
func (s *Subject) child() Opaque { return sszOf(s.elem) }

// field codec j of a container
func (s *Subject) field(j *Poly) Opaque { return Opaque{kind: "ssz", key: s.seqKey, args: []*Poly{j}} }

// findSeq locates the field list of a container descriptor.
func (s *Subject) findSeq() {
	if s.kind != "struct" {
		return
	}
	for i := range s.st.regs {
		r := s.st.regs[i]
		if r.class != "desc" {
			continue
		}
		for _, w := range r.writes {
			if p, ok := w.val.(Ptr); ok && w.q == nil && p.r >= 0 && s.st.reg(p.r).seq != nil {
				n, ok := s.st.loadScalar(r.id, w.off.AddC(8), 8, intT).(*Poly)
				if ok {
					s.seqKey = s.st.reg(p.r).seq.key
					s.nf = n
					s.seqReg = p.r
					s.st.assume(Cond{constB(pow2tab[31]).Sub(n), '+'})
				}
			}
		}
	}
}

// fieldSum is sum over fields j < upper with IsFixed(j) == fixed (or all, fixed < 0) of body(j).
func (s *Subject) fieldSum(fixed int64, op string, upper *Poly) *Poly {
	var g []Guard
	k := s.field(kapAtom)
	if fixed >= 0 {
		g = []Guard{{chAtom("IsFixed", k), fixed}}
	}
	body := polyOne
	if op != "1" {
		body = chAtom(op, k)
	}
	return mkSumRaw(g, body, upper)
}

// sizes returns the least and greatest encoding size of valid values, and the value's alignment
// to the contract of the fixed part.
func (s *Subject) sizes(fixed bool) (lo, hi *Poly) {
	if n, ok := basicSize[s.kind]; ok {
		return constP(n), constP(n)
	}
	e := s.child()
	off := polyZero
	switch s.kind {
	case "ptr":
		return chAtom("MinLen", e), chAtom("MaxLen", e)
	case "bytesN", "bitvector":
		return s.typLen(), s.typLen()
	case "bytes":
		return polyZero, s.limit()
	case "bitlist":
		return polyOne, mkDiv(s.limit(), constP(8)).AddC(1)
	case "basicvec":
		n := s.typLen().MulC(basicSize[s.elemName()])
		return n, n
	case "basiclist":
		return polyZero, s.limit().MulC(basicSize[s.elemName()])
	case "vec":
		if !fixed {
			off = constP(4)
		}
		return s.typLen().Mul(chAtom("MinLen", e).Add(off)), s.typLen().Mul(chAtom("MaxLen", e).Add(off))
	case "list":
		if !s.elemFixed() {
			off = constP(4)
		}
		return polyZero, s.limit().Mul(chAtom("MaxLen", e).Add(off))
	case "struct":
		if s.nf == nil {
			return nil, nil
		}
		base := s.fieldSum(1, "FixedLen", s.nf).Add(s.fieldSum(0, "1", s.nf).MulC(4))
		return base.Add(s.fieldSum(0, "MinLen", s.nf)), base.Add(s.fieldSum(0, "MaxLen", s.nf))
	}
	return nil, nil
}

func (s *Subject) elemFixed() bool {
	return s.st.entailsCond(Cond{chAtom("IsFixed", s.child()).AddC(-1), '='})
}

// fixedCases: the fact sets in which the codec is fixed-size / variable-size.
func (c *Ctx) fixedCases(s *Subject, f *Facts, fn func(fixed bool, f *Facts)) {
	b, ok := s.getter(s.st.Clone(), c.w.e, "IsFixed").(Bool)
	if !ok {
		c.ob("isfixed:"+s.name, false, 0, "IsFixed of %s is not a boolean", s.name)
		return
	}
	if f.entailsCond(b.c) {
		fn(true, f)
	} else if f.entailsCond(b.c.Not()) {
		fn(false, f)
	} else {
		for _, x := range []bool{true, false} {
			g := f.Clone()
			cd := b.c
			if !x {
				cd = cd.Not()
			}
			assumeFacts(g, cd)
			fn(x, g)
		}
	}
}

func assumeFacts(f *Facts, c Cond) {
	switch c.op {
	case '=':
		f.add(Con{c.p, true})
	case '+':
		f.add(Con{c.p, false})
	case '!':
		f.addNe(c.p)
	}
}

// shouldBeFixed: is the kind fixed-size according to SSZ? nil = depends on the elements (cond given).
func (s *Subject) fixedSpec() (bool, *Cond) {
	switch s.kind {
	case "bytes", "bitlist", "basiclist", "list":
		return false, nil
	case "ptr", "vec":
		return false, &Cond{chAtom("IsFixed", s.child()).AddC(-1), '='}
	case "struct":
		return false, &Cond{s.fieldSum(0, "1", s.nf), '='}
	}
	return true, nil
}

func ruleBounds(c *Ctx) {
	c.each(func(s *Subject) {
		vals := map[string]*Poly{}
		var f *Facts
		for _, m := range getters {
			ret, all := c.decided(s, m)
			if !all {
				return
			}
			if len(ret) != 1 || ret[0].kind != "return" {
				c.ob("getter:"+s.name+":"+m, false, 0, "%s of %s does not simply return", m, s.name)
				return
			}
			if p, ok := ret[0].res[0].(*Poly); ok {
				vals[m] = p
			}
			f = ret[0].st.facts
		}
		if s.kind == "struct" && s.nf == nil {
			c.ob("fields:"+s.name, false, 0, "no field list found in the container descriptor")
			return
		}
		if b, ok := s.getter(s.st.Clone(), c.w.e, "IsFixed").(Bool); ok {
			want, cond := s.fixedSpec()
			if cond == nil {
				w := Cond{polyZero, '='}
				if !want {
					w = w.Not()
				}
				cond = &w
			}
			// both directions
			g := f.Clone()
			assumeFacts(g, *cond)
			h := f.Clone()
			assumeFacts(h, cond.Not())
			c.ob("isfixed:"+s.name, (!g.feasibleWith(nil) || g.entailsCond(b.c)) && (!h.feasibleWith(nil) || h.entailsCond(b.c.Not())), c.mpos(s, "IsFixed"), "IsFixed of %s is %s, but it is fixed-size exactly if %s", s.name, b.c, cond)
		}
		c.fixedCases(s, f, func(fixed bool, f *Facts) {
			lo, hi := s.sizes(fixed)
			if lo == nil {
				return
			}
			k := ":" + s.name
			if fixed {
				k += ":fixed"
			}
			le := func(name, m string, a, b *Poly, format string) {
				c.ob(name+k, c.proveAll(f, b.Sub(a)), c.mpos(s, m), format, s.name, vals[m], a, b)
			}
			if fixed {
				le("fixed-min", "MinLen", vals["MinLen"], lo, "%s: MinLen %s must not exceed the size of its encodings (%[3]s <= %[4]s)")
				le("fixed-len-le", "FixedLen", vals["FixedLen"], lo, "%s: FixedLen %s differs from the size of its encodings (%[3]s <= %[4]s)")
				le("fixed-len-ge", "FixedLen", hi, vals["FixedLen"], "%s: FixedLen %s differs from the size of its encodings (%[3]s <= %[4]s)")
				le("fixed-max-le", "MaxLen", vals["MaxLen"], hi, "%s: MaxLen %s differs from the size of its encodings (%[3]s <= %[4]s)")
				le("fixed-min-ge", "MinLen", lo, vals["MinLen"], "%s: MinLen %s differs from the size of its encodings (%[3]s <= %[4]s)")
			} else {
				le("min", "MinLen", vals["MinLen"], lo, "%s: MinLen is %s, above the size of a valid encoding (%[4]s)")
			}
			le("max", "MaxLen", hi, vals["MaxLen"], "%s: MaxLen is %s, below the size of a valid encoding (%[3]s)")
			le("fuzz", "FuzzMaxLen", vals["FuzzMinLen"], vals["FuzzMaxLen"], "%s: FuzzMaxLen is %s, below FuzzMinLen (%[3]s)")
			// what other codecs assume of their elements
			le("contract-fixed", "FixedLen", vals["FixedLen"], vals["MinLen"], "%s: FixedLen is %s, above MinLen (%[4]s)")
			le("contract-order", "MaxLen", vals["MinLen"], vals["MaxLen"], "%s: MaxLen is %s, below MinLen (%[3]s)")
			ok := true
			for _, g := range zeroCases(f, vals["FuzzMinLen"]) {
				if g.feasibleWith(nil) && !g.entails(Con{vals["FuzzMaxLen"], true}) && !zeroMono(g, vals["FuzzMaxLen"]) {
					ok = false
				}
			}
			c.ob("contract-fuzzzero"+k, ok, c.mpos(s, "FuzzMinLen"), "%s: FuzzMinLen can be 0 while FuzzMaxLen is not", s.name)
			if fixed {
				c.ob("contract-fuzzfixed"+k, f.entails(Con{vals["FuzzMinLen"].Sub(vals["FixedLen"]), true}) && f.entails(Con{vals["FuzzMaxLen"].Sub(vals["FixedLen"]), true}), c.mpos(s, "FuzzMinLen"), "%s: fuzzing lengths %s..%s of a fixed-size codec differ from its length", s.name, vals["FuzzMinLen"], vals["FuzzMaxLen"])
			}
		})
	})
}

// zeroCases: the ways a polynomial with non-negative terms can be zero.
func zeroCases(f *Facts, p *Poly) []*Facts {
	g := f.Clone()
	g.add(Con{p, true})
	out := []*Facts{g}
	for _, t := range p.terms {
		if t.c.Sign() <= 0 {
			return []*Facts{g}
		}
		var next []*Facts
		if len(t.mono) == 0 {
			return nil
		}
		for _, x := range out {
			for _, a := range t.mono {
				y := x.Clone()
				y.add(Con{atomP(atomTab[a]), true})
				next = append(next, y)
			}
		}
		out = next
	}
	return out
}

// zeroMono: every monomial has a factor known to be zero.
func zeroMono(f *Facts, p *Poly) bool {
	for _, t := range p.terms {
		ok := false
		for _, a := range t.mono {
			if f.entails(Con{atomP(atomTab[a]), true}) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}
