package main

import (
	"fmt"
	"strings"
)

// Rules about the construction of descriptors: C21 (dispatch), C22 (fields of containers).

func init() {
	rules["C21"] = &rule{run: ruleDispatch, min: 200, rule: "The factory is analysed for a type of unknown kind: every path that returns a descriptor is compatible only with the kinds (and list limit, bitvector length, nested results) that have a scheme, every path that returns an error only with those that have none; and the descriptor of every kind encodes, hashes and reports lengths as its scheme demands (rules of C05, C06, C07)."}
	rules["C22"] = &rule{run: ruleFields, min: 30, rule: "Every path through the construction of a container appends, for the struct field of that index, exactly the records its tags call for (none, itself, or the squashed fields at their combined offset); every operation of a container hands each field codec the memory of its own field and touches no other memory of the value; sizes, layout and roots follow the field list (rules of C04, C05, C07), and printing visits it once in order; tags.HasFlag reports a flag exactly when a comma-separated part of the tag is the flag."}
}

const nKinds = 27

// kindCases calls f for every combination of type kind and element kind the facts allow.
func kindCases(f *Facts, t Opaque, fn func(kd, ek int64, f *Facts)) {
	for kd := int64(0); kd < nKinds; kd++ {
		c := Cond{rtKind(t).AddC(-kd), '='}
		if !f.feasibleCond(c) {
			continue
		}
		g := f.Clone()
		assumeFacts(g, c)
		if kd != kArr && kd != kSl {
			fn(kd, -1, g)
			continue
		}
		for ek := int64(0); ek < nKinds; ek++ {
			c := Cond{rtKind(rtElem(t)).AddC(-ek), '='}
			if !g.feasibleCond(c) {
				continue
			}
			h := g.Clone()
			assumeFacts(h, c)
			fn(kd, ek, h)
		}
	}
}

func isBasicKind(k int64) bool { return k == kBool || k == kU8 || k == kU16 || k == kU32 || k == kU64 }

func ruleDispatch(c *Ctx) {
	c.global(func() {
		e := c.w.e
		c.dispatch("DefaultSSZFactory", Opaque{kind: "fn", key: "factory"}, Opaque{kind: "rtype", key: "T"})
		// the default factory builds nested codecs with itself
		if fn := e.fnByName("types", "SSZFactory"); fn != nil {
			e.contracts[fn] = func(st *State, args []Value) []Value {
				return st.opaqueCall(Opaque{kind: "fn", key: "factory"}, args)
			}
			c.pre += "default/"
			c.dispatch("SSZFactory", Opaque{kind: "rtype", key: "T"})
			delete(e.contracts, fn)
			c.pre = strings.TrimSuffix(c.pre, "default/")
		} else {
			c.ob("factory", false, 0, "types.SSZFactory not found")
		}
	})
	c.also("C05", nil)
	c.also("C06", nil)
	c.also("C07", nil)
}

// dispatch checks every path of a factory against the table of schemes.
func (c *Ctx) dispatch(name string, args ...Value) {
	e := c.w.e
	fac := e.fnByName("types", name)
	if fac == nil {
		c.ob("factory", false, 0, "types.%s not found", name)
		return
	}
	t := args[len(args)-1].(Opaque)
	st := c.w.base.Clone()
	st.events = nil
	var outs []*Outcome
	func() {
		defer func() {
			if x := recover(); x != nil {
				c.ob("analysed:factory", false, fac.Pos(), "the factory cannot be analysed: %s", haltStr(x))
			}
		}()
		outs = e.Call(st, fac, args, nil)
	}()
	c.nOutc += len(outs)
	c.nRun++
	lst, ok1 := e.metaRType("lists", "List")
	bvm, ok2 := e.metaRType("bitfields", "BitvectorMeta")
	if !ok1 || !ok2 {
		c.ob("anchor:meta", false, fac.Pos(), "lists.List or bitfields.BitvectorMeta not found")
		return
	}
	lim := Cond{implAtom(rtPtr(t), lst).AddC(-1), '='}
	bv := Cond{implAtom(rtPtr(t), bvm).AddC(-1), '='}
	bits := szAtom("BitLen:"+t.key, t.args...)
	fits := Cond{rtLen(t).Sub(mkDiv(bits.AddC(7), constP(8))), '='}
	for _, o := range outs {
		if o.kind != "return" {
			c.ob("factory-"+o.kind, false, o.pos, "building a descriptor: %s: %s", o.kind, o.reason)
			continue
		}
		c.noteFuncs(o.st.events)
		nested := hasEvent(o.st.events, "facterr")
		if c.okOutcome(o) {
			c.ob("nested-error", nested == nil, o.pos, "a descriptor is returned although the codec of a nested type could not be built")
			kindCases(o.st.facts, t, func(kd, ek int64, f *Facts) {
				key := fmt.Sprintf("accept:%d:%d", kd, ek)
				// pointers and series of anything but basic values need the codec of their element
				if kd == kPtr || (kd == kArr || kd == kSl) && !isBasicKind(ek) {
					el := rtElem(t)
					c.ob(key+":nested", f.entailsCond(Cond{bAtom("facterr:"+el.key, el.args...), '='}), o.pos,
						"a descriptor is returned for a type of reflect kind %d (element kind %d) although no codec was built for its elements", kd, ek)
				}
				switch {
				case isBasicKind(kd) || kd == kPtr || kd == kStr:
					c.ob(key, true, o.pos, "")
				case kd == kSl:
					c.ob(key, f.entailsCond(lim), o.pos, "a descriptor is returned for a slice type (element kind %d) that is not known to declare a limit", ek)
				case kd == kArr:
					ok := true
					if ek == kU8 && f.feasibleCond(bv) {
						g := f.Clone()
						assumeFacts(g, bv)
						ok = g.entailsCond(fits)
					}
					c.ob(key, ok, o.pos, "a descriptor is returned for a bitvector type whose byte length is not known to match its bit length")
				default:
					c.ob(key, false, o.pos, "a descriptor is returned for types of reflect kind %d, which has no scheme", kd)
				}
			})
			continue
		}
		if nested != nil {
			continue
		}
		kindCases(o.st.facts, t, func(kd, ek int64, f *Facts) {
			key := fmt.Sprintf("refuse:%d:%d", kd, ek)
			ok := false
			switch {
			case kd == kStr:
				ok = c.squashRefused(o.st, t)
			case isBasicKind(kd) || kd == kPtr:
			case kd == kSl:
				ok = f.entailsCond(lim.Not())
			case kd == kArr:
				ok = ek == kU8 && f.entailsCond(bv) && f.entailsCond(fits.Not())
			default:
				ok = true
			}
			c.ob(key, ok, o.pos, "an error is returned for a type of reflect kind %d (element kind %d) that has a scheme", kd, ek)
		})
	}
}

// squashRefused: some field asks to be squashed and its codec cannot be.
func (c *Ctx) squashRefused(st *State, t Opaque) bool {
	f := st.facts
	for _, a := range atomTab {
		if a == nil || !strings.HasPrefix(a.op, "HasFlag:ssz:squash:"+t.key) || len(a.args) != 1 {
			continue
		}
		if !f.entailsCond(Cond{atomP(a).AddC(-1), '='}) {
			continue
		}
		if c.notSquashable(f, t, a.args[0]) {
			return true
		}
	}
	return false
}

func (c *Ctx) notSquashable(f *Facts, t Opaque, k *Poly) bool {
	return f.entailsCond(Cond{c.squashAtom(t, k), '='})
}

func (c *Ctx) squashAtom(t Opaque, k *Poly) *Poly {
	o := sszOf(fieldType(t, k))
	for _, a := range atomTab {
		if a != nil && strings.HasPrefix(a.op, "is:ssz:"+o.key+":") && strings.HasSuffix(a.op, "SquashableFields") && len(a.args) == 1 && a.args[0].Eq(k) {
			return atomP(a)
		}
	}
	return polyOne
}

// contrib is a family of records (ssz, offset) for index seqJ below n.
type contrib struct {
	ssz Opaque
	off *Poly
	n   *Poly // nil: a single record
}

// contribs lists the records a sequence of events appends to region r, in order.
func (s *Subject) contribs(evs []Event, all []Event, r int, depth int) ([]contrib, string) {
	var out []contrib
	if depth > 4 {
		return nil, "records are passed through too many slices"
	}
	for i := range evs {
		ev := &evs[i]
		if ev.loop != nil {
			hit := false
			for _, p := range ev.loop.paths {
				walk(p.events, nil, func(x *Event, in []*LoopPath) { hit = hit || x.kind == "append" && x.ptr.r == r })
			}
			if !hit {
				continue
			}
			if len(ev.loop.paths) != 1 {
				return nil, "records appended in a loop depend on more than the index"
			}
			in, why := s.contribs(ev.loop.paths[0].events, all, r, depth+1)
			if why != "" {
				return nil, why
			}
			for _, x := range in {
				if x.n != nil || len(in) != 1 {
					return nil, "several records appended per round of a loop"
				}
				k := ev.loop.k.SingleAtom()
				ssz := x.ssz
				ssz.args = nil
				for _, a := range x.ssz.args {
					ssz.args = append(ssz.args, a.SubstAtom(k, seqJ))
				}
				out = append(out, contrib{ssz, x.off.SubstAtom(k, seqJ), ev.n})
			}
			continue
		}
		if ev.kind != "append" || ev.ptr.r != r {
			continue
		}
		if ev.n != nil && ev.n.isZero() {
			continue
		}
		for _, x := range ev.elems {
			el := x.(SeqElem)
			o, ok := el.ssz.(Opaque)
			if !ok || el.off == nil {
				return nil, "a record's codec or accessor is not known"
			}
			gen := false
			for _, a := range o.args {
				gen = gen || a.Eq(seqJ)
			}
			if !gen {
				out = append(out, contrib{o, el.off, nil})
				continue
			}
			out = append(out, contrib{o, el.off, ev.n})
		}
		if len(ev.elems) == 0 {
			return nil, "appended records are not known"
		}
	}
	return out, ""
}

func ruleFields(c *Ctx) {
	c.global(c.flagParsing)
	ruleOwnMemory(c)
	c.each(func(s *Subject) {
		if s.kind == "struct" {
			c.printOrder(s)
		}
	})
	st := ofKind("struct")
	c.also("C04", st)
	c.also("C05", st)
	c.also("C07", st)
}

func ruleOwnMemory(c *Ctx) {
	c.each(func(s *Subject) {
		if s.kind != "struct" {
			return
		}
		c.fieldList(s)
		ms := c.ops(s, readers, printers, decoders)
		if c.decodeOnly {
			ms = []string{"SizeOf", "Encode", "Decode"}
		}
		for _, m := range ms {
			ret, _ := c.decided(s, m)
			bad := false
			for _, o := range ret {
				if o.st == nil {
					continue
				}
				walk(o.st.events, nil, func(ev *Event, in []*LoopPath) {
					switch ev.kind {
					case "load", "store":
						if ev.rcls == "user" && (ev.n == nil || !ev.n.isZero()) {
							bad = true
							c.ob("own-memory:"+s.name+":"+m, false, ev.pos, "%s of %s accesses memory of the value at offset %s that belongs to no field codec, in %s", m, s.name, ev.ptr.off, fnName(ev.fn))
						}
					case "child":
						o, ok := ev.val.(Opaque)
						if !ok || o.key != s.seqKey || len(o.args) != 1 {
							bad = true
							c.ob("own-memory:"+s.name+":"+m, false, ev.pos, "%s of %s uses a codec that is not one of its fields: %s", m, s.name, showVal(ev.val))
							return
						}
						if m == "DryCheck" {
							return
						}
						want := s.fieldPtr(&Entry{p: Ptr{r: ev.ptr.r, off: polyZero}}, o.args[0])
						if ev.rcls != "user" || ev.ptr.off == nil || !eqF(ev.facts, ev.ptr.off, want.off) {
							bad = true
							c.ob("own-memory:"+s.name+":"+m, false, ev.pos, "%s of %s hands field %s the memory at %s, its own is at %s", m, s.name, o.args[0], ev.ptr.off, want.off)
						}
					}
				})
			}
			if !bad {
				c.ob("own-memory:"+s.name+":"+m, true, 0, "")
			}
		}
	})
}

// printOrder: Pretty visits each field once, in order.
func (c *Ctx) printOrder(s *Subject) {
	if s.nf == nil {
		return // reported by fieldList
	}
	key := "print-order:" + s.name
	ret, _ := c.decided(s, "Pretty")
	n := 0
	for _, o := range ret {
		if o.st == nil || o.kind == "panic" {
			continue
		}
		n++
		next := polyZero
		visit := func(ev *Event, f *Facts, want *Poly) bool {
			x, ok := ev.val.(Opaque)
			return ok && x.key == s.seqKey && len(x.args) == 1 && eqF(f, x.args[0], want)
		}
		for i := range o.st.events {
			ev := &o.st.events[i]
			if ev.kind == "child" {
				if !visit(ev, o.st.facts, next) {
					c.ob(key, false, ev.pos, "Pretty of %s prints %s where field %s is due", s.name, showVal(ev.val), next)
					return
				}
				next = next.AddC(1)
			}
			if ev.loop == nil {
				continue
			}
			some, none := false, false
			for _, p := range ev.loop.paths {
				kids := 0
				walk(p.events, nil, func(x *Event, in []*LoopPath) {
					if x.kind == "child" {
						kids++
						if kids > 1 || len(in) > 0 || !visit(x, p.facts, next.Add(ev.loop.k)) {
							kids = 2
						}
					}
				})
				some, none = some || kids == 1, none || kids == 0
				if kids > 1 {
					some, none = true, true
				}
			}
			if some && (none || ev.n == nil) {
				c.ob(key, false, ev.pos, "Pretty of %s does not print each field once and in order", s.name)
				return
			}
			if some {
				next = next.Add(ev.n)
			}
		}
		if !c.ob(key, eqF(o.st.facts, next, s.nf), c.mpos(s, "Pretty"), "Pretty of %s prints %s of %s fields", s.name, next, s.nf) {
			return
		}
	}
	c.ob(key, n > 0, c.mpos(s, "Pretty"), "no path of Pretty of %s returns", s.name)
}

// fieldList checks what the construction appends for the struct field of each index.
func (c *Ctx) fieldList(s *Subject) {
	pos := c.mpos(s, "Encode")
	if s.nf == nil {
		c.ob("fields:"+s.name, false, pos, "the field list of the container descriptor was not found")
		return
	}
	nf := cntAtom("NumField:"+s.typ.key, s.typ.args...)
	var lp *Event
	for i := range s.build {
		ev := &s.build[i]
		if ev.kind == "append" && ev.ptr.r == s.seqReg {
			c.ob("field-loop:"+s.name, false, ev.pos, "a field is added outside the loop over the struct's fields")
		}
		if ev.loop == nil {
			continue
		}
		hit := false
		for _, p := range ev.loop.paths {
			walk(p.events, nil, func(x *Event, in []*LoopPath) { hit = hit || x.kind == "append" && x.ptr.r == s.seqReg })
		}
		if !hit {
			continue
		}
		c.ob("field-loop:"+s.name, lp == nil, ev.pos, "fields are added in more than one loop")
		lp = ev
	}
	if lp == nil {
		c.ob("field-loop:"+s.name, false, pos, "no loop adds the struct's fields")
		return
	}
	c.ob("field-count:"+s.name, lp.n != nil && eqF(s.st.facts, lp.n, nf), lp.pos, "the loop that adds fields runs %s times, not once for each of the %s struct fields", lp.n, nf)
	k := lp.loop.k
	flag := func(n string) *Poly {
		return bAtom("HasFlag:ssz:"+n+":"+s.typ.key, append(append([]*Poly{}, s.typ.args...), k)...)
	}
	is := func(a *Poly, v int64) Cond { return Cond{a.AddC(-v), '='} }
	anon := bAtom("Anon:"+s.typ.key, append(append([]*Poly{}, s.typ.args...), k)...)
	ft := fieldType(s.typ, k)
	own := sszOf(ft)
	base := szAtom("FieldOff:"+s.typ.key, append(append([]*Poly{}, s.typ.args...), k)...)
	for pi, p := range lp.loop.paths {
		key := fmt.Sprintf("field:%s:%d", s.name, pi)
		sq := c.squashAtom(s.typ, k)
		got, why := s.contribs(p.events, p.events, s.seqReg, 0)
		if why != "" {
			c.ob(key, false, lp.pos, "%s", why)
			continue
		}
		// the cases the path covers
		for omit := int64(0); omit < 2; omit++ {
			for want := int64(0); want < 2; want++ { // inlining asked for: anonymous or tagged
				for can := int64(0); can < 2; can++ {
					for tag := int64(0); tag <= want; tag++ {
						f := p.facts.Clone()
						conds := []Cond{is(flag("omit"), omit)}
						if omit == 0 {
							conds = append(conds, is(flag("squash"), tag))
							if tag == 0 {
								conds = append(conds, is(anon, want))
							}
							if _, unasked := sq.Int64(); !unasked {
								conds = append(conds, is(sq, can))
							}
						}
						feas := true
						for _, x := range conds {
							if !f.feasibleCond(x) {
								feas = false
								break
							}
							assumeFacts(f, x)
						}
						if !feas || omit == 1 && (want+can+tag) > 0 {
							continue
						}
						exp, what := "", ""
						switch {
						case omit == 1:
							exp, what = "none", "is tagged omit"
						case want == 1 && can == 1:
							exp, what = "squash", "is squashed"
						case tag == 1:
							exp, what = "error", "is tagged squash but cannot be"
						default:
							exp, what = "own", "is an ordinary field"
						}
						ok := false
						switch exp {
						case "none":
							ok = len(got) == 0
						case "own":
							ok = len(got) == 1 && got[0].n == nil && sameOpaque(f, got[0].ssz, own) && eqF(f, got[0].off, base)
						case "squash":
							in := Opaque{key: "SQ:" + own.key, args: append(append([]*Poly{}, own.args...), seqJ)}
							n := cntAtom("NSQ:"+own.key, own.args...)
							off := base.Add(szAtom("FieldPtr:"+in.key, in.args...))
							ok = len(got) == 1 && got[0].n != nil && sameOpaque(f, got[0].ssz, in) && eqF(f, got[0].n, n) && eqF(f, got[0].off, off)
						}
						c.ob(key+":"+exp, ok, lp.pos, "a struct field that %s adds %s to the container's fields", what, showContribs(got))
					}
				}
			}
		}
	}
}

func sameOpaque(f *Facts, a, b Opaque) bool {
	if a.key != b.key || len(a.args) != len(b.args) {
		return false
	}
	for i := range a.args {
		if !eqF(f, a.args[i], b.args[i]) {
			return false
		}
	}
	return true
}

func showContribs(cs []contrib) string {
	if len(cs) == 0 {
		return "nothing"
	}
	var out []string
	for _, x := range cs {
		n := "one record"
		if x.n != nil {
			n = x.n.String() + " records"
		}
		out = append(out, fmt.Sprintf("%s of codec %s at offset %v", n, showVal(x.ssz), x.off))
	}
	return strings.Join(out, ", then ")
}

func fieldType(t Opaque, k *Poly) Opaque {
	return Opaque{kind: "rtype", key: t.key + ".F", args: append(append([]*Poly{}, t.args...), k)}
}
