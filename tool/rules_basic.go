package main

// Rules whose verdict follows from single events or outcomes: panics, stores, accesses, I/O errors,
// allocations, conversions.

import (
	"fmt"
	"strings"
)

var getters = []string{"FixedLen", "MinLen", "MaxLen", "FuzzMinLen", "FuzzMaxLen", "IsFixed"}
var decoders = []string{"Decode", "DryCheck", "Fuzz"}
var readers = []string{"SizeOf", "Encode", "HashTreeRoot"}
var printers = []string{"Pretty"}

func init() {
	rules["C15"] = &rule{run: ruleNoPanic, both: true, min: 60, rule: "No path of Decode, DryCheck or fuzz-mode decoding of any codec ends in a panic (index, slice bounds, nil pointer, division, type assertion, negative or overflowing allocation, explicit panic)."}
	rules["C14"] = &rule{run: ruleInside, both: true, min: 200, rule: "Every load and store of a codec method through a pointer into caller or descriptor memory lies within the object it points to, and element codecs are handed pointers with room for a whole element."}
	rules["C12"] = &rule{run: ruleReadOnly, min: 60, rule: "No store event of SizeOf, Encode, HashTreeRoot, SigningRoot, Pretty, DryCheck or a length getter targets memory reachable from the caller's value."}
	rules["C13"] = &rule{run: ruleImmutable, min: 150, rule: "No store event of any codec method targets a type descriptor or package-level state, and no function that an operation can reach (calls through interfaces included) assigns a package-level variable, writes through one, or hands out its address; only package initialisation and InitZeroHashes do."}
}

// ops: the methods of the lists that a codec has.
func (c *Ctx) ops(s *Subject, lists ...[]string) (out []string) {
	for _, l := range lists {
		if s.kind == "api" && l[0] == getters[0] {
			continue
		}
		out = append(out, l...)
		if l[0] == readers[0] && (s.kind == "api" || s.kind == "struct") {
			out = append(out, "SigningRoot")
		}
	}
	return
}

func ruleNoPanic(c *Ctx) {
	c.eachAll(func(s *Subject) {
		for _, m := range decoders {
			ret, _ := c.decided(s, m)
			n := 0
			for _, o := range ret {
				if o.kind == "panic" {
					n++
					c.ob("nopanic:"+s.name+":"+m, false, o.pos, "%s of %s can panic: %s", m, s.name, o.reason)
				}
			}
			if n == 0 {
				c.ob("nopanic:"+s.name+":"+m, true, 0, "")
			}
		}
	})
}

// stores applies f to every store to long-lived memory made by a method.
func (c *Ctx) stores(s *Subject, m string, f func(ev *Event, class string)) {
	ret, _ := c.decided(s, m)
	for _, o := range ret {
		if o.st == nil {
			continue
		}
		walk(o.st.events, nil, func(ev *Event, in []*LoopPath) {
			switch ev.kind {
			case "store", "childstore":
				f(ev, ev.rcls)
			}
		})
	}
}

func ruleReadOnly(c *Ctx) {
	c.eachAll(func(s *Subject) {
		for _, m := range c.ops(s, getters, readers, printers, []string{"DryCheck"}) {
			bad := false
			c.stores(s, m, func(ev *Event, class string) {
				if class == "user" {
					bad = true
					c.ob("readonly:"+s.name+":"+m, false, ev.pos, "%s of %s writes %s bytes of the caller's value in %s", m, s.name, ev.n, fnName(ev.fn))
				}
			})
			if !bad {
				c.ob("readonly:"+s.name+":"+m, true, 0, "")
			}
		}
	})
}

func ruleImmutable(c *Ctx) {
	c.global(func() {
		if c.w.base != nil {
			c.sharedObs()
		}
	})
	c.eachAll(func(s *Subject) {
		for _, m := range c.ops(s, getters, readers, printers, decoders) {
			bad := false
			c.stores(s, m, func(ev *Event, class string) {
				if class == "desc" || class == "global" {
					bad = true
					c.ob("immutable:"+s.name+":"+m, false, ev.pos, "%s of %s writes %s state in %s", m, s.name, map[string]string{"desc": "type descriptor", "global": "package-level"}[class], fnName(ev.fn))
				}
			})
			if !bad {
				c.ob("immutable:"+s.name+":"+m, true, 0, "")
			}
		}
	})
}

func (c *Ctx) proveAll(f *Facts, ps ...*Poly) bool {
	for _, p := range ps {
		k := fmt.Sprintf("%p|%s", f, p.Key())
		if v, ok := c.proved[k]; ok {
			if !v {
				return false
			}
			continue
		}
		v := f.entails(Con{p: p})
		for !v {
			q := dropFactor(p)
			if q == nil {
				break
			}
			p = q
			v = f.entails(Con{p: p})
		}
		c.proved[k] = v
		if !v {
			return false
		}
	}
	return true
}

func ruleInside(c *Ctx) {
	c.eachAll(func(s *Subject) {
		for _, m := range c.ops(s, readers, printers, decoders) {
			ret, _ := c.decided(s, m)
			for _, o := range ret {
				if o.st == nil {
					continue
				}
				walk(o.st.events, nil, func(ev *Event, in []*LoopPath) {
					var need *Poly
					what := ev.kind
					switch ev.kind {
					case "load", "store":
						need = ev.n
					case "child", "childok":
						if r, ok := ev.val.(Opaque); ok && ev.ptr.off != nil && ev.ptr.r >= 0 {
							need = c.w.e.childMem(r)
							what = "element " + ev.str
						}
					}
					if need == nil || ev.ptr.off == nil || ev.ptr.r < 0 {
						return
					}
					key := "inside:" + s.name + ":" + m + ":" + fnName(ev.fn) + ":" + strings.ReplaceAll(what, " ", "-")
					if ev.rsize == nil {
						c.ob(key, false, ev.pos, "%s of memory of unknown extent (%s)", what, ev.rname)
						return
					}
					if ev.kind != "child" && need.isZero() {
						return
					}
					ok := c.proveAll(ev.facts, ev.ptr.off, ev.rsize.Sub(ev.ptr.off).Sub(need))
					c.ob(key, ok, ev.pos, "%s of %s bytes at offset %s of a %s-byte object (%s) in %s is not known to be inside it", what, need, ev.ptr.off, ev.rsize, ev.rname, fnName(ev.fn))
				})
			}
		}
	})
}

// dropFactor divides p by an atom that is never negative, if one divides every monomial.
func dropFactor(p *Poly) *Poly {
	if len(p.terms) == 0 || len(p.terms[0].mono) == 0 {
		return nil
	}
	for _, id := range p.terms[len(p.terms)-1].mono {
		a := atomTab[id]
		lo, _ := a.bounds()
		if lo == nil || lo.Sign() < 0 {
			continue
		}
		if q := exactQuot(p, atomP(a)); q != nil {
			return q
		}
	}
	return nil
}
