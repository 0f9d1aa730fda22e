package main

import "strings"

// Rules about events on paths: I/O failures, allocations, conversions.

func init() {
	rules["C10"] = &rule{run: ruleIO, min: 80, rule: "No path on which a read fails or comes short ends in success, no path on which a write fails returns anything but that error, and no path fails merely because data came with an end-of-file indication."}
	rules["C09"] = &rule{run: ruleAlloc, min: 60, rule: "At every allocation on a decoding path, the number of elements is entailed to be within the type's limit or length and within the bytes of the scope."}
	rules["C19"] = &rule{run: ruleNarrow, both: true, min: 200, rule: "No integer conversion and no arithmetic on a path of a codec method can lose bits of its operand; offsets too large for 4 bytes end in a refusal."}
}

func hasEvent(evs []Event, kinds ...string) *Event {
	var hit *Event
	walk(evs, nil, func(ev *Event, in []*LoopPath) {
		for _, k := range kinds {
			if ev.kind == k && hit == nil {
				hit = ev
			}
		}
	})
	return hit
}

func ruleIO(c *Ctx) {
	c.eachAll(func(s *Subject) {
		for _, m := range decoders {
			ret, _ := c.decided(s, m)
			bad, eof := false, false
			for _, o := range ret {
				if o.kind != "return" {
					continue
				}
				ev := hasEvent(o.st.events, "ioerr", "short")
				if c.okOutcome(o) {
					if ev != nil {
						bad = true
						c.ob("surface:"+s.name+":"+m, false, ev.pos, "%s of %s succeeds after the reader failed or ended early in %s", m, s.name, fnName(ev.fn))
					}
				} else if er, ok := o.res[len(o.res)-1].(Opaque); ok && er.key == "io.EOF" && ev == nil {
					eof = true
					c.ob("eof:"+s.name+":"+m, false, o.pos, "%s of %s fails with the end-of-file indication that came with the data", m, s.name)
				}
			}
			if !bad {
				c.ob("surface:"+s.name+":"+m, true, 0, "")
			}
			if !eof {
				c.ob("eof:"+s.name+":"+m, true, 0, "")
			}
		}
		ret, _ := c.decided(s, "Encode")
		bad := false
		for _, o := range ret {
			if o.kind != "return" {
				continue
			}
			var first *Event
			n := 0
			walk(o.st.events, nil, func(ev *Event, in []*LoopPath) {
				if ev.kind == "wrerr" {
					if first == nil {
						first = ev
					}
					if len(in) > 0 {
						n = 2
					}
					n++
				}
			})
			if first == nil {
				continue
			}
			if n > 1 || valKey(o.res[len(o.res)-1]) != valKey(first.val) {
				bad = true
				c.ob("writefail:"+s.name, false, first.pos, "Encode of %s does not return the writer's error (failed write in %s)", s.name, fnName(first.fn))
			}
		}
		if !bad {
			c.ob("writefail:"+s.name, true, 0, "")
		}
	})
}

func ruleAlloc(c *Ctx) {
	c.each(func(s *Subject) {
		var fmin *Poly
		if r, ok := c.decided(s, "FuzzMinLen"); ok && len(r) == 1 {
			fmin, _ = r[0].res[0].(*Poly)
		}
		for _, m := range decoders {
			ret, _ := c.decided(s, m)
			for _, o := range ret {
				if o.st == nil {
					continue
				}
				walk(o.st.events, nil, func(ev *Event, in []*LoopPath) {
					if ev.kind != "alloc" {
						return
					}
					k := s.name + ":" + m + ":" + strings.ReplaceAll(ev.str, " ", "-")
					n := ev.n
					if v, ok := n.Int64(); ok && v <= 64 {
						return
					}
					f := ev.facts
					if m == "Fuzz" && fmin != nil {
						// less input than the fuzzing minimum is refused at the top, and never passed to an element
						f = f.Clone()
						f.add(Con{szAtom("M").Sub(fmin), false})
					}
					lim, list := s.typLen(), true
					room := lim.Sub(n)
					switch s.kind {
					case "bytes", "basiclist", "list":
						lim = s.limit()
						room = lim.Sub(n)
					case "bitlist":
						lim = s.limit()
						room = lim.Sub(n.AddC(-1).MulC(8))
					case "struct":
						lim, list = s.nf, false
						room = lim.Sub(n)
					default:
						list = false
					}
					c.ob("alloc-limit:"+k, c.proveAll(f, room), ev.pos, "%s of %s allocates %s elements in %s, not known to be within the limit %s", m, s.name, n, fnName(ev.fn), lim)
					if list {
						c.ob("alloc-scope:"+k, c.proveAll(f, szAtom("M").Sub(n)), ev.pos, "%s of %s allocates %s elements in %s, not known to be within the %s bytes of its scope", m, s.name, n, fnName(ev.fn), szAtom("M"))
					}
					if s.kind == "list" && m != "Fuzz" {
						// lengths a type declares are assumed to fit in 64 bits
						el := n.Mul(chAtom("MinLen", s.child()))
						g := f.Clone()
						g.add(Con{constB(maxU64).Sub(el), false})
						c.ob("alloc-fit:"+k, c.proveAll(g, szAtom("M").Sub(el)), ev.pos, "%s of %s allocates %s elements in %s, whose minimum size (%s) is not known to be within its scope", m, s.name, n, fnName(ev.fn), el)
					}
				})
			}
			c.ob("allocs:"+s.name+":"+m, true, 0, "")
		}
	})
}

func ruleNarrow(c *Ctx) {
	c.eachAll(func(s *Subject) {
		for _, m := range c.ops(s, getters, readers, decoders) {
			ret, _ := c.decided(s, m)
			bad := false
			for _, o := range ret {
				if o.st == nil || o.kind == "panic" {
					continue // what lost bits was refused
				}
				switch m {
				case "Encode", "Decode", "DryCheck", "Fuzz":
					if len(o.res) > 0 {
						if x, ok := o.res[len(o.res)-1].(Iface); ok && x.t != nil {
							continue // the same
						}
					}
				}
				walk(o.st.events, nil, func(ev *Event, in []*LoopPath) {
					if ev.kind == "narrow" || ev.kind == "wrap" && m != "Decode" && m != "DryCheck" && m != "Fuzz" {
						bad = true
						c.ob("narrow:"+s.name+":"+m, false, ev.pos, "%s of %s: %s of %s in %s can lose bits", m, s.name, ev.str, ev.n, fnName(ev.fn))
					}
				})
			}
			if !bad {
				c.ob("narrow:"+s.name+":"+m, true, 0, "")
			}
		}
	})
}
