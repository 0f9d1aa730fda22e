package main

import (
	"go/types"
	"strings"
)

// C11: containment of reads and the reader's position bookkeeping.

func init() {
	rules["C11"] = &rule{run: ruleReader, min: 150, rule: "At every read and every element call on a decoding path the bytes taken are entailed to lie inside the scope; no path runs into the limit of an inner reader; on every exit not caused by the reader the position kept by the decoding reader equals the bytes taken. Every method of the decoding reader, from an arbitrary state and with arbitrary arguments, takes what it says or fails and takes nothing."}
}

func ruleReader(c *Ctx) {
	pos0, M := szAtom("pos0"), szAtom("M")
	c.eachAll(func(s *Subject) {
		for _, m := range decoders {
			ret, _ := c.decided(s, m)
			for _, o := range ret {
				if o.st == nil {
					continue
				}
				walk(o.st.events, nil, func(ev *Event, in []*LoopPath) {
					fnm := s.name + ":" + m + ":" + fnName(ev.fn)
					switch ev.kind {
					case "consume":
						c.ob("contained:"+fnm, c.proveAll(ev.facts, ev.m.Sub(pos0), pos0.Add(M).Sub(ev.m).Sub(ev.n)), ev.pos, "%s of %s takes %s bytes at %s in %s, not known to be inside the %s bytes of its scope", m, s.name, ev.n, ev.m, fnName(ev.fn), M)
					case "short":
						c.ob("limit:"+s.name+":"+m, false, ev.pos, "%s of %s asks in %s for %s bytes of a reader limited to %s", m, s.name, fnName(ev.fn), ev.n, ev.m)
					case "child":
						c.ob("element-scope:"+fnm, c.proveAll(ev.facts, ev.m, pos0.Add(M).Sub(ev.n).Sub(ev.m)), ev.pos, "%s of %s gives an element in %s a scope of %s bytes at %s, not known to be inside its own", m, s.name, fnName(ev.fn), ev.m, ev.n)
					}
				})
				if o.kind == "return" && hasEvent(o.st.events, "ioerr", "short") == nil {
					got := o.st.ghostGet("pos:" + streamR).Sub(pos0)
					if s.kind != "api" {
						idx, ok := o.st.dr("Index", o.dr).(*Poly)
						c.ob("position:"+s.name+":"+m, ok && eqF(o.st.facts, idx, got), o.pos, "after %s of %s the reader is at %s having taken %s bytes", m, s.name, showVal(idx), got)
					} else if m == "Fuzz" && len(o.res) == 2 {
						n, ok := o.res[0].(*Poly)
						c.ob("position:"+s.name+":"+m, ok && eqF(o.st.facts, n, got), o.pos, "DecodeFuzzBytes reports %s bytes having taken %s", showVal(o.res[0]), got)
					}
				}
			}
			c.ob("limit:"+s.name+":"+m, true, 0, "")
		}
	})
	c.globalEach(func() { c.readerMethods() })
}

// readerMethods checks the decoding reader itself.
func (c *Ctx) readerMethods() {
	e := c.w.e
	pos0, M, I0 := szAtom("pos0"), szAtom("M"), szAtom("I0")
	any := mkAtom("any", bigZero, maxU64)
	ints := map[string]int64{"ReadByte": 1, "ReadUint16": 2, "ReadUint32": 4, "ReadUint64": 8, "ReadOffset": 4}
	for _, started := range []bool{false, true} {
		for _, name := range []string{"Read", "Skip", "ReadByte", "ReadUint16", "ReadUint32", "ReadUint64", "ReadOffset", "Scope", "GetBytesSpan", "UpdateIndexFromScoped", "EnableFuzzMode", "IsFuzzMode"} {
			key := "reader:" + name
			fn := e.method("dec", "DecodingReader", name)
			if fn == nil {
				c.ob(key, false, 0, "DecodingReader.%s not found", name)
				continue
			}
			func() {
				defer func() {
					if x := recover(); x != nil {
						c.ob(key, false, fn.Pos(), "DecodingReader.%s cannot be analysed: %s", name, haltStr(x))
					}
				}()
				st := c.w.base.Clone()
				st.events = nil
				var en Entry
				st = e.reader(st, started, false, &en)
				start, idx0 := pos0, polyZero
				if started {
					start, idx0 = pos0.Add(I0), I0
				}
				span := M.Sub(idx0)
				var args []Value
				var want *Poly
				var buf *Region
				switch name {
				case "Read":
					want = szAtom("plen")
					buf = st.newRegion("p", "user", want)
					buf.rawName = "p"
					args = []Value{Slice{Ptr{r: buf.id, off: polyZero}, want, want}}
				case "Skip":
					want = any
					args = []Value{any}
				case "Scope":
					args = []Value{any}
					want = polyZero
				case "UpdateIndexFromScoped":
					c.scopedUpdate(st, en, fn.Name(), start, idx0, span)
					return
				default:
					want = constP(ints[name])
				}
				outs := e.Call(st, fn, append([]Value{en.dr}, args...), nil)
				c.nOutc += len(outs)
				c.nRun++
				if len(outs) == 0 {
					c.ob(key, false, fn.Pos(), "DecodingReader.%s never returns", name)
				}
				for _, o := range outs {
					if o.kind != "return" {
						c.ob(key, false, o.pos, "DecodingReader.%s: %s: %s", name, o.kind, o.reason)
						continue
					}
					c.noteFuncs(o.st.events)
					f := o.st.facts
					pos := o.st.ghostGet("pos:" + streamR)
					idx, _ := o.st.dr("Index", en.dr).(*Poly)
					mx, _ := o.st.dr("Max", en.dr).(*Poly)
					if idx == nil || mx == nil {
						c.ob(key, false, o.pos, "reader state unknown")
						continue
					}
					c.ob(key, eqF(f, mx, M), o.pos, "DecodingReader.%s changes the bounds of the reader", name)
					ioe := hasEvent(o.st.events, "ioerr") != nil
					if ev := hasEvent(o.st.events, "short"); ev != nil {
						c.ob(key, false, ev.pos, "DecodingReader.%s runs into the end of its own scope", name)
						continue
					}
					fallible := false
					if n := fn.Signature.Results().Len(); n > 0 {
						fallible = types.Identical(fn.Signature.Results().At(n-1).Type(), types.Universe.Lookup("error").Type())
					}
					if !fallible || c.okOutcome(o) {
						if ioe {
							c.ob(key, false, o.pos, "DecodingReader.%s succeeds after the reader failed", name)
							continue
						}
						c.ob(key, eqF(f, pos, start.Add(want)) && eqF(f, idx, idx0.Add(want)), o.pos, "DecodingReader.%s of %s bytes succeeds having taken %s and advanced by %s", name, want, pos.Sub(start), idx.Sub(idx0))
						c.ob(key, c.proveAll(f, span.Sub(want)), o.pos, "DecodingReader.%s of %s bytes can go beyond the remaining %s", name, want, span)
						c.readerResult(key, name, o, en, start, idx0, want, any, span, buf)
						continue
					}
					if ioe {
						continue
					}
					c.ob(key, eqF(f, pos, start) && eqF(f, idx, idx0), o.pos, "DecodingReader.%s fails a bounds check having taken %s and advanced by %s", name, pos.Sub(start), idx.Sub(idx0))
					w := want
					if name == "Scope" {
						w = any
					}
					c.ob(key, c.proveAll(f, w.Sub(span).AddC(-1)), o.pos, "DecodingReader.%s of %s bytes can be refused although %s remain", name, w, span)
					if name == "Read" || name == "Skip" {
						n, ok := o.res[0].(*Poly)
						c.ob(key+":count", ok && eqF(f, n, polyZero), o.pos, "DecodingReader.%s reports %s bytes after a refusal", name, showVal(o.res[0]))
					}
				}
				c.ob(key, true, 0, "")
			}()
		}
	}
}

// readerResult checks what a successful call returns.
func (c *Ctx) readerResult(key, name string, o *Outcome, en Entry, start, idx0, want, any, span *Poly, buf *Region) {
	f := o.st.facts
	num := func(v Value, w *Poly, what string) {
		p, ok := v.(*Poly)
		c.ob(key, ok && eqF(f, p, w), o.pos, "DecodingReader.%s returns %s, not %s", name, showVal(v), what)
	}
	switch name {
	case "ReadByte":
		num(o.res[0], in1(start), "the next byte of the input")
	case "ReadUint16", "ReadUint32", "ReadUint64", "ReadOffset":
		n, _ := want.Int64()
		num(o.res[0], inAtom(CIn{streamR, start}, int(n), 'L'), "the next number of the input, little-endian")
	case "Read", "Skip":
		num(o.res[0], want, "the number of bytes taken")
		if buf != nil && c.feasible(f, want.AddC(-1)) {
			b := o.st.sliceContent(Slice{Ptr{r: buf.id, off: polyZero}, want, want})
			ok := len(b) == 1
			if ok {
				in, is := b[0].c.(CIn)
				ok = is && in.pos.Eq(start)
			}
			c.ob(key, ok, o.pos, "DecodingReader.Read does not deliver the next bytes of the input")
		}
	case "GetBytesSpan":
		num(o.res[0], span, "the bytes left")
	case "IsFuzzMode":
		c.ob(key, truth(f, o.res[0]) == 0, o.pos, "a fresh reader is in fuzz mode")
	case "EnableFuzzMode":
		v := o.st.dr("IsFuzzMode", en.dr)
		c.ob(key, truth(f, v) == 1, o.pos, "EnableFuzzMode has no effect")
	case "Scope":
		i, _ := o.st.dr("Index", o.res[0]).(*Poly)
		m, _ := o.st.dr("Max", o.res[0]).(*Poly)
		c.ob(key, i != nil && m != nil && eqF(f, i, polyZero) && eqF(f, m, any), o.pos, "a scope of %s bytes starts at %s and ends at %s", any, showVal(i), showVal(m))
		c.ob(key, c.proveAll(f, span.Sub(any)), o.pos, "a scope of %s bytes of the remaining %s is granted", any, span)
	}
}

func (c *Ctx) feasible(f *Facts, p *Poly) bool { return f.feasibleCond(Cond{p, '+'}) }

// scopedUpdate: a scope of which some bytes have been taken is accounted for in its parent.
func (c *Ctx) scopedUpdate(st *State, en Entry, name string, start, idx0, span *Poly) {
	e := c.w.e
	key := "reader:" + name
	S, U := szAtom("scope"), szAtom("taken")
	st.assume(Cond{span.Sub(S), '+'})
	st.assume(Cond{S.Sub(U), '+'})
	n := 0
	for _, o := range e.Call(st, e.method("dec", "DecodingReader", "Scope"), []Value{en.dr, S}, nil) {
		if !c.okOutcome(o) {
			continue
		}
		sc := o.res[0]
		g := o.st.newRegion("buf", "scratch", U)
		for _, o2 := range e.Call(o.st, e.method("dec", "DecodingReader", "Read"), []Value{sc, Slice{Ptr{r: g.id, off: polyZero}, U, U}}, nil) {
			if !c.okOutcome(o2) {
				c.ob(key, o2.kind == "return" && hasEvent(o2.st.events, "ioerr") != nil, o2.pos, "a scope of %s bytes refuses %s", S, U)
				continue
			}
			for _, o3 := range e.Call(o2.st, e.method("dec", "DecodingReader", name), []Value{en.dr, sc}, nil) {
				n++
				if o3.kind != "return" {
					c.ob(key, false, o3.pos, "DecodingReader.%s: %s", name, o3.reason)
					continue
				}
				f := o3.st.facts
				idx, _ := o3.st.dr("Index", en.dr).(*Poly)
				c.ob(key, idx != nil && eqF(f, idx, idx0.Add(U)) && eqF(f, o3.st.ghostGet("pos:"+streamR), start.Add(U)), o3.pos, "after a scoped read of %s bytes the parent advances by %s", U, strings.TrimSpace(showVal(idx)))
			}
		}
	}
	c.ob(key, n > 0, 0, "DecodingReader.%s never reached", name)
}
