package main

// Merkle trees and proofs (C08, C25).

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
)

func init() {
	rules["C08"] = &rule{run: ruleMerkle, min: 2000, rule: "Merkleize is analysed for an arbitrary leaf count, limit, leaf function and hash function. Every 32-byte value is described by the subtree of the padded leaf sequence it is the root of; at every use of the hash function the two operands are entailed to be the left and the right child of one node; the loop over the leaves is discharged by an inductive invariant (after K leaves, level j of the buffer holds the completed left subtree of that level wherever bit j of K is set), the padding loops by following their at most 65 rounds with states joined; every returning path returns the root at the level l with 2^(l-1) < limit <= 2^l, and a path panics if and only if there are more leaves than the limit. The depth function is compared with its definition on each of its outcomes, and the zero-hash table with its recursive definition."}
	rules["C25"] = &rule{run: ruleProof, shards: 1, min: 2000, rule: "ConstructProof is analysed like Merkleize for an arbitrary index: on every returning path the branch has one entry per level below the depth of the limit and entry j is entailed to be the root of the subtree at level j whose index is the sibling of index >> j; it panics only for an index or a leaf count beyond the limit. The root it is folded to is the one obtained from Merkleize (obligations of C08)."}
}

// inCut runs f with the engine in cutpoint mode.
func (c *Ctx) inCut(withIndex bool, f func(e *Engine, st *State)) {
	e := c.w.e
	saved := map[string]nativeFn{}
	names := []string{"Merkleize", "GetDepth", "ConstructProof"}
	for _, n := range names {
		if fn := e.fnByName("merkle", n); fn != nil {
			saved[n] = e.contracts[fn]
			delete(e.contracts, fn)
		}
	}
	defer func() {
		e.cut = nil
		for _, n := range names {
			if fn := e.fnByName("merkle", n); fn != nil {
				delete(e.contracts, fn)
				if saved[n] != nil {
					e.contracts[fn] = saved[n]
				}
			}
		}
	}()
	st := c.w.base.Clone()
	st.events = nil
	if c.w.base == nil {
		return
	}
	f(e, st)
}

func safeCall(f func()) (msg string) {
	defer func() {
		if x := recover(); x != nil {
			msg = haltStr(x)
		}
	}()
	f()
	return ""
}

// depthObs: the depth function agrees with its definition.
func (c *Ctx) depthObs() {
	c.inCut(false, func(e *Engine, st *State) {
		fn := e.fnByName("merkle", "GetDepth")
		if fn == nil {
			return
		}
		v := mkAtom("v", bigZero, maxU64)
		var outs []*Outcome
		if msg := safeCall(func() { outs = e.Call(st, fn, []Value{v}, nil) }); msg != "" {
			c.ob("C08/depth", false, fn.Pos(), "GetDepth: %s", msg)
			return
		}
		for _, o := range outs {
			if o.kind != "return" {
				c.ob("C08/depth:"+o.kind, false, o.pos, "GetDepth: %s %s", o.kind, o.reason)
				continue
			}
			r, ok := o.res[0].(*Poly)
			var n int64
			if ok {
				n, ok = r.Int64()
			}
			if !ok || n < 0 || n > 64 {
				c.ob("C08/depth:value", false, o.pos, "GetDepth returns %s, no constant depth", showVal(o.res[0]))
				continue
			}
			f := o.st.facts
			lo, hi := polyZero, polyZero
			switch {
			case n == 1:
				lo, hi = polyOne, constP(2)
			case n > 1:
				lo, hi = pow2(int(n-1)).AddC(1), pow2(int(n))
			}
			c.ob(fmt.Sprintf("C08/depth:%d", n), prove(f, geC(v, lo)) && prove(f, geC(hi, v)), o.pos,
				"GetDepth returns %d for values outside [%s, %s]", n, lo, hi)
		}
	})
}

// zeroObs: the table of zero-subtree roots.
func (c *Ctx) zeroObs(prop string) {
	e := c.w.e
	fn := e.fnByName("htr", "InitZeroHashes")
	if fn == nil {
		c.ob(prop+"/zerohashes", false, token.NoPos, "InitZeroHashes not found")
		return
	}
	st := c.w.base.Clone()
	st.events = nil
	var outs []*Outcome
	if msg := safeCall(func() { outs = e.Call(st, fn, []Value{Opaque{kind: "fn", key: "hashfn"}}, nil) }); msg != "" {
		c.ob(prop+"/zerohashes", false, fn.Pos(), "InitZeroHashes: %s", msg)
		return
	}
	g := fn.Pkg.Var("ZeroHashes")
	for _, o := range outs {
		if o.kind != "return" || g == nil {
			c.ob(prop+"/zerohashes:"+o.kind, false, o.pos, "InitZeroHashes: %s %s", o.kind, o.reason)
			continue
		}
		msg := safeCall(func() {
			s := o.st
			r := e.globalRegion(s, g)
			sl, ok := s.loadAt(r, polyZero, g.Type().(*types.Pointer).Elem()).(Slice)
			n, isC := sl.len.Int64()
			if !ok || !isC || sl.p.r < 0 {
				c.ob(prop+"/zerohashes:length", false, fn.Pos(), "the zero-hash table has no constant length")
				return
			}
			c.ob(prop+"/zerohashes:length", n >= 65, fn.Pos(), "the zero-hash table has %d entries; a tree for 2^64 leaves needs 65", n)
			at := func(i int64) []Seg { return s.readBytes(sl.p.r, sl.p.off.AddC(32*i), constP(32)) }
			zero := mergeSegs(at(0))
			_, isZ := zero[0].c.(CZero)
			c.ob(prop+"/zerohashes:0", len(zero) == 1 && isZ, fn.Pos(), "entry 0 of the zero-hash table is %s, not a zero chunk", segsKey(zero))
			for i := int64(0); i+1 < n; i++ {
				two := mergeSegs(append(append([]Seg{}, at(i)...), at(i)...))
				want := segsKey(blob(hashOf("hfn", two)).segs)
				got := segsKey(at(i + 1))
				c.ob(fmt.Sprintf("%s/zerohashes:%d", prop, i+1), got == want, fn.Pos(), "entry %d of the zero-hash table is %s, not the hash of entry %d with itself", i+1, got, i)
			}
		})
		if msg != "" {
			c.ob(prop+"/zerohashes", false, fn.Pos(), "zero-hash table: %s", msg)
		}
	}
}

// depthOf: the least depth of a tree of limit leaves, where the facts determine it.
func depthOf(f *Facts, limit *Poly) int {
	in := func(l int) bool {
		if !f.entailsCond(geC(pow2(l), limit)) {
			return false
		}
		return l == 0 || f.entailsCond(geC(limit, pow2(l-1).AddC(1)))
	}
	lo, hi := 0, 64
	for lo < hi { // least l with limit <= 2^l entailed
		m := (lo + hi) / 2
		if f.entailsCond(geC(pow2(m), limit)) {
			hi = m
		} else {
			lo = m + 1
		}
	}
	if in(lo) {
		return lo
	}
	return -1
}

func (c *Ctx) cutObs(prop, name string, e *Engine) {
	var ks []string
	for k := range e.cut.bad {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	pos := token.NoPos
	if fn := e.fnByName("merkle", name); fn != nil {
		pos = fn.Pos()
	}
	for i, k := range ks {
		if i == 12 {
			break
		}
		c.ob(fmt.Sprintf("%s/tree:%s", prop, name), false, pos, "%s: %s", k, e.cut.bad[k])
	}
	for k := range e.cut.combis {
		c.ob(fmt.Sprintf("%s/combine:%s", prop, k), len(ks) == 0, pos, "hash combinations in %s are not all of left and right siblings", k)
	}
	c.ob(prop+"/leaves:"+name, len(e.cut.leaves) > 0, pos, "%s never asks for a leaf", name)
	c.ob(prop+"/combines:"+name, len(e.cut.combis) > 0, pos, "%s never combines nodes", name)
	for i := 0; i < e.cut.checked; i++ {
		c.ob(fmt.Sprintf("%s/invariant:%s:%d", prop, name, i), true, pos, "")
	}
}

func ruleMerkle(c *Ctx) {
	c.global(func() { c.merkleObs("C08") })
}

func (c *Ctx) merkleObs(prop string) {
	if c.w.base == nil {
		c.ob(prop+"/init", false, token.NoPos, "%s", c.w.err)
		return
	}
	c.depthObs()
	c.zeroObs(prop)
	c.inCut(false, func(e *Engine, base *State) {
		fn := e.fnByName("merkle", "Merkleize")
		if fn == nil {
			c.ob(prop+"/anchor", false, token.NoPos, "Merkleize not found")
			return
		}
		st := e.cutStart(base, false)
		count, limit := e.cut.count, e.cut.limit
		args := []Value{Opaque{kind: "hasher", key: "h"}, count, limit, Opaque{kind: "fn", key: "leaf"}}
		var outs []*Outcome
		if msg := safeCall(func() { outs = e.Call(st, fn, args, nil) }); msg != "" {
			c.ob(prop+"/analysis", false, fn.Pos(), "Merkleize: %s", msg)
			return
		}
		ret := map[int]bool{}
		for _, o := range outs {
			e.cut.final(o.st)
			f := o.st.facts
			switch o.kind {
			case "panic":
				c.ob(prop+"/refuse:panic", f.entailsCond(geC(count, limit.AddC(1))), o.pos, "Merkleize panics (%s) with no more leaves than the limit", o.reason)
			case "return":
				c.ob(prop+"/refuse:return", f.entailsCond(geC(limit, count)), o.pos, "Merkleize returns a root for more leaves than the limit")
				b, ok := o.res[0].(Bytes)
				var h *HTerm
				if ok {
					h = e.cut.termOf(b)
				}
				l := depthOf(f, limit)
				ret[l] = true
				if l < 0 {
					c.ob(prop+"/root:depth", false, o.pos, "a path returns %s for limits of different depths", hShow(h))
					continue
				}
				c.ob(fmt.Sprintf("%s/root:%d", prop, l), e.cut.asNode(f, h, l, polyZero), o.pos,
					"for a limit of depth %d, Merkleize may return %s instead of the root at that depth", l, hShow(h))
			default:
				c.ob(prop+"/analysis", false, o.pos, "Merkleize: %s: %s", o.kind, o.reason)
			}
		}
		for l := 0; l <= 64; l++ {
			c.ob(fmt.Sprintf("%s/reach:%d", prop, l), ret[l], fn.Pos(), "Merkleize returns no root for limits of depth %d", l)
		}
		c.cutObs(prop, "Merkleize", e)
	})
}

func ruleProof(c *Ctx) {
	c.global(func() { c.merkleObs("C08") })
	c.shard(1, func() {
		c.inCut(true, func(e *Engine, base *State) {
			fn := e.fnByName("merkle", "ConstructProof")
			if fn == nil {
				c.ob("C25/anchor", false, token.NoPos, "ConstructProof not found")
				return
			}
			st := e.cutStart(base, true)
			count, limit, index := e.cut.count, e.cut.limit, e.cut.index
			args := []Value{Opaque{kind: "hasher", key: "h"}, count, limit, Opaque{kind: "fn", key: "leaf"}, index}
			var outs []*Outcome
			if msg := safeCall(func() { outs = e.Call(st, fn, args, nil) }); msg != "" {
				c.ob("C25/analysis", false, fn.Pos(), "ConstructProof: %s", msg)
				return
			}
			ret := map[int]bool{}
			for _, o := range outs {
				e.cut.final(o.st)
				f := o.st.facts
				switch o.kind {
				case "panic":
					g := f.Clone()
					addCond(g, geC(limit, count))
					addCond(g, geC(limit, index.AddC(1)))
					c.ob("C25/refuse:panic", g.bad || !g.feasibleWith(nil), o.pos, "ConstructProof panics (%s) for an index and a number of leaves within the limit", o.reason)
				case "return":
					c.ob("C25/refuse:return", f.entailsCond(geC(limit, count)) && f.entailsCond(geC(limit, index.AddC(1))), o.pos, "ConstructProof returns a branch for an index or a number of leaves beyond the limit")
					l := depthOf(f, limit)
					sl, ok := o.res[0].(Slice)
					if l < 0 || !ok {
						c.ob("C25/depth", false, o.pos, "a path returns one branch for limits of different depths")
						continue
					}
					ret[l] = true
					if !c.ob(fmt.Sprintf("C25/length:%d", l), f.entailsCond(eqC(sl.len, constP(int64(l)))), o.pos, "for a limit of depth %d the branch has %s nodes", l, sl.len) {
						continue
					}
					for j := 0; j < l; j++ {
						var h *HTerm
						msg := safeCall(func() { h = o.st.termAt(sl.p.r, sl.p.off.AddC(int64(32*j))) })
						x := e.cut.sib(j)
						good := msg == "" && h != nil && (h.op == "node" && hLevel(h) == j && h.n[1].Eq(x) || e.cut.asNode(f, h, j, x))
						c.ob(fmt.Sprintf("C25/node:%d/%d", l, j), good, o.pos, "for a limit of depth %d, node %d of the branch may be %s instead of the sibling of the index at that level %s", l, j, hShow(h), msg)
					}
				default:
					c.ob("C25/analysis", false, o.pos, "ConstructProof: %s: %s", o.kind, o.reason)
				}
			}
			for l := 0; l <= 64; l++ {
				c.ob(fmt.Sprintf("C25/reach:%d", l), ret[l], fn.Pos(), "ConstructProof returns no branch for limits of depth %d", l)
			}
			c.cutObs("C25", "ConstructProof", e)
		})
	})
}
