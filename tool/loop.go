package main

// Loop summarisation: inductive invariants (templates over the iteration count, prefix sums,
// linear relations between loop variables, interval bounds) inferred from the loop body's
// transfer function and verified by one inductive step. No loop whose trip count is not a
// compile-time constant is ever unrolled, but for loops that compute with numbers only (unrollPure).

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"

	"go/token"
	"go/types"
	"golang.org/x/tools/go/ssa"
)

type natLoop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

type fnLoops struct{ headers map[*ssa.BasicBlock]*natLoop }

// LoopPath is one way through the loop body: from the header at iteration k back to the header.
type LoopPath struct {
	facts  *Facts
	events []Event
	next   map[string]*Poly // loop variables after the iteration
	leaf   []Seg            // result of a leaf closure
	bad    string           // the leaf closure panics
}

// LoopEv summarises all iterations of a loop; kap atom K ranges over [0, Event.n).
type LoopEv struct {
	id    string
	k     *Poly
	paths []*LoopPath
	vars  map[string]*Poly // loop variables at the start of iteration K
	inits map[string]*Poly // and before the first
	fn    string
	entry int // st.seq at entry: atoms with higher sequence numbers are per-iteration
}

func (e *Engine) loops(fn *ssa.Function) *fnLoops {
	if l, ok := e.loopsOf[fn]; ok {
		return l
	}
	fl := &fnLoops{headers: map[*ssa.BasicBlock]*natLoop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := fl.headers[s]
			if l == nil {
				l = &natLoop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
				fl.headers[s] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.body[x] {
					continue
				}
				l.body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	e.loopsOf[fn] = fl
	return fl
}

// peek evaluates the first branch reached from block b without forking; reports whether its
// condition is a constant.
func (e *Engine) peek(st *State, b, prev *ssa.BasicBlock) (known bool) {
	s := st.Clone()
	defer func() {
		if x := recover(); x != nil {
			switch x.(type) {
			case splitReq, haltReq:
				known = false
			default:
				panic(x)
			}
		}
	}()
	s.enter(b, prev)
	depth := len(s.frames)
	for n := 0; n < 200; n++ {
		f := s.top()
		ins := f.block.Instrs[f.pc]
		switch x := ins.(type) {
		case *ssa.Jump:
			p := f.block
			if len(s.frames) == depth && e.loops(f.fn).headers[p.Succs[0]] != nil {
				return false
			}
			s.enter(p.Succs[0], p)
			continue
		case *ssa.If:
			c, ok := s.val(x.Cond).(Bool)
			if !ok {
				return false
			}
			if _, isC := c.c.p.Const(); isC {
				return true
			}
			if l := e.loops(f.fn).headers[b]; l != nil && len(s.frames) == depth {
				// a loop that is certainly not entered
				in0, in1 := l.body[f.block.Succs[0]], l.body[f.block.Succs[1]]
				if in0 && !in1 {
					return s.entailsCond(c.c.Not())
				}
				if in1 && !in0 {
					return s.entailsCond(c.c)
				}
			}
			return false
		case *ssa.Return, *ssa.Panic:
			return false
		}
		if _, ok := ins.(*ssa.Call); ok {
			c := ins.(*ssa.Call)
			if _, isB := c.Call.Value.(*ssa.Builtin); !isB {
				return false
			}
		}
		s.exec(ins)
	}
	return false
}

func (e *Engine) handleLoop(st *State, l *natLoop, prev *ssa.BasicBlock, base int) ([]*State, []*Outcome, bool) {
	f := st.frame()
	if f.unroll == nil {
		f.unroll = map[*ssa.BasicBlock]int{}
	}
	if e.cut == nil && e.peek(st, l.header, prev) {
		f.unroll[l.header]++
		if f.unroll[l.header] > 300 {
			return nil, []*Outcome{{kind: "undecided", st: st, reason: "constant loop longer than 300 iterations", fn: f.fn, pos: instrPos(l.header.Instrs[0])}}, false
		}
		st.enter(l.header, prev)
		return nil, nil, true
	}
	var w2 []*State
	var o2 []*Outcome
	ws, os, ok := e.guard(st, base, func(s *State) {
		if pureLoop(l) {
			var done bool
			if w2, o2, done = e.unrollPure(s, l, prev, base); done {
				return
			}
		}
		if e.cut != nil {
			w2, o2 = e.cutLoop(s, l, prev, base)
			return
		}
		w2, o2 = e.summarise(s, l, prev, base)
	})
	if !ok {
		return ws, os, false
	}
	return w2, o2, false
}

// pureLoop: the loop computes with numbers only. It reads and writes no memory and calls nothing.
func pureLoop(l *natLoop) bool {
	for b := range l.body {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Phi, *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.DebugRef:
			case *ssa.UnOp:
				if x.Op == token.MUL || x.Op == token.ARROW {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

// unrollPure follows such a loop round by round, one state per way through it, for as many rounds as a number has bits.
// A loop that may go on after that is left to the summary.
func (e *Engine) unrollPure(st *State, l *natLoop, prev *ssa.BasicBlock, base int) (work []*State, res []*Outcome, done bool) {
	s := st.Clone()
	s.watch = append(s.watch[:len(s.watch):len(s.watch)], &loopWatch{depth: len(st.frames), loop: l})
	s.enter(l.header, prev)
	cur := []*State{s}
	var all []*Outcome
	for it := 0; len(cur) > 0; it++ {
		if it > 66 || len(cur) > 8 {
			return nil, nil, false
		}
		outs := e.run(cur, base)
		cur = nil
		for _, o := range outs {
			switch o.kind {
			case "undecided":
				return nil, nil, false
			case "backedge":
				s := o.st.Clone()
				s.enterWith(l.header, o.prev, o.phis)
				cur = append(cur, s)
			default:
				all = append(all, o)
			}
		}
	}
	work, res = e.leave(all, base, nil)
	return work, res, true
}

// ---------------------------------------------------------------------

type piece struct {
	g    []Guard // in kap
	body *Poly   // in kap
}

type loopVar struct {
	name string
	phi  int // index of phi, -1 for memory cell
	comp int // component of a phi value
	// the bounds of cands were compared with the initial value
	checked bool
	r       int
	off     *Poly
	size    *Poly
	t       types.Type
	init    *Poly
	lo, hi  *big.Int
	h       *Poly // havoc atom
	known   bool  // template found
	tried   map[string]bool
	step    *Poly
	pieces  []piece
	flag    *Guard     // a boolean that leaves its initial value where the guard first holds
	comb    []combTerm // value = sum templates + c*other
	cut     bool       // the last iteration may leave it behind: it has no value after the loop
	cutDone bool
	cands   []int // live candidate bounds (indexes into candKinds)
}

type combTerm struct {
	c int64
	v *loopVar
}

// value of the variable at iteration k
func (v *loopVar) at(k *Poly) *Poly {
	if !v.known {
		return v.h
	}
	if v.flag != nil {
		p := mkNone(mkSumOver([]Guard{*v.flag}, polyOne, k))
		if v.init.isZero() {
			p = polyOne.Sub(p)
		}
		return p
	}
	p := v.init.Add(v.step.Mul(k))
	for _, pc := range v.pieces {
		p = p.Add(mkSumOver(pc.g, pc.body, k))
	}
	for _, c := range v.comb {
		p = p.Add(c.v.at(k).MulC(c.c))
	}
	return p
}

func (v *loopVar) tmplKey() string {
	if v.flag != nil {
		return "flag " + v.flag.atom.Key() + "=" + fmt.Sprint(v.flag.val)
	}
	s := v.step.Key()
	for _, p := range v.pieces {
		s += "|"
		for _, g := range p.g {
			s += g.atom.Key() + "=" + fmt.Sprint(g.val) + ","
		}
		s += ":" + p.body.Key()
	}
	for _, c := range v.comb {
		s += fmt.Sprintf("|%d*%s", c.c, c.v.name)
	}
	return s
}

// mkSumOver: sum over kap in [0,upper) with guards of body(kap).
func mkSumOver(g []Guard, body, upper *Poly) *Poly {
	kap := kapAtom.SingleAtom()
	isK := func(a *Atom) bool { return a == kap }
	out := polyZero
	for _, t := range body.terms {
		coef := constB(t.c)
		free, dep := polyOne, polyOne
		for _, id := range t.mono {
			a := atomP(atomTab[id])
			if a.Mentions(isK) {
				dep = dep.Mul(a)
			} else {
				free = free.Mul(a)
			}
		}
		if dep.Eq(polyOne) && len(g) == 0 {
			out = out.Add(coef.Mul(free).Mul(upper))
			continue
		}
		out = out.Add(coef.Mul(free).Mul(mkSumRaw(append([]Guard(nil), g...), dep, upper)))
	}
	return out
}

func onlyKnown(p *Poly, bad func(*Atom) bool) bool { return !p.Mentions(bad) }

func atomSeq(op string) int {
	i := strings.LastIndexByte(op, '#')
	if i < 0 {
		return -1
	}
	n := 0
	j := i + 1
	for j < len(op) && op[j] >= '0' && op[j] <= '9' {
		n = n*10 + int(op[j]-'0')
		j++
	}
	if j == i+1 {
		return -1
	}
	return n
}

var loopDebug = os.Getenv("ZLOOP") != ""

type growKey struct{ phi, comp int }

type quantW struct {
	r   int
	w   *Write
	key string
}

func (e *Engine) summarise(st *State, l *natLoop, prev *ssa.BasicBlock, base int) ([]*State, []*Outcome) {
	e.nLoops++
	depth := len(st.frames)
	id := st.fresh("L")
	entrySeq := st.seq
	K := mkAtom("k:"+id, bigZero, sizeHi)
	kA := K.SingleAtom()
	phis := st.phiVals(l.header, prev)
	var phiIns []*ssa.Phi
	for _, ins := range l.header.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phiIns = append(phiIns, p)
	}
	// shape of phi values
	var vars []*loopVar
	fixedPhi := make([]Value, len(phis)) // non-numeric phi values: constant through the loop, nil = unusable
	numeric := make([]bool, len(phis))
	addVar := func(v *loopVar) *loopVar {
		v.tried = map[string]bool{}
		v.h = mkAtom(fmt.Sprintf("lv:%s:%s", id, v.name), v.lo, v.hi)
		v.cands = allCands()
		vars = append(vars, v)
		return v
	}
	for i, pv := range phis {
		t := phiIns[i].Type()
		switch x := pv.(type) {
		case *Poly:
			lo, hi := sizeRange(t)
			numeric[i] = true
			addVar(&loopVar{name: fmt.Sprintf("phi%d", i), phi: i, comp: 0, init: x, lo: lo, hi: hi, t: t})
		case Ptr:
			if x.off != nil {
				numeric[i] = true
				addVar(&loopVar{name: fmt.Sprintf("phi%d.off", i), phi: i, comp: 0, init: x.off})
			}
		case Slice:
			numeric[i] = true
			if x.p.off == nil {
				x.p.off = polyZero
			}
			lo, hi := bigZero, sizeHi
			addVar(&loopVar{name: fmt.Sprintf("phi%d.off", i), phi: i, comp: 0, init: x.p.off})
			addVar(&loopVar{name: fmt.Sprintf("phi%d.len", i), phi: i, comp: 1, init: x.len, lo: lo, hi: hi})
			addVar(&loopVar{name: fmt.Sprintf("phi%d.cap", i), phi: i, comp: 2, init: x.cap, lo: lo, hi: hi})
		case Bool:
			numeric[i] = true
			if _, isC := x.c.p.Const(); !isC {
				undecided("loop-carried boolean with unknown initial value")
			}
			ini := polyZero
			if st.decide(x.c) {
				ini = polyOne
			}
			addVar(&loopVar{name: fmt.Sprintf("phi%d.b", i), phi: i, comp: 0, init: ini, lo: bigZero, hi: bigOne})
		}
		fixedPhi[i] = pv
	}
	deadPhi := make([]bool, len(phis))
	growPhi := make([]bool, len(phis))
	growCell := map[string]bool{}
	havocCells := map[string]*loopVar{} // key -> non numeric cell
	cellVars := map[string]*loopVar{}
	deadCells := map[string]*Write{}
	var quants []quantW
	quantKey := func(q []quantW) string {
		s := ""
		for _, x := range q {
			s += x.key + ";"
		}
		return s
	}
	_ = havocCells
	_ = growCell

	entry := st.Clone() // with growable conversions applied
	convert := func(s *State, sl Slice, et types.Type) Slice {
		es := sizeof(et)
		if sl.p.r >= 0 && s.reg(sl.p.r).grow {
			return sl
		}
		r := s.newRegion("growing", "fresh", nil)
		r.zero = true
		r.elem = et
		r.grow = true
		res := Slice{Ptr{r: r.id, off: polyZero}, sl.len, sl.cap}
		if sl.p.r >= 0 && !sl.len.isZero() {
			s.copyData(res.p, sl.p, sl.len, et)
		}
		_ = es
		return res
	}
	seqs := map[int]*Seq{}
	seqable := func(r int) bool {
		g := entry.reg(r)
		return g.grow && g.seq == nil && g.elem != nil && seqRecord(g.elem) && len(g.writes) == 0
	}
	mkSeq := func(r int) {
		q := &Seq{key: id + "." + fmt.Sprint(len(seqs)), es: sizeof(entry.reg(r).elem), flagOK: true, ptrOK: true, offAt: offsetCell(entry.reg(r).elem)}
		entry.wreg(r).seq = q
		seqs[r] = q
	}
	condP := (*Poly)(nil) // header condition p(K) >= 0 keeps looping (K coefficient -1), or nil
	condEq := false

	strict := false
	build := func() (*State, []Value) {
		s := entry.Clone()
		vals := make([]Value, len(phis))
		for i := range phis {
			if deadPhi[i] {
				continue
			}
			vals[i] = fixedPhi[i]
		}
		for _, v := range vars {
			p := v.at(K)
			if v.phi >= 0 {
				if deadPhi[v.phi] {
					continue
				}
				switch x := vals[v.phi].(type) {
				case *Poly:
					vals[v.phi] = p
				case Bool:
					vals[v.phi] = boolAtom(p)
					if c, ok := p.Int64(); ok {
						vals[v.phi] = boolC(c == 1)
					}
				case Ptr:
					x.off = p
					vals[v.phi] = x
				case Slice:
					switch v.comp {
					case 0:
						x.p.off = p
					case 1:
						x.len = p
					case 2:
						x.cap = p
					}
					vals[v.phi] = x
				}
			} else {
				var val Value = p
				if isBoolT(v.t) {
					val = boolAtom(p)
					if c, ok := p.Int64(); ok {
						val = boolC(c == 1)
					}
				} else if pt, ok := cellPtr[v]; ok {
					pt.off = p
					val = pt
				}
				s.putWrite(v.r, &Write{off: v.off, size: v.size, val: val, t: v.t})
			}
			if !v.checked {
				// a bound has to hold on entry
				v.checked = true
				var keep []int
				for _, c := range v.cands {
					if q := candPoly(c, v, v.initVal()); c >= 2 || q == nil || entry.facts.entailsCond(Cond{q, '+'}) {
						keep = append(keep, c)
					}
				}
				v.cands = keep
			}
			for _, c := range v.cands {
				if c >= 2 && !v.known && !strict {
					continue // monotonicity of unresolved variables is only assumed once no closed form is left to find
				}
				if q := candPoly(c, v, p); q != nil {
					s.assume(Cond{q, '+'})
				}
			}
		}
		for _, w := range sortedWrites(deadCells) {
			nw := *w
			nw.val = nil
			nw.segs = []Seg{{w.size, CUnk{s.fresh("loopcell")}}}
			if w.val != nil {
				if o, ok := w.val.(Opaque); ok && o.kind == "err" {
					nw.val, nw.segs = errVal(s.fresh("looperr")), nil
				} else if _, ok := w.val.(Bytes); !ok {
					nw.val, nw.segs = Opaque{kind: "havoc", key: s.fresh("hv")}, nil
				}
			}
			s.putWrite(deadReg[w], &nw)
		}
		for _, q := range quants {
			w := *q.w
			qq := *w.q
			qq.upper = K
			w.q = &qq
			rg := s.wreg(q.r)
			rg.writes = append(rg.writes, &w)
		}
		if condP != nil {
			s.assume(Cond{condP.AddC(1), '+'})
		}
		if s.facts.bad {
			undecided("inconsistent loop invariant candidates")
		}
		return s, vals
	}

	var final []*Outcome
	var lev *LoopEv
	resolvedSomething := true
	budget := e.steps
	for round := 0; ; round++ {
		if round > 80 {
			undecided("no stable loop invariant found at %s", e.fset.Position(instrPos(l.header.Instrs[0])))
		}
		_ = budget
		s0, vals := build()
		lev = &LoopEv{id: id, k: K, vars: map[string]*Poly{}, inits: map[string]*Poly{}, fn: st.top().fn.String(), entry: entrySeq}
		for _, v := range vars {
			lev.vars[v.key()] = v.at(K)
			if v.init != nil {
				lev.inits[v.key()] = v.init
			}
		}
		s0.event(Event{kind: "loop", loop: lev, n: K})
		nev := len(s0.events)
		s0.watch = append(s0.watch[:len(s0.watch):len(s0.watch)], &loopWatch{depth: depth, loop: l})
		hdr := s0.Clone()
		hdr.enterWith(l.header, prev, vals)
		outs := e.followOut(e.run([]*State{hdr}, base), l, fixedPhi, deadPhi, base)
		var backs []*Outcome
		for _, o := range outs {
			if o.kind == "backedge" {
				backs = append(backs, o)
			}
		}
		if loopDebug {
			fmt.Fprintf(os.Stderr, "== loop %s in %s round %d: %d outcomes, %d back edges\n", id, st.top().fn.Name(), round, len(outs), len(backs))
			for _, v := range vars {
				fmt.Fprintf(os.Stderr, "   %s@%s known=%v %s cands=%v\n", v.name, v.key(), v.known, v.at(K), v.cands)
			}
			for _, o := range outs {
				fmt.Fprintf(os.Stderr, "   -> %s %s %s\n", o.kind, o.reason, factsStr(o.st.facts, s0.facts))
			}
		}
		changed := false
		// 1. newly modified memory
		var newQ []quantW
		toSeq := map[int]bool{}
		converted := map[string]bool{}
		qIndex := map[string]int{}
		for _, o := range backs {
			for r := 0; r < len(s0.regs); r++ {
				a, b := s0.reg(r), o.st.reg(r)
				if a == b {
					continue
				}
				old := map[*Write]bool{}
				for _, w := range a.writes {
					old[w] = true
				}
				for _, w := range b.writes {
					if old[w] {
						continue
					}
					kdep := w.q != nil || w.off.Mentions(func(x *Atom) bool { return x == kA || isLoopAtom(x, id) || atomSeq(x.op) > entrySeq }) ||
						!isConstP(w.size)
					key := fmt.Sprintf("r%d+%s/%s", r, w.off, w.size)
					if !kdep {
						if cellVars[key] != nil || deadCells[key] != nil || converted[key] {
							continue
						}
						changed = true
						if seqable(r) {
							// the number of records is not yet known to vary
							toSeq[r] = true
							continue
						}
						converted[key] = e.newCell(entry, o.st, convert, r, w, key, cellVars, deadCells, addVar)
						continue
					}
					if w.q != nil {
						if seqable(r) {
							toSeq[r] = true
							changed = true
							continue
						}
						undecided("nested loop writes to memory of an outer loop")
					}
					nq := quantW{r: r, w: w}
					ww := *w
					sub := func(p *Poly) *Poly { return p.SubstAtom(kA, kapAtom) }
					ww.off, ww.size = sub(w.off), sub(w.size)
					if w.val != nil {
						ww.val = mapPoly(w.val, sub)
					}
					ww.segs = mapSegs(w.segs, sub)
					nq.w = &ww
					k2 := fmt.Sprintf("q%d+%s/%s", r, ww.off, ww.size)
					nq.key = k2 + "=" + valKey(ww.val) + segsKey(ww.segs)
					if j, ok := qIndex[k2]; ok {
						newQ[j].w.q.arr += "x" // several paths write it
						if newQ[j].key != nq.key {
							newQ[j].w.q.must = false
							newQ[j].key = k2 + "=?"
						}
						continue
					}
					ww.q = &Quant{upper: K, arr: id + k2, must: true}
					qIndex[k2] = len(newQ)
					newQ = append(newQ, nq)
				}
			}
		}
		for r := range toSeq {
			mkSeq(r)
		}
		if changed {
			continue
		}
		// 2. phi shapes
		for i := range phis {
			if deadPhi[i] {
				continue
			}
			for _, o := range backs {
				nv := o.phis[i]
				switch x := fixedPhi[i].(type) {
				case *Poly, Bool:
					continue
				case Ptr:
					if y, ok := nv.(Ptr); ok && numeric[i] && y.r == x.r && polyKey(y.nilAt) == polyKey(x.nilAt) {
						continue
					}
				case Slice:
					y, ok := nv.(Slice)
					if ok && y.p.r == x.p.r {
						continue
					}
					if ok && !growPhi[i] {
						growPhi[i] = true
						et := phiIns[i].Type().Underlying().(*types.Slice).Elem()
						fixedPhi[i] = convert(entry, x, et)
						for _, v := range vars {
							if v.phi == i {
								v.init = [3]*Poly{polyZero, v.init, v.init}[v.comp]
								v.reset()
							}
						}
						changed = true
						break
					}
				}
				if changed {
					break
				}
				if nv != nil && valKey(nv) == valKey(fixedPhi[i]) {
					continue
				}
				deadPhi[i] = true
				changed = true
				break
			}
			if changed {
				break
			}
		}
		if changed {
			continue
		}
		// 3. next values of all variables
		next := make([]map[*loopVar]*Poly, len(backs))
		for bi, o := range backs {
			next[bi] = map[*loopVar]*Poly{}
			for _, v := range vars {
				p := e.nextVal(o, v)
				if p == nil {
					// not numeric on this path
					if v.phi >= 0 {
						deadPhi[v.phi] = true
					} else {
						cv := cellVars
						for k, x := range cv {
							if x == v {
								delete(cellVars, k)
								w := &Write{off: v.off, size: v.size, t: v.t}
								if cellErr(o, v) {
									w.val = errVal("x")
								} else {
									w.val = Opaque{kind: "havoc"}
								}
								deadCells[k] = w
								deadReg[w] = v.r
							}
						}
						vars = removeVar(vars, v)
					}
					changed = true
					break
				}
				next[bi][v] = p
			}
			if changed {
				break
			}
		}
		if changed {
			continue
		}
		unresolved := func(a *Atom) bool { return isLoopAtom(a, id) }
		bodyAtom := func(a *Atom) bool {
			return unresolved(a) || (a != kA && atomSeq(a.op) > entrySeq)
		}
		// isLast: after this path, the header leaves the loop
		isLast := func(o *Outcome) bool {
			return condP != nil && o.st.entailsCond(Cond{condP.SubstAtom(kA, K.AddC(1)).Neg().AddC(-1), '+'})
		}
		// 4. verify templates
		for _, v := range vars {
			if !v.known {
				continue
			}
			okAll := true
			for bi, o := range backs {
				if v.cut && isLast(o) {
					continue
				}
				if !v.verify(o.st, K, next[bi]) {
					okAll = false
					if loopDebug {
						fmt.Fprintf(os.Stderr, "   template of %s fails: next %s, expected %v\n", v.name, next[bi][v], v.expected(o.st.facts, K, next[bi]))
					}
					break
				}
			}
			if !okAll {
				v.known = false
				for _, x := range vars {
					for _, c := range x.comb {
						if c.v == v {
							x.reset()
						}
					}
				}
				v.step, v.pieces, v.comb, v.flag = nil, nil, nil, nil
				v.cut = false
				changed = true
			}
		}
		if changed {
			continue
		}
		// 5. resolve more variables
		for _, v := range vars {
			if v.known {
				continue
			}
			var steps []*Poly
			for bi := range backs {
				steps = append(steps, next[bi][v].Sub(v.h))
			}
			if e.resolve(v, steps, backs, kA, bodyAtom) {
				changed = true
				break
			}
			// the last iteration may do without the step
			if condP != nil && !v.cutDone && v.phi >= 0 && !headerUses(l, phiIns[v.phi]) {
				var some []*Outcome
				var ss []*Poly
				for bi, o := range backs {
					if !isLast(o) {
						some, ss = append(some, o), append(ss, steps[bi])
					}
				}
				if len(some) > 0 && len(some) < len(backs) {
					v.cutDone = true
					v.tried = map[string]bool{}
					if e.resolve(v, ss, some, kA, bodyAtom) {
						v.cut = true
						changed = true
						break
					}
				}
			}
		}
		if changed {
			continue
		}
		for i, x := range vars {
			if x.known {
				continue
			}
			for j, y := range vars {
				if i == j || y.known {
					continue
				}
				for _, c := range []int64{-1, 1} {
					var steps []*Poly
					for bi := range backs {
						steps = append(steps, next[bi][x].Sub(x.h).Add(next[bi][y].Sub(y.h).MulC(c)))
					}
					save := x.init
					x.init = x.init.Add(y.init.MulC(c))
					x.comb = []combTerm{{-c, y}}
					if e.resolve(x, steps, backs, kA, bodyAtom) {
						changed = true
						break
					}
					x.init = save
					x.comb = nil
				}
				if changed {
					break
				}
			}
			if changed {
				break
			}
		}
		if changed {
			continue
		}
		if !strict {
			strict = true
			some := false
			for _, v := range vars {
				some = some || !v.known
			}
			if some {
				continue
			}
		}
		// 6. header condition
		if condP == nil {
			if p, eq := e.headerCond(s0, l, prev, vals, kA, unresolved); p != nil {
				zero := p.SubstAtom(kA, polyZero).AddC(1)
				if !entry.entailsCond(Cond{zero, '+'}) {
					// the loop may be skipped altogether in a way that breaks the counter bound
					if entry.entailsCond(Cond{zero.Neg().AddC(-1), '+'}) {
						// never entered: evaluate the header once
						s := st.Clone()
						s.enter(l.header, prev)
						return []*State{s}, nil
					}
					panic(splitReq{Cond{zero, '+'}})
				}
				condP = p
				condEq = eq
				continue
			}
		}
		// 7. candidate bounds
		for _, v := range vars {
			var keep []int
			for _, c := range v.cands {
				ini := candPoly(c, v, v.initVal())
				ok := ini == nil || entry.entailsCond(Cond{ini, '+'})
				if ok {
					for bi, o := range backs {
						q := candPoly(c, v, next[bi][v])
						if q != nil && !o.st.entailsCond(Cond{q, '+'}) {
							ok = false
							if loopDebug {
								fmt.Fprintf(os.Stderr, "   candidate %d of %s fails: %s\n", c, v.name, q)
							}
							break
						}
					}
				}
				if ok {
					keep = append(keep, c)
				} else {
					changed = true
				}
			}
			v.cands = keep
		}
		if condP != nil {
			for _, o := range backs {
				q := condP.SubstAtom(kA, K.AddC(1)).AddC(1)
				if !o.st.entailsCond(Cond{q, '+'}) {
					undecided("loop counter bound is not inductive")
				}
			}
		}
		if changed {
			continue
		}
		// 8. writes indexed by the iteration
		for i := range newQ {
			w := newQ[i].w
			n := 0
			for _, o := range backs {
				if e.writesQ(s0, o, newQ[i], kA, id, entrySeq) {
					n++
				}
			}
			if n < len(backs) {
				w.q.guard = e.guardFor(s0, backs, newQ[i], kA, entrySeq, bodyAtom)
				if w.q.guard == nil {
					w.q.must = false
				}
			}
			bad := func(a *Atom) bool { return bodyAtom(a) }
			if w.off.Mentions(bad) || w.size.Mentions(bad) {
				if seqable(newQ[i].r) {
					mkSeq(newQ[i].r)
					quants = nil
					changed = true
					break
				}
				undecided("loop writes memory at an offset not expressible by the iteration count")
			}
			if valMentions(w.val, bad) || segsMention(w.segs, bad) {
				w.q.must = false
				newQ[i].key = newQ[i].key[:strings.IndexByte(newQ[i].key, '=')] + "=?"
			}
			newQ[i].key += fmt.Sprint(w.q.must, len(w.q.guard))
		}
		if changed {
			continue
		}
		for r, q := range seqs {
			for _, o := range backs {
				if checkSeq(o.st.events[nev:], r, q) {
					changed = true
				}
			}
		}
		if changed {
			for r, q := range seqs {
				c := *q
				entry.wreg(r).seq = &c
				seqs[r] = &c
			}
			continue
		}
		sort.SliceStable(newQ, func(a, b int) bool { return newQ[a].key < newQ[b].key })
		if quantKey(newQ) != quantKey(quants) {
			quants = newQ
			continue
		}
		_ = resolvedSomething
		// stable: record
		for bi, o := range backs {
			p := &LoopPath{facts: o.st.snapFacts(), events: o.st.events[nev:], next: map[string]*Poly{}}
			for _, v := range vars {
				p.next[v.key()] = next[bi][v]
			}
			lev.paths = append(lev.paths, p)
		}
		final = outs
		break
	}
	// continue after the loop
	var work []*State
	var res []*Outcome
	for _, o := range final {
		s := o.st
		switch o.kind {
		case "backedge":
			continue
		case "undecided", "panic":
			s.watch = s.watch[:len(s.watch)-1]
			res = append(res, o)
			continue
		}
		s = s.Clone()
		s.watch = s.watch[:len(s.watch)-1]
		if o.kind == "exit" {
			if o.prev == l.header && condP != nil {
				n := condP.Add(K).AddC(1)
				if condEq {
					n = condP.Add(K)
					n = n.AddC(1)
				}
				if s.entailsCond(Cond{K.Sub(n), '='}) {
					e.substState(s, kA, n, lev)
					if s.facts.bad {
						continue
					}
				}
			}
			f := s.frame()
			f.block = o.prev
			for _, v := range vars {
				if v.cut && o.prev == l.header {
					s.set(phiIns[v.phi], Opaque{kind: "havoc", key: s.fresh("hv")})
				}
			}
			w, os, cont := e.transfer(s, o.block, base)
			if cont {
				work = append(work, s)
			}
			work = append(work, w...)
			res = append(res, os...)
			continue
		}
		// return
		d := len(s.frames)
		if n := len(s.watch); n > 0 && s.watch[n-1].depth == d {
			o2 := *o
			o2.st = s
			res = append(res, &o2)
			continue
		}
		f := s.top()
		s.frames = s.frames[:d-1]
		if len(s.frames) == base {
			o2 := *o
			o2.st = s
			res = append(res, &o2)
			continue
		}
		s.finishCall(f.callee, o.res)
		work = append(work, s)
	}
	return work, res
}

func polyKey(p *Poly) string {
	if p == nil {
		return ""
	}
	return p.Key()
}

func (v *loopVar) key() string {
	if v.phi >= 0 {
		return v.name
	}
	return fmt.Sprintf("r%d+%s", v.r, v.off)
}

func (v *loopVar) reset() {
	v.known = false
	v.initFix()
	v.step, v.pieces, v.comb, v.flag = nil, nil, nil, nil
	v.tried = map[string]bool{}
	v.cands = allCands()
	v.checked = false
}

// initFix undoes the combination part of init.
func (v *loopVar) initFix() {
	for _, c := range v.comb {
		v.init = v.init.Add(c.v.initVal().MulC(c.c))
	}
}

func (v *loopVar) initVal() *Poly {
	p := v.init
	for _, c := range v.comb {
		p = p.Add(c.v.initVal().MulC(c.c))
	}
	return p
}

func (v *loopVar) expected(f *Facts, k *Poly, next map[*loopVar]*Poly) *Poly {
	if v.flag != nil {
		g := v.flag.atom.SubstAtom(kapAtom.SingleAtom(), k)
		switch {
		case f.knownIs(g, v.flag.val):
			return polyOne.Sub(v.init)
		case f.knownIs(g, 1-v.flag.val):
			return v.at(k)
		}
		return nil
	}
	p := v.at(k).Add(v.step)
	at := func(q *Poly) *Poly { return q.SubstAtom(kapAtom.SingleAtom(), k) }
	for _, pc := range v.pieces {
		on := true
		for _, g := range pc.g {
			ga := at(g.atom)
			if f.knownIs(ga, g.val) {
				continue
			}
			if f.knownIs(ga, 1-g.val) {
				on = false
				break
			}
			return nil
		}
		if on {
			p = p.Add(at(pc.body))
		}
	}
	for _, c := range v.comb {
		p = p.Add(next[c.v].Sub(c.v.at(k)).MulC(c.c))
	}
	return p
}

// headerUses: an instruction of the header uses the variable.
func headerUses(l *natLoop, p *ssa.Phi) bool {
	for _, r := range *p.Referrers() {
		if _, ok := r.(*ssa.Phi); ok || r.Block() != l.header {
			continue
		}
		if _, ok := r.(*ssa.DebugRef); !ok {
			return true
		}
	}
	return false
}

func (v *loopVar) verify(st *State, k *Poly, next map[*loopVar]*Poly) bool {
	e := v.expected(st.facts, k, next)
	return e != nil && st.proveEq(e, next[v])
}

// candidate bounds ---------------------------------------------------

func allCands() []int { return []int{0, 1, 2, 3} }

// candPoly: candidate c as polynomial >= 0 for value p; nil = trivially true.
func candPoly(c int, v *loopVar, p *Poly) *Poly {
	ini := v.initVal()
	switch c {
	case 0:
		if c, ok := ini.Const(); ok && c.Sign() < 0 {
			return p.Sub(ini)
		}
		if lo, _ := p.interval(); lo != nil && lo.Sign() >= 0 {
			return nil
		}
		return p
	case 1:
		return constB(sizeHi).Sub(p)
	case 2:
		if p.Eq(ini) {
			return nil
		}
		return ini.Sub(p)
	case 3:
		if p.Eq(ini) {
			return nil
		}
		return p.Sub(ini)
	}
	return nil
}

func sizeRange(t types.Type) (lo, hi *big.Int) {
	if bits, signed, ok := basicInfo(t); ok {
		return typeRange(bits, signed)
	}
	if isBoolT(t) {
		return bigZero, bigOne
	}
	return nil, nil
}

func isLoopAtom(a *Atom, id string) bool {
	return strings.HasPrefix(a.op, "lv:"+id+":")
}

func isConstP(p *Poly) bool { _, ok := p.Const(); return ok }

var cellPtr = map[*loopVar]Ptr{}
var deadReg = map[*Write]int{}

func sortedWrites(m map[string]*Write) []*Write {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []*Write
	for _, k := range ks {
		out = append(out, m[k])
	}
	return out
}

func removeVar(vs []*loopVar, v *loopVar) []*loopVar {
	var out []*loopVar
	for _, x := range vs {
		if x != v {
			for _, c := range x.comb {
				if c.v == v {
					x.reset()
					break
				}
			}
			out = append(out, x)
		}
	}
	return out
}

// followOut: a round that ends with a flag or an error set, which makes the loop condition fail, is
// a way out of the loop and not a way to the next round.
func (e *Engine) followOut(outs []*Outcome, l *natLoop, phis []Value, dead []bool, base int) (res []*Outcome) {
	for _, o := range outs {
		flag := false
		if o.kind == "backedge" {
			for i, x := range phis {
				if dead[i] || o.phis[i] == nil || x == nil {
					continue
				}
				switch x := x.(type) {
				case *Poly, Ptr, Slice:
					continue
				case Bool:
					y, ok := o.phis[i].(Bool)
					c := isConstP(x.c.p) && ok && isConstP(y.c.p)
					flag = flag || c && o.st.facts.entailsCond(x.c) != o.st.facts.entailsCond(y.c)
				default:
					flag = flag || valKey(x) != valKey(o.phis[i])
				}
			}
		}
		if !flag {
			res = append(res, o)
			continue
		}
		s := o.st.Clone()
		s.enterWith(l.header, o.prev, o.phis)
		next := e.run([]*State{s}, base)
		for _, n := range next {
			if n.kind == "backedge" || n.kind == "undecided" {
				next = []*Outcome{o}
				break
			}
		}
		res = append(res, next...)
	}
	return
}

// newCell registers a memory cell modified by the loop body.
func (e *Engine) newCell(entry, after *State, convert func(*State, Slice, types.Type) Slice, r int, w *Write, key string, cells map[string]*loopVar, dead map[string]*Write, add func(*loopVar) *loopVar) bool {
	mk := func() {
		d := &Write{off: w.off, size: w.size, t: w.t, val: w.val, segs: w.segs}
		if d.val != nil {
			if _, ok := d.val.(*Poly); ok {
				d.val = nil
			}
		}
		dead[key] = d
		deadReg[d] = r
	}
	sz, ok := w.size.Int64()
	if w.val == nil || !ok || w.t == nil || sz > 8 {
		mk()
		return false
	}
	init := entry.loadAt(r, w.off, w.t)
	switch x := init.(type) {
	case *Poly:
		if _, ok := w.val.(*Poly); !ok {
			mk()
			return false
		}
		lo, hi := sizeRange(w.t)
		cells[key] = add(&loopVar{name: "cell:" + key, phi: -1, r: r, off: w.off, size: w.size, t: w.t, init: x, lo: lo, hi: hi})
	case Bool:
		if _, ok := w.val.(Bool); !ok {
			mk()
			return false
		}
		ini := polyZero
		if entry.decide(x.c) {
			ini = polyOne
		}
		cells[key] = add(&loopVar{name: "cell:" + key, phi: -1, r: r, off: w.off, size: w.size, t: w.t, init: ini, lo: bigZero, hi: bigOne})
	case Ptr:
		y, ok := w.val.(Ptr)
		if ok && x.r >= 0 && x.r == y.r && x.nilAt == nil && y.nilAt == nil {
			v := add(&loopVar{name: "cell:" + key, phi: -1, r: r, off: w.off, size: w.size, t: w.t, init: x.off})
			cellPtr[v] = x
			cells[key] = v
			return false
		}
		if ok && y.r >= 0 && x.nilAt == nil && (x.r < 0 || !entry.reg(x.r).grow) {
			if g := after.reg(y.r); g.grow && g.elem != nil && y.off.isZero() {
				if sl, ok := entry.loadAt(r, w.off, types.NewSlice(g.elem)).(Slice); ok {
					// a slice variable in memory that the loop appends to
					entry.storeAt(r, w.off, convert(entry, sl, g.elem), types.NewSlice(g.elem))
					return true
				}
			}
		}
		mk()
	default:
		mk()
	}
	return false
}

func cellErr(o *Outcome, v *loopVar) bool {
	return false
}

// nextVal is the value of v at a back edge.
func (e *Engine) nextVal(o *Outcome, v *loopVar) *Poly {
	var val Value
	if v.phi >= 0 {
		val = o.phis[v.phi]
	} else {
		req := func() (r interface{}) {
			defer func() {
				if x := recover(); x != nil {
					switch x.(type) {
					case splitReq, haltReq:
						r = x
					default:
						panic(x)
					}
				}
			}()
			val = o.st.loadAt(v.r, v.off, v.t)
			return nil
		}()
		if req != nil {
			return nil
		}
	}
	switch x := val.(type) {
	case *Poly:
		return x
	case Bool:
		if c, ok := x.c.p.Const(); ok {
			if (c.Sign() == 0) == (x.c.op == '=') {
				return polyOne
			}
			return polyZero
		}
		if o.st.entailsCond(x.c) {
			return polyOne
		}
		if o.st.entailsCond(x.c.Not()) {
			return polyZero
		}
		if x.c.op == '=' {
			if a := x.c.p.AddC(1).SingleAtom(); a != nil && a.hi != nil && a.hi.Cmp(bigOne) == 0 {
				return atomP(a)
			}
			for _, p := range []*Poly{x.c.p, x.c.p.Neg()} {
				if a := p.SingleAtom(); a != nil && a.op == "none" {
					return polyOne.Sub(p)
				}
			}
		}
		return mkAtom(o.st.fresh("lbool"), bigZero, bigOne)
	case Ptr:
		if v.phi < 0 {
			if pt, ok := cellPtr[v]; !ok || pt.r != x.r {
				return nil
			}
		}
		return x.off
	case Slice:
		switch v.comp {
		case 0:
			return x.p.off
		case 1:
			return x.len
		case 2:
			return x.cap
		}
	}
	return nil
}

// resolve looks for a closed form of a variable from its per-path increments.
func (e *Engine) resolve(v *loopVar, steps []*Poly, backs []*Outcome, kA *Atom, body func(*Atom) bool) bool {
	if len(steps) == 0 {
		v.known, v.step, v.pieces = true, polyZero, nil
		if v.tried[v.tmplKey()] {
			v.known = false
			v.step = nil
			return false
		}
		v.tried[v.tmplKey()] = true
		return true
	}
	toKap := func(p *Poly) *Poly { return p.SubstAtom(kA, kapAtom) }
	var distinct []*Poly
	for _, s := range steps {
		found := false
		for _, d := range distinct {
			if d.Eq(s) {
				found = true
			}
		}
		if !found {
			distinct = append(distinct, s)
		}
	}
	try := func(step *Poly, pcs []piece) bool {
		v.step, v.pieces = step, pcs
		k := v.tmplKey()
		if v.tried[k] {
			v.step, v.pieces = nil, nil
			return false
		}
		v.tried[k] = true
		v.known = true
		return true
	}
	single := func(d *Poly) bool {
		if d.Mentions(body) {
			return false
		}
		if !d.Mentions(func(a *Atom) bool { return a == kA }) {
			return try(d, nil)
		}
		return try(polyZero, []piece{{nil, toKap(d)}})
	}
	if len(distinct) == 1 {
		return single(distinct[0])
	}
	// a common step modulo facts
	for _, d := range distinct {
		if d.Mentions(body) {
			continue
		}
		all := true
		for i, s := range steps {
			if !s.Eq(d) && !backs[i].st.proveEq(s, d) {
				all = false
				break
			}
		}
		if all && single(d) {
			return true
		}
	}
	// discriminate by a 0/1 atom
	cand := map[string]*Poly{}
	for _, b := range backs {
		for id := range b.st.facts.known {
			a := atomTab[id]
			if a.lo != nil && a.hi != nil && a.lo.Sign() == 0 && a.hi.Cmp(bigOne) == 0 {
				p := atomP(a)
				if !p.Mentions(body) {
					cand[p.Key()] = p
				}
			}
		}
	}
	var keys []string
	for k := range cand {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		g := cand[k]
		var val [2]*Poly
		ok := true
		for i, b := range backs {
			side := -1
			if b.st.facts.knownIs(g, 1) {
				side = 1
			} else if b.st.facts.knownIs(g, 0) {
				side = 0
			}
			if side < 0 {
				ok = false
				break
			}
			if val[side] == nil {
				val[side] = steps[i]
			} else if !val[side].Eq(steps[i]) && !b.st.proveEq(val[side], steps[i]) {
				ok = false
				break
			}
		}
		if !ok || val[0] == nil || val[1] == nil || val[0].Mentions(body) || val[1].Mentions(body) {
			continue
		}
		isK := func(a *Atom) bool { return a == kA }
		if !g.Mentions(isK) {
			continue
		}
		var pcs []piece
		for side := 0; side < 2; side++ {
			if !val[side].isZero() {
				pcs = append(pcs, piece{[]Guard{{toKap(g), int64(side)}}, toKap(val[side])})
			}
		}
		if try(polyZero, pcs) {
			return true
		}
	}
	// a flag
	if c, ok := v.init.Int64(); ok && v.lo != nil && v.lo.Sign() == 0 && v.hi != nil && v.hi.Cmp(bigOne) == 0 && len(v.comb) == 0 && v.h.SingleAtom() != nil && (c == 0 || c == 1) {
		set := polyOne.Sub(v.init).Sub(v.h)
		for _, k := range keys {
			g := cand[k]
			if !g.Mentions(func(a *Atom) bool { return a == kA }) {
				continue
			}
			for side := int64(0); side < 2; side++ {
				ok := true
				for i, b := range backs {
					switch {
					case b.st.facts.knownIs(g, side):
						ok = ok && steps[i].Eq(set)
					case b.st.facts.knownIs(g, 1-side):
						ok = ok && steps[i].isZero()
					default:
						ok = false
					}
				}
				if !ok {
					continue
				}
				v.flag, v.step = &Guard{toKap(g), side}, polyZero
				if key := v.tmplKey(); !v.tried[key] {
					v.tried[key] = true
					v.known = true
					return true
				}
				v.flag, v.step = nil, nil
			}
		}
	}
	// any single step (paths that become infeasible under the template)
	sort.SliceStable(distinct, func(i, j int) bool { return bigCoef(distinct[i]) < bigCoef(distinct[j]) })
	if len(v.comb) > 0 {
		return false
	}
	for _, d := range distinct {
		wraps := true
		for _, x := range distinct {
			if x != d && bigCoef(x.Sub(d)) < 31 {
				wraps = false
			}
		}
		if wraps && !d.Mentions(body) && single(d) {
			return true
		}
	}
	return false
}

func bigCoef(p *Poly) int {
	n := 0
	for _, t := range p.terms {
		if b := t.c.BitLen(); b > n {
			n = b
		}
	}
	return n
}

// headerCond extracts the continue condition of the loop header as p(K) >= 0 with coefficient
// -1 on K and otherwise loop-invariant.
func (e *Engine) headerCond(s0 *State, l *natLoop, prev *ssa.BasicBlock, vals []Value, kA *Atom, unres func(*Atom) bool) (p *Poly, eq bool) {
	s := s0.Clone()
	defer func() {
		if x := recover(); x != nil {
			switch x.(type) {
			case splitReq, haltReq:
				p = nil
			default:
				panic(x)
			}
		}
	}()
	s.enterWith(l.header, prev, vals)
	for n := 0; n < 100; n++ {
		f := s.top()
		ins := f.block.Instrs[f.pc]
		switch x := ins.(type) {
		case *ssa.If:
			b, ok := s.val(x.Cond).(Bool)
			if !ok {
				return nil, false
			}
			c := b.c
			in0, in1 := l.body[f.block.Succs[0]], l.body[f.block.Succs[1]]
			if in0 == in1 {
				return nil, false
			}
			if in1 {
				c = c.Not()
			}
			q := c.p
			isK := func(a *Atom) bool { return a == kA }
			coef := func(q *Poly) (int64, bool) {
				rest := q
				var k int64
				for _, t := range q.terms {
					if len(t.mono) == 1 && t.mono[0] == kA.id {
						if !t.c.IsInt64() {
							return 0, false
						}
						k = t.c.Int64()
					}
				}
				rest = q.Sub(atomP(kA).MulC(k))
				if rest.Mentions(isK) || rest.Mentions(unres) {
					return 0, false
				}
				return k, true
			}
			k, ok := coef(q)
			if !ok {
				return nil, false
			}
			switch c.op {
			case '+':
				if k == -1 {
					return q, false
				}
				if k < -1 {
					// m*K <= r : normalise when every coefficient is divisible
					return nil, false
				}
			case '!':
				if k == 1 {
					q = q.Neg()
					k = -1
				}
				if k == -1 {
					// continue while q != 0; q starts >= 0: q-1 >= 0
					return q.AddC(-1), true
				}
			}
			return nil, false
		case *ssa.Call:
			if _, isB := x.Call.Value.(*ssa.Builtin); !isB {
				return nil, false
			}
		case *ssa.Jump, *ssa.Return, *ssa.Panic:
			return nil, false
		}
		s.exec(ins)
	}
	return nil, false
}

func valMentions(v Value, pred func(*Atom) bool) bool {
	hit := false
	mapPoly(v, func(p *Poly) *Poly {
		if p.Mentions(pred) {
			hit = true
		}
		return p
	})
	return hit
}

func segsMention(s []Seg, pred func(*Atom) bool) bool {
	hit := false
	mapSegs(s, func(p *Poly) *Poly {
		if p.Mentions(pred) {
			hit = true
		}
		return p
	})
	return hit
}

func (e *Engine) writesQ(s0 *State, o *Outcome, q quantW, kA *Atom, id string, entrySeq int) bool {
	a, b := s0.reg(q.r), o.st.reg(q.r)
	if a == b {
		return false
	}
	old := map[*Write]bool{}
	for _, w := range a.writes {
		old[w] = true
	}
	for _, w := range b.writes {
		if !old[w] && w.off.SubstAtom(kA, kapAtom).Eq(q.w.off) && w.size.SubstAtom(kA, kapAtom).Eq(q.w.size) {
			return true
		}
	}
	return false
}

// guardFor finds a 0/1 atom whose value on each path decides whether the path performs q.
func (e *Engine) guardFor(s0 *State, backs []*Outcome, q quantW, kA *Atom, entrySeq int, body func(*Atom) bool) []Guard {
	cand := map[string]*Poly{}
	for _, b := range backs {
		for id := range b.st.facts.known {
			a := atomTab[id]
			if a.lo != nil && a.hi != nil && a.lo.Sign() == 0 && a.hi.Cmp(bigOne) == 0 {
				p := atomP(a)
				if !p.Mentions(body) && p.Mentions(func(x *Atom) bool { return x == kA }) {
					cand[p.Key()] = p
				}
			}
		}
	}
	var keys []string
	for k := range cand {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		for val := int64(0); val < 2; val++ {
			ok := true
			for _, b := range backs {
				wr := e.writesQ(s0, b, q, kA, "", entrySeq)
				want := val
				if !wr {
					want = 1 - val
				}
				if !b.st.facts.knownIs(cand[k], want) {
					ok = false
					break
				}
			}
			if ok {
				return []Guard{{cand[k].SubstAtom(kA, kapAtom), val}}
			}
		}
	}
	return nil
}

// substState replaces atom a by p everywhere in the state (the finished loop's own summary keeps
// its bound variable).
func (e *Engine) substState(s *State, a *Atom, p *Poly, own *LoopEv) {
	f := func(q *Poly) *Poly { return q.SubstAtom(a, p) }
	ment := func(x *Atom) bool { return x == a }
	for i := range s.frames {
		fr := s.frames[i]
		var nf *Frame
		for j, v := range fr.env {
			if v == nil || !valMentions(v, ment) {
				continue
			}
			if nf == nil {
				c := *fr
				c.gen = s.gen
				c.env = append([]Value(nil), fr.env...)
				nf = &c
			}
			nf.env[j] = mapPoly(v, f)
		}
		if nf != nil {
			s.frames[i] = nf
		}
	}
	for i, r := range s.regs {
		dirty := r.size != nil && r.size.Mentions(ment)
		for _, w := range r.writes {
			if writeMentions(w, ment) {
				dirty = true
			}
		}
		if !dirty {
			continue
		}
		n := s.wreg(i)
		if n.size != nil {
			n.size = f(n.size)
		}
		for j, w := range n.writes {
			if !writeMentions(w, ment) {
				continue
			}
			c := *w
			c.off, c.size = f(w.off), f(w.size)
			if w.val != nil {
				c.val = mapPoly(w.val, f)
			}
			c.segs = mapSegs(w.segs, f)
			if w.q != nil {
				q := *w.q
				q.upper = f(q.upper)
				c.q = &q
			}
			n.writes[j] = &c
		}
	}
	s.facts = s.facts.subst(f)
	s.fshared = false
	evs := make([]Event, len(s.events))
	for i, ev := range s.events {
		if ev.loop == own {
			ev.n = f(ev.n)
			evs[i] = ev
			continue
		}
		evs[i] = ev
		if ev.mentions(ment) {
			evs[i] = ev.mapPoly(f)
		}
	}
	s.events = evs
}

func writeMentions(w *Write, m func(*Atom) bool) bool {
	if w.off.Mentions(m) || w.size.Mentions(m) || valMentions(w.val, m) || segsMention(w.segs, m) {
		return true
	}
	return w.q != nil && w.q.upper.Mentions(m)
}

func (ev Event) mentions(m func(*Atom) bool) bool {
	if ev.n != nil && ev.n.Mentions(m) || ev.m != nil && ev.m.Mentions(m) || ev.ptr.off != nil && ev.ptr.off.Mentions(m) {
		return true
	}
	if valMentions(ev.val, m) || valMentions(ev.val2, m) || segsMention(ev.segs, m) {
		return true
	}
	for _, o := range ev.objs {
		if valMentions(o, m) {
			return true
		}
	}
	if ev.facts != nil && ev.facts.mentions(m) {
		return true
	}
	if ev.loop != nil {
		for _, p := range ev.loop.paths {
			if p.facts.mentions(m) {
				return true
			}
			for _, x := range p.events {
				if x.mentions(m) {
					return true
				}
			}
			for _, x := range p.next {
				if x.Mentions(m) {
					return true
				}
			}
		}
		for _, x := range ev.loop.vars {
			if x.Mentions(m) {
				return true
			}
		}
	}
	return false
}

func (ev Event) mapPoly(f func(*Poly) *Poly) Event {
	if ev.n != nil {
		ev.n = f(ev.n)
	}
	if ev.m != nil {
		ev.m = f(ev.m)
	}
	if ev.ptr.off != nil {
		ev.ptr = mapPoly(ev.ptr, f).(Ptr)
	}
	if ev.rsize != nil {
		ev.rsize = f(ev.rsize)
	}
	if ev.val != nil {
		ev.val = mapPoly(ev.val, f)
	}
	if ev.val2 != nil {
		ev.val2 = mapPoly(ev.val2, f)
	}
	ev.segs = mapSegs(ev.segs, f)
	if ev.objs != nil {
		n := make([]Value, len(ev.objs))
		for i, o := range ev.objs {
			n[i] = mapPoly(o, f)
		}
		ev.objs = n
	}
	if ev.facts != nil {
		ev.facts = ev.facts.subst(f)
	}
	if ev.loop != nil {
		l := *ev.loop
		l.paths = nil
		for _, p := range ev.loop.paths {
			l.paths = append(l.paths, p.mapPoly(f))
		}
		l.vars = map[string]*Poly{}
		for k, v := range ev.loop.vars {
			l.vars[k] = f(v)
		}
		l.inits = map[string]*Poly{}
		for k, v := range ev.loop.inits {
			l.inits[k] = f(v)
		}
		ev.loop = &l
	}
	return ev
}

func (p *LoopPath) mapPoly(f func(*Poly) *Poly) *LoopPath {
	n := &LoopPath{facts: p.facts.subst(f), next: map[string]*Poly{}, leaf: mapSegs(p.leaf, f), bad: p.bad}
	for _, e := range p.events {
		n.events = append(n.events, e.mapPoly(f))
	}
	for k, v := range p.next {
		n.next[k] = f(v)
	}
	return n
}

func factsStr(f, minus *Facts) string {
	s := ""
	for _, c := range f.cons {
		if !minus.keys[c.keyStr()] {
			s += c.String() + "; "
		}
	}
	for id, v := range f.known {
		if _, ok := minus.known[id]; !ok {
			s += fmt.Sprintf("%s=%s; ", atomTab[id], v)
		}
	}
	for _, p := range f.ne {
		s += p.String() + "!=0; "
	}
	return s
}
