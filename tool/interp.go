package main

// The abstract interpreter over go/ssa.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type nativeFn func(st *State, args []Value) []Value

type Engine struct {
	prog      *ssa.Program
	fset      *token.FileSet
	modPath   string
	pkgs      map[string]*ssa.Package
	maps      [][]mapEntry // map literals of package variables
	started   bool         // package initialisation is over
	contracts map[*ssa.Function]nativeFn
	invokes   map[string]func(st *State, recv Opaque, args []Value) []Value
	valIdx    map[*ssa.Function]map[ssa.Value]int
	loopsOf   map[*ssa.Function]*fnLoops
	globals   map[*ssa.Global]int // region ids in base state
	steps     int
	maxSteps  int
	nOutcomes int
	nLoops    int
	fnSeen    map[*ssa.Function]bool
	callSites int
	sumCache  map[string]bool
	cut       *cutMode
}

type Outcome struct {
	kind    string // return, panic, undecided, backedge, exit
	st      *State
	res     []Value
	reason  string
	pos     token.Pos
	fn      *ssa.Function
	block   *ssa.BasicBlock
	prev    *ssa.BasicBlock
	phis    []Value
	started bool  // decoders: part of the scope had been read
	dr      Value // decoders: the reader
	en      Entry
}

type loopWatch struct {
	depth  int
	loop   *natLoop
	unroll bool
}

var debugTrace = os.Getenv("ZTRACE") != ""

func newEngine(prog *ssa.Program, mod string) *Engine {
	return &Engine{prog: prog, fset: prog.Fset, modPath: mod, pkgs: map[string]*ssa.Package{},
		contracts: map[*ssa.Function]nativeFn{}, invokes: map[string]func(*State, Opaque, []Value) []Value{},
		valIdx: map[*ssa.Function]map[ssa.Value]int{}, loopsOf: map[*ssa.Function]*fnLoops{},
		globals: map[*ssa.Global]int{}, maxSteps: 6000000, fnSeen: map[*ssa.Function]bool{}}
}

func (e *Engine) indexOf(fn *ssa.Function) map[ssa.Value]int {
	if m, ok := e.valIdx[fn]; ok {
		return m
	}
	m := map[ssa.Value]int{}
	for _, p := range fn.Params {
		m[p] = len(m)
	}
	for _, p := range fn.FreeVars {
		m[p] = len(m)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				m[v] = len(m)
			}
		}
	}
	e.valIdx[fn] = m
	return m
}

func (e *Engine) newState() *State {
	return &State{gen: newGen(), facts: newFacts(), eng: e, ghosts: map[string]int{}}
}

func (st *State) pushFrame(fn *ssa.Function, args []Value, free []Value, callee ssa.Instruction, hook func(*State, []Value) []Value) {
	e := st.eng
	e.fnSeen[fn] = true
	if len(st.frames) > 60 {
		undecided("call depth limit (recursion?) at %s", fn)
	}
	idx := e.indexOf(fn)
	f := &Frame{fn: fn, gen: st.gen, env: make([]Value, len(idx)), callee: callee, hook: hook}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[idx[p]] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		f.env[idx[p]] = free[i]
	}
	st.frames = append(st.frames, f)
	f.block = fn.Blocks[0]
}

// Call explores fn(args) from st and returns all outcomes.
func (e *Engine) Call(st *State, fn *ssa.Function, args []Value, free []Value) []*Outcome {
	s := st.Clone()
	if fn.Blocks == nil {
		return []*Outcome{{kind: "undecided", st: s, reason: "no body for " + fn.String(), fn: fn}}
	}
	base := len(s.frames)
	s.pushFrame(fn, args, free, nil, nil)
	return e.run([]*State{s}, base)
}

func (e *Engine) CallValue(st *State, f Value, args []Value) []*Outcome {
	c, ok := f.(Closure)
	if !ok || c.fn == nil {
		return []*Outcome{{kind: "undecided", st: st, reason: "call of non-function " + showVal(f)}}
	}
	return e.Call(st, c.fn, args, c.free)
}

// run explores until every state returns below base frames or hits the innermost watch.
func (e *Engine) run(work []*State, base int) []*Outcome {
	var out []*Outcome
	for len(work) > 0 {
		st := work[len(work)-1]
		work = work[:len(work)-1]
		nw, o := e.runOne(st, base)
		work = append(work, nw...)
		if o != nil {
			e.nOutcomes++
			out = append(out, o...)
		}
		if len(out) > 4000 && (e.cut == nil || len(out) > 40000) {
			out = append(out, &Outcome{kind: "undecided", st: st, reason: "path limit exceeded"})
			return out
		}
	}
	return out
}

func (e *Engine) runOne(st *State, base int) (work []*State, outs []*Outcome) {
	for {
		e.steps++
		if e.steps > e.maxSteps {
			return nil, []*Outcome{{kind: "undecided", st: st, reason: "analysis budget exceeded", fn: st.top().fn}}
		}
		f := st.top()
		if f.pc >= len(f.block.Instrs) {
			return nil, []*Outcome{{kind: "undecided", st: st, reason: "fell off block"}}
		}
		ins := f.block.Instrs[f.pc]
		switch x := ins.(type) {
		case *ssa.Jump:
			w, o, cont := e.transfer(st, f.block.Succs[0], base)
			if cont {
				continue
			}
			return w, o
		case *ssa.If:
			var tgt *ssa.BasicBlock
			ws, os, ok := e.guard(st, base, func(s *State) {
				c := s.val(x.Cond)
				b, isB := c.(Bool)
				if !isB {
					undecided("branch on %s", showVal(c))
				}
				if s.decide(b.c) {
					tgt = f.block.Succs[0]
				} else {
					tgt = f.block.Succs[1]
				}
			})
			if !ok {
				return ws, os
			}
			w, o, cont := e.transfer(st, tgt, base)
			if cont {
				continue
			}
			return w, o
		case *ssa.Return:
			var res []Value
			ws, os, ok := e.guard(st, base, func(s *State) {
				for _, r := range x.Results {
					res = append(res, s.val(r))
				}
				if f.hook != nil {
					res = f.hook(s, res)
				}
			})
			if !ok {
				return ws, os
			}
			depth := len(st.frames)
			if n := len(st.watch); n > 0 && st.watch[n-1].depth == depth {
				return nil, []*Outcome{{kind: "return", st: st, res: res, pos: ins.Pos(), fn: f.fn}}
			}
			st.frames = st.frames[:depth-1]
			if len(st.frames) == base {
				return nil, []*Outcome{{kind: "return", st: st, res: res, pos: ins.Pos(), fn: f.fn}}
			}
			st.finishCall(f.callee, res)
			continue
		case *ssa.Panic:
			msg := "explicit panic"
			return nil, []*Outcome{{kind: "panic", st: st, reason: msg, pos: ins.Pos(), fn: f.fn}}
		}
		ws, os, ok := e.guard(st, base, func(s *State) { s.exec(ins) })
		if !ok {
			return ws, os
		}
	}
}

func (st *State) finishCall(callee ssa.Instruction, res []Value) {
	f := st.frame()
	if v, ok := callee.(*ssa.Call); ok {
		switch len(res) {
		case 0:
		case 1:
			f.env[st.eng.indexOf(f.fn)[v]] = res[0]
		default:
			f.env[st.eng.indexOf(f.fn)[v]] = Tuple(res)
		}
	}
	if _, ok := callee.(*ssa.RunDefers); ok && len(f.defers) > 0 {
		return
	}
	f.pc++
}

// guard runs fn on st; on a split request it forks the pre-state.
func (e *Engine) guard(st *State, base int, fn func(*State)) (work []*State, outs []*Outcome, ok bool) {
	pre := st.Clone()
	req := func() (r interface{}) {
		defer func() {
			if x := recover(); x != nil {
				switch x.(type) {
				case splitReq, haltReq:
					r = x
				default:
					panic(x)
				}
			}
		}()
		fn(st)
		return nil
	}()
	if req == nil {
		return nil, nil, true
	}
	switch r := req.(type) {
	case splitReq:
		a := pre.Clone()
		a.assume(r.c)
		b := pre.Clone()
		b.assume(r.c.Not())
		if debugTrace {
			fmt.Fprintf(os.Stderr, "split at %s: %s\n", pre.where(), r.c)
		}
		if e.cut != nil {
			e.cut.settle(a)
			e.cut.settle(b)
		}
		if !a.facts.bad {
			work = append(work, a)
		}
		if !b.facts.bad {
			work = append(work, b)
		}
		return work, nil, false
	case haltReq:
		f := st.top()
		pos := token.NoPos
		if f.pc < len(f.block.Instrs) {
			pos = instrPos(f.block.Instrs[f.pc])
		}
		if pos == token.NoPos {
			pos = f.fn.Pos()
		}
		return nil, []*Outcome{{kind: r.kind, st: st, reason: r.reason, pos: pos, fn: f.fn}}, false
	}
	return nil, nil, true
}

func (st *State) where() string {
	f := st.top()
	pos := f.fn.Pos()
	if f.pc < len(f.block.Instrs) {
		if p := instrPos(f.block.Instrs[f.pc]); p != token.NoPos {
			pos = p
		}
	}
	return fmt.Sprintf("%s (%s)", st.eng.fset.Position(pos), f.fn.Name())
}

// transfer moves control of the top frame to block b.
func (e *Engine) transfer(st *State, b *ssa.BasicBlock, base int) (work []*State, outs []*Outcome, cont bool) {
	f := st.top()
	prev := f.block
	depth := len(st.frames)
	if n := len(st.watch); n > 0 {
		w := st.watch[n-1]
		if w.depth == depth {
			if b == w.loop.header {
				return nil, []*Outcome{{kind: "backedge", st: st, phis: st.phiVals(b, prev), fn: f.fn, block: b, prev: prev}}, false
			}
			if !w.loop.body[b] {
				return nil, []*Outcome{{kind: "exit", st: st, fn: f.fn, block: b, prev: prev}}, false
			}
		}
	}
	if l := e.loops(f.fn).headers[b]; l != nil && !l.body[prev] {
		return e.handleLoop(st, l, prev, base)
	}
	st.enter(b, prev)
	return nil, nil, true
}

func (st *State) phiVals(b, prev *ssa.BasicBlock) []Value {
	pi := -1
	for i, p := range b.Preds {
		if p == prev {
			pi = i
			break
		}
	}
	var out []Value
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, st.val(phi.Edges[pi]))
	}
	return out
}

func (st *State) enter(b, prev *ssa.BasicBlock) {
	vals := st.phiVals(b, prev)
	st.enterWith(b, prev, vals)
}

// mapEntry is an entry of a map filled by package initialisation and only read from then on.
type mapEntry struct{ key, val Value }

// mapOf is the contents of a map; nil for the nil map.
func (st *State) mapOf(v Value) *[]mapEntry {
	switch v := v.(type) {
	case Ptr:
		if v.r < 0 {
			return nil
		}
	case Opaque:
		if n, err := strconv.Atoi(v.key); v.kind == "map" && err == nil {
			return &st.eng.maps[n]
		}
	}
	undecided("unknown map")
	return nil
}

func (st *State) lookup(x *ssa.Lookup) Value {
	mt, ok := x.X.Type().Underlying().(*types.Map)
	if !ok {
		undecided("index of a string")
	}
	res := zeroValue(mt.Elem())
	found := false
	k := st.val(x.Index)
	if m := st.mapOf(st.val(x.X)); m != nil {
		for i := len(*m) - 1; i >= 0 && !found; i-- {
			e := (*m)[i]
			switch a := e.key.(type) {
			case *Poly:
				b, ok := k.(*Poly)
				if !ok {
					undecided("map key")
				}
				found = st.decide(eqC(b, a))
			case Str:
				b, ok := k.(Str)
				if !ok {
					undecided("map key")
				}
				found = st.decide(st.strEq(b, a).c)
			default:
				undecided("map key")
			}
			if found {
				res = e.val
			}
		}
	}
	if x.CommaOk {
		return Tuple{res, boolC(found)}
	}
	return res
}

func (st *State) enterWith(b, prev *ssa.BasicBlock, vals []Value) {
	f := st.frame()
	idx := st.eng.indexOf(f.fn)
	for i, v := range vals {
		f.env[idx[b.Instrs[i].(*ssa.Phi)]] = v
	}
	f.block = b
	f.prev = prev
	f.pc = len(vals)
}

func (st *State) set(v ssa.Value, x Value) {
	f := st.frame()
	f.env[st.eng.indexOf(f.fn)[v]] = x
}

func (st *State) val(v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return constValue(v)
	case *ssa.Function:
		return Closure{fn: v}
	case *ssa.Global:
		return Ptr{r: st.eng.globalRegion(st, v), off: polyZero}
	case *ssa.Builtin:
		return Builtin{v.Name()}
	}
	f := st.top()
	i, ok := st.eng.indexOf(f.fn)[v]
	if !ok {
		undecided("unknown SSA value %s", v)
	}
	x := f.env[i]
	if x == nil {
		undecided("use of undefined value %s in %s", v.Name(), f.fn)
	}
	return x
}

func (e *Engine) globalRegion(st *State, g *ssa.Global) int {
	if id, ok := e.globals[g]; ok && id < len(st.regs) {
		return id
	}
	key := "g:" + g.String()
	if id, ok := st.ghosts[key]; ok {
		return id
	}
	t := g.Type().(*types.Pointer).Elem()
	r := st.newRegion(g.String(), "global", constP(sizeof(t)))
	r.rawName = g.String()
	m := map[string]int{}
	for k, v := range st.ghosts {
		m[k] = v
	}
	m[key] = r.id
	st.ghosts = m
	switch g.String() {
	case "io.Discard", "io/ioutil.Discard":
		st.storeAt(r.id, polyZero, Opaque{kind: "writer", key: "discard"}, t)
	case "io.EOF", "io.ErrUnexpectedEOF", "io.ErrShortWrite":
		st.storeAt(r.id, polyZero, errVal(g.String()), t)
	}
	return r.id
}

func constValue(c *ssa.Const) Value {
	if c.Value == nil {
		return zeroValue(c.Type())
	}
	t := c.Type().Underlying()
	switch c.Value.Kind() {
	case constant.Bool:
		return boolC(constant.BoolVal(c.Value))
	case constant.String:
		return Str{isC: true, s: constant.StringVal(c.Value)}
	case constant.Int:
		if b, ok := t.(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			n, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
			return constB(n)
		}
	}
	if _, ok := t.(*types.Interface); ok {
		return Iface{}
	}
	undecided("constant %s", c)
	return nil
}

func (st *State) poly(v ssa.Value) *Poly {
	x := st.val(v)
	p, ok := x.(*Poly)
	if !ok {
		undecided("expected integer, got %s for %s", showVal(x), v.Name())
	}
	return p
}

func (st *State) exec(ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		r := st.newRegion(x.Comment, "fresh", constP(sizeof(t)))
		r.zero = true
		r.elem = t
		r.pos = x.Pos()
		st.set(x, Ptr{r: r.id, off: polyZero})
	case *ssa.UnOp:
		st.set(x, st.unop(x))
	case *ssa.BinOp:
		st.set(x, st.binop(x.Op, st.val(x.X), st.val(x.Y), x.X.Type(), x.Y.Type(), x.Type()))
	case *ssa.ChangeType:
		st.set(x, st.val(x.X))
	case *ssa.ChangeInterface:
		st.set(x, st.val(x.X))
	case *ssa.Convert:
		st.set(x, st.convert(st.val(x.X), x.X.Type(), x.Type()))
	case *ssa.MakeInterface:
		v := st.val(x.X)
		if o, ok := v.(Opaque); ok && (o.kind == "any" || o.kind == "rtype") && types.IsInterface(x.X.Type()) {
			st.set(x, o)
			break
		}
		st.set(x, Iface{x.X.Type(), v})
	case *ssa.MakeClosure:
		c := Closure{fn: x.Fn.(*ssa.Function)}
		for i, b := range x.Bindings {
			v := st.val(b)
			if boxable(x, b, c.fn.FreeVars[i]) {
				if _, done := v.(Box); !done {
					p, ok := v.(Ptr)
					if ok && p.r >= 0 {
						v = Box{st.loadAt(p.r, p.off, b.Type().Underlying().(*types.Pointer).Elem())}
					}
				}
			}
			c.free = append(c.free, v)
		}
		st.set(x, c)
	case *ssa.FieldAddr:
		p := st.ptr(x.X)
		st.checkPtr(p, "field address")
		s := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		st.set(x, Ptr{r: p.r, off: p.off.AddC(fieldOffsets(s)[x.Field])})
	case *ssa.Field:
		v := st.val(x.X)
		s := x.X.Type().Underlying().(*types.Struct)
		st.set(x, fieldOf(v, fieldOffsets(s)[x.Field], s.Field(x.Field).Type()))
	case *ssa.IndexAddr:
		st.set(x, st.indexAddr(x))
	case *ssa.Index:
		st.set(x, st.indexVal(x))
	case *ssa.Slice:
		st.set(x, st.sliceOp(x))
	case *ssa.Store:
		st.store(st.ptr(x.Addr), st.val(x.Val), x.Val.Type())
	case *ssa.MakeSlice:
		t := x.Type().Underlying().(*types.Slice)
		es := sizeof(t.Elem())
		l, c := st.poly(x.Len), st.poly(x.Cap)
		if !st.decide(Cond{l, '+'}) || !st.decide(Cond{c.Sub(l), '+'}) {
			halt("panic", "makeslice: length or capacity out of range")
		}
		if l.isZero() && seqRecord(t.Elem()) && st.eng.cut == nil {
			// a list of records that is yet to be filled: the reserved capacity does not matter
			r := st.newRegion("makeslice", "fresh", nil)
			r.zero, r.grow = true, true
			r.elem = t.Elem()
			r.pos = x.Pos()
			st.set(x, Slice{Ptr{r: r.id, off: polyZero}, l, polyZero})
			break
		}
		if !st.decide(Cond{constB(pow2tab[60]).Sub(c.MulC(es)), '+'}) {
			// an allocation of this size panics at run time
			st.event(Event{kind: "alloc", n: c, m: constP(es), str: "makeslice"})
			halt("panic", "makeslice: capacity may exceed the address space")
		}
		st.event(Event{kind: "alloc", n: c, m: constP(es), str: "makeslice"})
		r := st.newRegion("makeslice", "heap", c.MulC(es))
		r.zero = true
		r.elem = t.Elem()
		r.pos = x.Pos()
		st.set(x, Slice{Ptr{r: r.id, off: polyZero}, l, c})
	case *ssa.Extract:
		t, ok := st.val(x.Tuple).(Tuple)
		if !ok {
			undecided("extract from %s", showVal(st.val(x.Tuple)))
		}
		st.set(x, t[x.Index])
	case *ssa.TypeAssert:
		st.set(x, st.typeAssert(x))
	case *ssa.MakeMap:
		if st.eng.started {
			undecided("map created after initialisation")
		}
		st.set(x, Opaque{kind: "map", key: fmt.Sprint(len(st.eng.maps))})
		st.eng.maps = append(st.eng.maps, nil)
	case *ssa.MapUpdate:
		m := st.mapOf(st.val(x.Map))
		if m == nil || st.eng.started {
			undecided("map update")
		}
		*m = append(*m, mapEntry{st.val(x.Key), st.val(x.Value)})
	case *ssa.Lookup:
		st.set(x, st.lookup(x))
	case *ssa.Call:
		st.call(x, &x.Call)
		return // call advances pc itself
	case *ssa.RunDefers:
		if f := st.frame(); len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[: len(f.defers)-1 : len(f.defers)-1]
			st.callValue(x, d.fn, d.args)
			return // runs again until no deferred calls are left
		}
	case *ssa.Defer:
		st.deferCall(x)
	case *ssa.SliceToArrayPointer:
		s, ok := st.val(x.X).(Slice)
		if !ok {
			undecided("slice to array pointer")
		}
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if !st.decide(Cond{s.len.AddC(-n), '+'}) {
			halt("panic", "slice to array conversion: slice too short")
		}
		st.set(x, s.p)
	default:
		undecided("unsupported instruction %T", ins)
	}
	st.frame().pc++
}

func fieldOf(v Value, off int64, t types.Type) Value {
	switch a := v.(type) {
	case Agg:
		for _, c := range a.cells {
			if c.off == off {
				return c.v
			}
		}
	}
	undecided("field of %s", showVal(v))
	return nil
}

func (st *State) ptr(v ssa.Value) Ptr {
	x := st.val(v)
	p, ok := x.(Ptr)
	if !ok {
		undecided("expected pointer, got %s", showVal(x))
	}
	return p
}

func (st *State) indexAddr(x *ssa.IndexAddr) Value {
	i := st.poly(x.Index)
	switch t := x.X.Type().Underlying().(type) {
	case *types.Pointer:
		at := t.Elem().Underlying().(*types.Array)
		p := st.ptr(x.X)
		st.checkPtr(p, "index")
		if !st.decide(Cond{i, '+'}) || !st.decide(Cond{constP(at.Len()).Sub(i).AddC(-1), '+'}) {
			halt("panic", "index %s out of range [0,%d)", i, at.Len())
		}
		return Ptr{r: p.r, off: p.off.Add(i.MulC(sizeof(at.Elem())))}
	case *types.Slice:
		s, ok := st.val(x.X).(Slice)
		if !ok {
			undecided("index of %s", showVal(st.val(x.X)))
		}
		if !st.decide(Cond{i, '+'}) || !st.decide(Cond{s.len.Sub(i).AddC(-1), '+'}) {
			halt("panic", "index %s out of range, length %s", i, s.len)
		}
		return Ptr{r: s.p.r, off: s.p.off.Add(i.MulC(sizeof(t.Elem())))}
	}
	undecided("index of %s", x.X.Type())
	return nil
}

func (st *State) indexVal(x *ssa.Index) Value {
	i := st.poly(x.Index)
	v := st.val(x.X)
	switch a := v.(type) {
	case Bytes:
		if !st.decide(Cond{i, '+'}) || !st.decide(Cond{a.n.Sub(i).AddC(-1), '+'}) {
			halt("panic", "index %s out of range", i)
		}
		return st.byteOf(st.byteAt(a.segs, i))
	case Agg:
		at := a.t.Underlying().(*types.Array)
		if !st.decide(Cond{i, '+'}) || !st.decide(Cond{constP(at.Len()).Sub(i).AddC(-1), '+'}) {
			halt("panic", "index %s out of range", i)
		}
		for k := range a.cells {
			if st.decide(Cond{i.AddC(-int64(k)), '='}) {
				return a.cells[k].v
			}
		}
	case Str:
		if !st.decide(Cond{i, '+'}) || !st.decide(Cond{strLen(a).Sub(i).AddC(-1), '+'}) {
			halt("panic", "string index out of range")
		}
		if a.isC {
			if n, ok := i.Int64(); ok {
				return constP(int64(a.s[n]))
			}
		}
		return mkAtom("strbyte:"+valKey(a), bigZero, big.NewInt(255), i)
	}
	undecided("index of %s", showVal(v))
	return nil
}

func strLen(s Str) *Poly {
	if s.isC {
		return constP(int64(len(s.s)))
	}
	if s.n != nil {
		return s.n
	}
	return mkAtom("len:"+valKey(s), bigZero, sizeHi)
}

func (st *State) sliceOp(x *ssa.Slice) Value {
	opt := func(v ssa.Value) *Poly {
		if v == nil {
			return nil
		}
		return st.poly(v)
	}
	lo, hi, mx := opt(x.Low), opt(x.High), opt(x.Max)
	if lo == nil {
		lo = polyZero
	}
	chk := func(c Cond, what string) {
		if !st.decide(c) {
			halt("panic", "slice bounds out of range (%s)", what)
		}
	}
	switch t := x.X.Type().Underlying().(type) {
	case *types.Pointer:
		at := t.Elem().Underlying().(*types.Array)
		p := st.ptr(x.X)
		st.checkPtr(p, "slice")
		n := constP(at.Len())
		if hi == nil {
			hi = n
		}
		cp := n
		if mx != nil {
			chk(Cond{n.Sub(mx), '+'}, "max")
			cp = mx
		}
		chk(Cond{lo, '+'}, "low")
		chk(Cond{cp.Sub(hi), '+'}, "high")
		chk(Cond{hi.Sub(lo), '+'}, "low > high")
		es := sizeof(at.Elem())
		return Slice{Ptr{r: p.r, off: p.off.Add(lo.MulC(es))}, hi.Sub(lo), cp.Sub(lo)}
	case *types.Slice:
		s, ok := st.val(x.X).(Slice)
		if !ok {
			undecided("slice of %s", showVal(st.val(x.X)))
		}
		// the length of a slice never exceeds its capacity
		whole := hi == nil && mx == nil
		if hi == nil {
			hi = s.len
		}
		cp := s.cap
		if mx != nil {
			chk(Cond{s.cap.Sub(mx), '+'}, "max")
			cp = mx
		}
		chk(Cond{lo, '+'}, "low")
		if !whole {
			chk(Cond{cp.Sub(hi), '+'}, "high")
		}
		chk(Cond{hi.Sub(lo), '+'}, "low > high")
		es := sizeof(t.Elem())
		p := s.p
		p.off = p.off.Add(lo.MulC(es))
		return Slice{p, hi.Sub(lo), cp.Sub(lo)}
	case *types.Basic:
		s, ok := st.val(x.X).(Str)
		if !ok {
			undecided("slice of string %s", showVal(st.val(x.X)))
		}
		n := strLen(s)
		if hi == nil {
			hi = n
		}
		chk(Cond{lo, '+'}, "low")
		chk(Cond{n.Sub(hi), '+'}, "high")
		chk(Cond{hi.Sub(lo), '+'}, "low > high")
		if s.isC {
			if a, ok := lo.Int64(); ok {
				if b, ok := hi.Int64(); ok {
					return Str{isC: true, s: s.s[a:b]}
				}
			}
		}
		return Str{op: "sub", parts: []Value{s, lo, hi}, n: hi.Sub(lo)}
	}
	undecided("slice of %s", x.X.Type())
	return nil
}

func (st *State) typeAssert(x *ssa.TypeAssert) Value {
	v := st.val(x.X)
	fail := func() Value {
		if x.CommaOk {
			return Tuple{zeroValue(x.AssertedType), boolC(false)}
		}
		halt("panic", "type assertion to %s may fail", x.AssertedType)
		return nil
	}
	okv := func(r Value) Value {
		if x.CommaOk {
			return Tuple{r, boolC(true)}
		}
		return r
	}
	switch i := v.(type) {
	case Iface:
		if i.t == nil {
			return fail()
		}
		if types.IsInterface(x.AssertedType) {
			it := x.AssertedType.Underlying().(*types.Interface)
			if types.Implements(i.t, it) {
				return okv(v)
			}
			return fail()
		}
		if types.Identical(i.t, x.AssertedType) {
			return okv(i.v)
		}
		return fail()
	case Opaque:
		if i.kind == "ssz" && i.t == nil {
			// an element codec is a non-nil value of the SSZ interface (C21 checks that the factory returns one)
			i.t = st.eng.sszType()
		}
		if types.IsInterface(x.AssertedType) && i.t != nil && types.IsInterface(i.t) {
			if types.Implements(i.t, x.AssertedType.Underlying().(*types.Interface)) {
				return okv(v)
			}
		}
		at := st.assertCond(i, x.AssertedType)
		if st.decide(Cond{at.AddC(-1), '='}) {
			if types.IsInterface(x.AssertedType) {
				return okv(v)
			}
			undecided("assertion of opaque %s to concrete %s", i, x.AssertedType)
		}
		return fail()
	}
	undecided("type assertion on %s", showVal(v))
	return nil
}

func (st *State) unop(x *ssa.UnOp) Value {
	switch x.Op {
	case token.MUL:
		if b, ok := st.val(x.X).(Box); ok {
			return b.v
		}
		return st.load(st.ptr(x.X), x.Type())
	case token.NOT:
		b, ok := st.val(x.X).(Bool)
		if !ok {
			undecided("not of %s", showVal(st.val(x.X)))
		}
		return Bool{b.c.Not()}
	case token.SUB:
		bits, signed, ok := basicInfo(x.Type())
		if !ok {
			undecided("negation of %s", x.Type())
		}
		return st.wrap(st.poly(x.X).Neg(), bits, signed, "neg")
	case token.XOR:
		bits, signed, ok := basicInfo(x.Type())
		if !ok {
			undecided("complement of %s", x.Type())
		}
		p := st.poly(x.X)
		if signed {
			return p.Neg().AddC(-1)
		}
		return constB(new(big.Int).Sub(pow2tab[bits], bigOne)).Sub(p)
	}
	undecided("unary %s", x.Op)
	return nil
}

// ---------------------------------------------------------------------
// calls

func (st *State) call(x ssa.Instruction, c *ssa.CallCommon) {
	st.eng.callSites++
	var args []Value
	if c.IsInvoke() {
		recv := st.val(c.Value)
		for _, a := range c.Args {
			args = append(args, st.val(a))
		}
		st.invoke(x, recv, c.Method, args)
		return
	}
	for _, a := range c.Args {
		args = append(args, st.val(a))
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		st.ret(x, st.builtin(f.Name(), c, args))
		return
	}
	fv := st.val(c.Value)
	st.callValue(x, fv, args)
}

// deferCall registers a deferred call. Deferred calls are run on return; a call that recovers from a panic is not followed.
func (st *State) deferCall(x *ssa.Defer) {
	c := &x.Call
	if _, ok := c.Value.(*ssa.Builtin); ok || c.IsInvoke() {
		undecided("defer of %s", c)
	}
	fv, ok := st.val(c.Value).(Closure)
	if ok && fv.fn != nil && fv.fn.String() == "runtime.KeepAlive" {
		return
	}
	if !ok || fv.fn == nil || !st.eng.inModule(fv.fn) {
		undecided("defer of %s", showVal(st.val(c.Value)))
	}
	for _, l := range st.eng.loops(x.Parent()).headers {
		if l.body[x.Block()] {
			undecided("defer in a loop")
		}
	}
	for _, b := range fv.fn.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok {
				if bi, ok := call.Common().Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					undecided("recover in a deferred call")
				}
			}
		}
	}
	var args []Value
	for _, a := range c.Args {
		args = append(args, st.val(a))
	}
	f := st.frame()
	f.defers = append(f.defers[:len(f.defers):len(f.defers)], deferred{fv, args})
}

func (st *State) ret(x ssa.Instruction, res []Value) {
	st.finishCall(x, res)
}

func (st *State) callValue(x ssa.Instruction, fv Value, args []Value) {
	switch f := fv.(type) {
	case Closure:
		if f.fn == nil {
			halt("panic", "call of nil function")
		}
		st.callFn(x, f.fn, args, f.free)
		return
	case Opaque:
		st.ret(x, st.opaqueCall(f, args))
		return
	}
	undecided("call of %s", showVal(fv))
}

func (st *State) callFn(x ssa.Instruction, fn *ssa.Function, args, free []Value) {
	e := st.eng
	if c, ok := e.contracts[fn]; ok {
		res := c(st, args)
		if res != nil {
			st.ret(x, trimNil(res))
			return
		}
	}
	inModule := e.inModule(fn)
	if !inModule {
		if fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Synthetic != "" {
			st.ret(x, nil) // package initialisers outside the module
			return
		}
		if m, ok := externs[externName(fn)]; ok {
			n := len(st.frames)
			res := m(st, x, args)
			if len(st.frames) == n {
				st.ret(x, trimNil(res))
			}
			return
		}
		if fn.Synthetic != "" && fn.Blocks != nil {
			st.pushFrame(fn, args, free, x, nil)
			return
		}
		if r := st.pureText(fn, args); r != nil {
			st.ret(x, r)
			return
		}
		undecided("call to unmodelled function %s", fn)
	}
	if fn.Blocks == nil {
		undecided("no body for %s", fn)
	}
	st.pushFrame(fn, args, free, x, nil)
}

// noResult marks a native call without results.
var noResult = []Value{Builtin{"noresult"}}

func trimNil(res []Value) []Value {
	if len(res) == 1 {
		if b, ok := res[0].(Builtin); ok && b.name == "noresult" {
			return nil
		}
	}
	return res
}

func externName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

func (e *Engine) inModule(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	p := f.Pkg
	if p == nil {
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), e.modPath)
		}
		return fn.Blocks != nil && fn.Synthetic != ""
	}
	return strings.HasPrefix(p.Pkg.Path(), e.modPath)
}

func (st *State) invoke(x ssa.Instruction, recv Value, m *types.Func, args []Value) {
	switch r := recv.(type) {
	case Iface:
		if r.t == nil {
			halt("panic", "method %s called on nil interface", m.Name())
		}
		fn := st.eng.prog.LookupMethod(r.t, m.Pkg(), m.Name())
		if fn == nil {
			undecided("method %s of %s not found", m.Name(), r.t)
		}
		if nm, ok := r.v.(Opaque); ok && st.eng.invokes[nm.kind+"."+m.Name()] != nil {
			st.invokeOpaque(x, nm, m.Name(), args)
			return
		}
		st.callFn(x, fn, append([]Value{r.v}, args...), nil)
	case Opaque:
		st.invokeOpaque(x, r, m.Name(), args)
	default:
		undecided("invoke %s on %s", m.Name(), showVal(recv))
	}
}

func (st *State) invokeOpaque(x ssa.Instruction, r Opaque, name string, args []Value) {
	h := opaqueInvokes[r.kind+"."+name]
	if h == nil {
		undecided("call of method %s on unknown %s value %s", name, r.kind, r)
	}
	n := len(st.frames)
	res := h(st, x, r, args)
	if len(st.frames) == n {
		st.ret(x, trimNil(res))
	}
}

// boxable: the variable captured by mc is assigned once, right where it is created and before the
// closure is made, and is only read otherwise; the closure can then hold its value.
func boxable(mc *ssa.MakeClosure, b ssa.Value, fv *ssa.FreeVar) bool {
	if !readOnlyVar(fv, 0) {
		return false
	}
	switch a := b.(type) {
	case *ssa.FreeVar:
		return readOnlyVar(a, 0)
	case *ssa.Alloc:
		stores := 0
		for _, r := range *a.Referrers() {
			switch u := r.(type) {
			case *ssa.Store:
				if u.Addr != b || u.Block() != a.Block() || !(u.Block() != mc.Block() && u.Block().Dominates(mc.Block()) || u.Block() == mc.Block() && before(u, mc)) {
					return false
				}
				stores++
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				for i, x := range u.Bindings {
					if x == b && !readOnlyVar(u.Fn.(*ssa.Function).FreeVars[i], 0) {
						return false
					}
				}
			default:
				return false
			}
		}
		return stores == 1
	}
	return false
}

func before(a, b ssa.Instruction) bool {
	for _, i := range a.Block().Instrs {
		if i == a {
			return true
		}
		if i == b {
			return false
		}
	}
	return false
}

func readOnlyVar(fv *ssa.FreeVar, depth int) bool {
	if depth > 4 {
		return false
	}
	if _, ok := fv.Type().Underlying().(*types.Pointer); !ok {
		return false
	}
	for _, r := range *fv.Referrers() {
		switch u := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			for i, x := range u.Bindings {
				if x == fv && !readOnlyVar(u.Fn.(*ssa.Function).FreeVars[i], depth+1) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}
