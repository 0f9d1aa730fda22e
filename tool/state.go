package main

// Abstract machine state: call stack, byte-addressed regions, constraints, events.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Region struct {
	id      int
	gen     int64
	name    string
	class   string // "fresh", "user", "desc", "global", "ghost", "scratch"
	size    *Poly  // bytes, nil = unknown
	zero    bool
	initFn  func(st *State, r *Region, off *Poly, size int64, t types.Type) Value
	rawName string // identity of unknown initial content
	writes  []*Write
	cache   map[string]Value
	pos     token.Pos
	elem    types.Type
	grow    bool
	seq     *Seq
	meta    map[string]Value
}

// Seq marks a region whose contents are an abstract sequence of records: element j is described by
// what every construction site of the sequence guarantees.
type Seq struct {
	key    string
	args   []*Poly
	es     int64
	flagOK bool  // boolean components equal IsFixed() of the codec component
	ptrOK  bool  // function components add a constant to their argument
	offAt  int64 // position of the memory offset in a record without function components, -1: none
}

type Write struct {
	off, size *Poly
	val       Value
	t         types.Type
	segs      []Seg
	q         *Quant
	pos       token.Pos
}

// Quant marks a write performed for every kap in [0,upper) satisfying guard;
// off, size, val and segs are expressions in kap.
type Quant struct {
	upper *Poly
	guard []Guard
	arr   string
	must  bool // every iteration satisfying guard performs it
}

type Frame struct {
	fn     *ssa.Function
	gen    int64
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	pc     int
	env    []Value
	callee ssa.Instruction // call instruction in the caller awaiting our results
	hook   func(st *State, res []Value) []Value
	defers []deferred
	unroll map[*ssa.BasicBlock]int
}

type deferred struct {
	fn   Value
	args []Value
}

type Event struct {
	kind  string
	pos   token.Pos
	fn    *ssa.Function
	facts *Facts
	str   string
	ptr   Ptr
	n     *Poly
	m     *Poly
	segs  []Seg
	val   Value
	val2  Value
	loop  *LoopEv
	objs  []Value
	elems []Value
	snap  map[string]*Poly
	rsize *Poly // size and class of the region ptr points to
	rname string
	rcls  string
}

type State struct {
	gen     int64
	frames  []*Frame
	regs    []*Region
	facts   *Facts
	fshared bool
	events  []Event
	seq     int
	watch   []*loopWatch
	eng     *Engine
	trace   []string
	choices int
	ghosts  map[string]int // name -> region id (copied on write)
	caseTag string
}

var genCtr int64

func newGen() int64 { genCtr++; return genCtr }

func (st *State) Clone() *State {
	n := *st
	n.gen = newGen()
	st.gen = newGen()
	n.frames = append([]*Frame(nil), st.frames...)
	n.regs = append([]*Region(nil), st.regs...)
	n.events = st.events[:len(st.events):len(st.events)]
	st.events = n.events
	n.watch = st.watch[:len(st.watch):len(st.watch)]
	n.trace = st.trace[:len(st.trace):len(st.trace)]
	n.fshared = true
	st.fshared = true
	return &n
}

func (st *State) frame() *Frame { // writable top frame
	i := len(st.frames) - 1
	f := st.frames[i]
	if f.gen != st.gen {
		nf := *f
		nf.gen = st.gen
		nf.env = append([]Value(nil), f.env...)
		nf.defers = f.defers[:len(f.defers):len(f.defers)]
		if f.unroll != nil {
			nf.unroll = map[*ssa.BasicBlock]int{}
			for k, v := range f.unroll {
				nf.unroll[k] = v
			}
		}
		st.frames[i] = &nf
		return &nf
	}
	return f
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) reg(id int) *Region { return st.regs[id] }

func (st *State) wreg(id int) *Region {
	r := st.regs[id]
	if r.gen != st.gen {
		n := *r
		n.gen = st.gen
		n.writes = append([]*Write(nil), r.writes...)
		if r.cache != nil {
			n.cache = map[string]Value{}
			for k, v := range r.cache {
				n.cache[k] = v
			}
		}
		st.regs[id] = &n
		return &n
	}
	return r
}

func (st *State) newRegion(name, class string, size *Poly) *Region {
	r := &Region{id: len(st.regs), gen: st.gen, name: name, class: class, size: size}
	st.regs = append(st.regs, r)
	return r
}

func (st *State) fresh(prefix string) string {
	st.seq++
	return fmt.Sprintf("%s#%d", prefix, st.seq)
}

func (st *State) wfacts() *Facts {
	if st.fshared {
		st.facts = st.facts.Clone()
		st.fshared = false
	}
	return st.facts
}

func (st *State) snapFacts() *Facts {
	st.fshared = true
	return st.facts
}

func (st *State) assume(c Cond) {
	f := st.wfacts()
	switch c.op {
	case '=':
		f.add(Con{c.p, true})
	case '+':
		f.add(Con{c.p, false})
	case '!':
		// not the bound of a range: inside it
		if n := len(c.p.terms); n > 1 && n < 4 {
			if f.entails(Con{c.p, false}) {
				f.add(Con{c.p.AddC(-1), false})
				return
			}
			if f.entails(Con{c.p.Neg(), false}) {
				f.add(Con{c.p.Neg().AddC(-1), false})
				return
			}
		}
		f.addNe(c.p)
	}
}

func (st *State) entailsCond(c Cond) bool { return st.facts.entailsCond(c) }

func (f *Facts) entailsCond(c Cond) bool {
	switch c.op {
	case '=':
		return f.entails(Con{c.p, true})
	case '+':
		return f.entails(Con{c.p, false})
	}
	return f.entailsNe(c.p)
}

func (f *Facts) feasibleCond(c Cond) bool { return !f.entailsCond(c.Not()) }

type splitReq struct{ c Cond }
type haltReq struct{ kind, reason string }

// decide evaluates c in st; forks the analysis if it is not determined.
func (st *State) decide(c Cond) bool {
	if v, ok := c.p.Const(); ok {
		switch c.op {
		case '=':
			return v.Sign() == 0
		case '!':
			return v.Sign() != 0
		default:
			return v.Sign() >= 0
		}
	}
	if st.entailsCond(c) {
		return true
	}
	if st.entailsCond(c.Not()) {
		return false
	}
	panic(splitReq{c})
}

func (st *State) decideGe(a, b *Poly) bool { return st.decide(Cond{a.Sub(b), '+'}) }
func (st *State) proveGe(a, b *Poly) bool {
	return st.entailsCond(Cond{a.Sub(b), '+'})
}
func (st *State) proveEq(a, b *Poly) bool {
	return a.Eq(b) || st.entailsCond(Cond{a.Sub(b), '='})
}

func halt(kind, format string, a ...interface{}) {
	panic(haltReq{kind, fmt.Sprintf(format, a...)})
}

func undecided(format string, a ...interface{}) { halt("undecided", format, a...) }

func (st *State) event(e Event) {
	if e.facts == nil {
		e.facts = st.snapFacts()
	}
	if e.ptr.off != nil && e.ptr.r >= 0 {
		r := st.reg(e.ptr.r)
		e.rsize, e.rname, e.rcls = r.size, r.name, r.class
	}
	if len(st.frames) > 0 {
		f := st.top()
		e.fn = f.fn
		if e.pos == token.NoPos && f.block != nil && f.pc < len(f.block.Instrs) {
			e.pos = instrPos(f.block.Instrs[f.pc])
		}
		if e.pos == token.NoPos {
			e.pos = f.fn.Pos()
		}
	}
	st.events = append(st.events[:len(st.events):len(st.events)], e)
}

func instrPos(i ssa.Instruction) token.Pos {
	if p := i.Pos(); p != token.NoPos {
		return p
	}
	if v, ok := i.(ssa.Value); ok {
		if rs := v.Referrers(); rs != nil {
			for _, r := range *rs {
				if p := r.Pos(); p != token.NoPos {
					return p
				}
			}
		}
	}
	return token.NoPos
}

// ---------------------------------------------------------------------
// sizes

var stdSizes = types.SizesFor("gc", "amd64")

func sizeof(t types.Type) int64 { return stdSizes.Sizeof(t) }

func isByteArray(t types.Type) (int64, bool) {
	a, ok := t.Underlying().(*types.Array)
	if !ok {
		return 0, false
	}
	b, ok := a.Elem().Underlying().(*types.Basic)
	if !ok || (b.Kind() != types.Uint8) {
		return 0, false
	}
	return a.Len(), true
}

func fieldOffsets(s *types.Struct) []int64 {
	var fs []*types.Var
	for i := 0; i < s.NumFields(); i++ {
		fs = append(fs, s.Field(i))
	}
	return stdSizes.Offsetsof(fs)
}

func basicInfo(t types.Type) (bits int, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	case types.UntypedInt:
		return 64, true, true
	}
	return 0, false, false
}

func typeRange(bits int, signed bool) (lo, hi *big.Int) {
	if signed {
		return new(big.Int).Neg(pow2tab[bits-1]), new(big.Int).Sub(pow2tab[bits-1], bigOne)
	}
	return bigZero, new(big.Int).Sub(pow2tab[bits], bigOne)
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Bool || b.Kind() == types.UntypedBool)
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isPtrLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

func isUintptrT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uintptr
}

func zeroValue(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return nilPtr
		case u.Info()&types.IsBoolean != 0:
			return boolC(false)
		case u.Info()&types.IsString != 0:
			return Str{isC: true}
		case u.Kind() == types.UntypedNil:
			return nilPtr
		}
		return polyZero
	case *types.Pointer:
		return nilPtr
	case *types.Slice:
		return Slice{nilPtr, polyZero, polyZero}
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return Closure{}
	case *types.Map, *types.Chan:
		return nilPtr
	case *types.Array:
		if n, ok := isByteArray(t); ok {
			if n == 0 {
				return Bytes{polyZero, nil}
			}
			return Bytes{constP(n), []Seg{{constP(n), CZero{}}}}
		}
		a := Agg{t: t}
		es := sizeof(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			a.cells = append(a.cells, AggCell{i * es, es, u.Elem(), zeroValue(u.Elem())})
		}
		return a
	case *types.Struct:
		a := Agg{t: t}
		offs := fieldOffsets(u)
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			a.cells = append(a.cells, AggCell{offs[i], sizeof(ft), ft, zeroValue(ft)})
		}
		return a
	}
	undecided("zero value of %s", t)
	return nil
}

var nilPtr = Ptr{r: -1, off: polyZero}

// ---------------------------------------------------------------------
// memory

func (st *State) checkPtr(p Ptr, what string) {
	if p.r < 0 {
		halt("panic", "nil pointer dereference (%s)", what)
	}
	if p.nilAt != nil {
		if st.decide(Cond{p.nilAt.AddC(-1), '='}) {
			halt("panic", "nil pointer dereference (%s)", what)
		}
	}
}

func (st *State) access(p Ptr, size *Poly, write bool) {
	r := st.reg(p.r)
	if r.class == "fresh" || r.class == "scratch" || r.class == "ghost" {
		return
	}
	k := "load"
	if write {
		k = "store"
	}
	st.event(Event{kind: k, ptr: p, n: size, str: r.class})
}

func (st *State) load(p Ptr, t types.Type) Value {
	st.checkPtr(p, "load")
	n := len(st.events)
	st.access(p, constP(sizeof(t)), false)
	v := st.loadAt(p.r, p.off, t)
	if q, ok := v.(*Poly); ok && len(st.events) == n+1 {
		st.events[n].val = q
	}
	return v
}

func (st *State) loadAt(r int, off *Poly, t types.Type) Value {
	if n, ok := isByteArray(t); ok {
		if n == 0 {
			return Bytes{polyZero, nil}
		}
		return Bytes{constP(n), st.readBytes(r, off, constP(n))}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if ws := st.reg(r).writes; len(ws) > 0 {
			w := ws[len(ws)-1]
			if o, ok := w.val.(Opaque); ok && w.q == nil && w.off.Eq(off) && w.size.Eq(constP(sizeof(t))) {
				return o
			}
		}
		a := Agg{t: t}
		offs := fieldOffsets(u)
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			a.cells = append(a.cells, AggCell{offs[i], sizeof(ft), ft, st.loadAt(r, off.AddC(offs[i]), ft)})
		}
		return a
	case *types.Array:
		a := Agg{t: t}
		es := sizeof(u.Elem())
		if u.Len() > 64 {
			undecided("load of large array %s", t)
		}
		for i := int64(0); i < u.Len(); i++ {
			a.cells = append(a.cells, AggCell{i * es, es, u.Elem(), st.loadAt(r, off.AddC(i*es), u.Elem())})
		}
		return a
	case *types.Slice:
		p := st.loadScalar(r, off, 8, types.Typ[types.UnsafePointer])
		l := st.loadScalar(r, off.AddC(8), 8, types.Typ[types.Int])
		c := st.loadScalar(r, off.AddC(16), 8, types.Typ[types.Int])
		pp, ok1 := p.(Ptr)
		lp, ok2 := l.(*Poly)
		cp, ok3 := c.(*Poly)
		if !ok1 || !ok2 || !ok3 {
			undecided("slice header with unexpected components %s", showVal(p))
		}
		pp.isUint = false
		if pp.r >= 0 && st.reg(pp.r).seq != nil && !isConstP(lp) {
			// assumption: a container has at most 2^31 fields
			st.assume(Cond{constB(pow2tab[31]).Sub(lp), '+'})
			if r := st.reg(pp.r); r.size == nil && pp.off.isZero() {
				st.wreg(pp.r).size = lp.MulC(r.seq.es)
			}
		}
		return Slice{pp, lp, cp}
	}
	return st.loadScalar(r, off, sizeof(t), t)
}

// relation between [a,a+n) and [b,b+m): 0 equal, 1 disjoint, 2 a inside b, 3 unknown
func (st *State) rel(a, n, b, m *Poly) int {
	d := a.Sub(b)
	if c, ok := d.Const(); ok {
		if c.Sign() == 0 && n.Eq(m) {
			return 0
		}
		if nc, ok := n.Const(); ok {
			if mc, ok := m.Const(); ok {
				if c.Cmp(mc) >= 0 || new(big.Int).Add(c, nc).Sign() <= 0 {
					return 1
				}
				if c.Sign() >= 0 && new(big.Int).Add(c, nc).Cmp(mc) <= 0 {
					return 2
				}
				return 3
			}
		}
	}
	if n.Eq(m) && st.proveEq(a, b) {
		return 0
	}
	if st.proveGe(a, b.Add(m)) || st.proveGe(b, a.Add(n)) {
		return 1
	}
	if st.proveGe(a, b) && st.proveGe(b.Add(m), a.Add(n)) {
		return 2
	}
	return 3
}

func (st *State) loadScalar(r int, off *Poly, size int64, t types.Type) Value {
	reg := st.reg(r)
	sz := constP(size)
	for i := len(reg.writes) - 1; i >= 0; i-- {
		w := reg.writes[i]
		if w.q != nil {
			v, hit := st.loadQuant(reg, w, off, sz, t)
			if hit {
				return st.coerce(v, t)
			}
			continue
		}
		switch st.rel(off, sz, w.off, w.size) {
		case 0:
			if w.val != nil {
				return st.coerce(w.val, t)
			}
			return st.fromBytes(st.readBytes(r, off, sz), size, t)
		case 1:
			continue
		default:
			if w.val != nil {
				if isPtrLike(t) && off.Eq(w.off.AddC(8)) && w.size.Eq(constP(16)) {
					// data word of an interface value
					if o, ok := w.val.(Opaque); ok {
						if p, ok := o.val.(Ptr); ok {
							return p
						}
					}
					if i, ok := w.val.(Iface); ok {
						if p, ok := i.v.(Ptr); ok {
							return p
						}
					}
				}
				if ag, ok := w.val.(Agg); ok {
					for _, c := range ag.cells {
						if off.Eq(w.off.AddC(c.off)) && c.size == size {
							return st.coerce(c.v, t)
						}
					}
				}
			}
			return st.fromBytes(st.readBytes(r, off, sz), size, t)
		}
	}
	return st.initLoad(r, off, size, t)
}

func (st *State) initLoad(r int, off *Poly, size int64, t types.Type) Value {
	reg := st.reg(r)
	if reg.seq != nil {
		return st.seqLoad(reg.seq, off, t)
	}
	k := fmt.Sprintf("%s/%d/%s", off.Key(), size, loadClass(t))
	if v, ok := reg.cache[k]; ok {
		return v
	}
	var v Value
	if reg.initFn != nil {
		v = reg.initFn(st, reg, off, size, t)
	}
	if v == nil {
		if reg.zero {
			v = zeroValue(t)
		} else {
			v = st.unknownMem(reg, off, size, t)
		}
	}
	w := st.wreg(r)
	if w.cache == nil {
		w.cache = map[string]Value{}
	}
	w.cache[k] = v
	return v
}

func loadClass(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.UnsafePointer || u.Kind() == types.Uintptr {
			return "ptr"
		}
		if u.Info()&types.IsBoolean != 0 {
			return "bool"
		}
		if u.Info()&types.IsInteger != 0 {
			return "int"
		}
		return u.Name()
	case *types.Pointer:
		return "ptr"
	case *types.Interface:
		return "iface"
	case *types.Signature:
		return "func"
	}
	return t.String()
}

// memAtom names the initial n-byte native integer at off of a region.
func memAtom(reg *Region, off *Poly, size int64) *Poly {
	hi := new(big.Int).Sub(pow2tab[8*size], bigOne)
	return mkAtom(fmt.Sprintf("mem%d:%s", size, reg.rawName), bigZero, hi, off)
}

func (st *State) unknownMem(reg *Region, off *Poly, size int64, t types.Type) Value {
	if reg.rawName == "" {
		w := st.wreg(reg.id)
		w.rawName = w.name
		reg = w
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool{Cond{memAtom(reg, off, 1), '!'}}
		case u.Kind() == types.UnsafePointer || u.Kind() == types.Uintptr:
			return st.unknownPtr(reg, off)
		case u.Info()&types.IsInteger != 0:
			bits, signed, _ := basicInfo(t)
			if signed {
				return mkAtom(fmt.Sprintf("smem%d:%s", size, reg.rawName), new(big.Int).Neg(pow2tab[bits-1]), new(big.Int).Sub(pow2tab[bits-1], bigOne), off)
			}
			return memAtom(reg, off, size)
		case u.Info()&types.IsString != 0:
			return Str{op: "mem:" + reg.rawName, parts: []Value{off}, n: mkAtom("strlen:"+reg.rawName, bigZero, sizeHi, off)}
		}
	case *types.Pointer:
		return st.unknownPtr(reg, off)
	case *types.Interface:
		return Opaque{kind: "any", key: reg.rawName, args: []*Poly{off}, t: t}
	case *types.Signature:
		return Opaque{kind: "func", key: reg.rawName, args: []*Poly{off}, t: t}
	}
	undecided("read of unknown memory as %s", t)
	return nil
}

func (st *State) unknownPtr(reg *Region, off *Poly) Value {
	nr := st.newRegion(reg.name+"->", reg.class, nil)
	nr.rawName = fmt.Sprintf("%s[%s]->", reg.rawName, off.Key())
	nilAt := mkAtom("isnil:"+reg.rawName, bigZero, bigOne, off)
	return Ptr{r: nr.id, off: polyZero, nilAt: nilAt}
}

// coerce adapts a stored value to the type it is read at.
func (st *State) coerce(v Value, t types.Type) Value {
	switch x := v.(type) {
	case Ptr:
		x.isUint = isUintptrT(t)
		if isPtrLike(t) || isUintptrT(t) {
			return x
		}
		if _, ok := t.Underlying().(*types.Map); ok {
			return x
		}
		if _, ok := t.Underlying().(*types.Chan); ok {
			return x
		}
		undecided("pointer memory read as %s", t)
	case *Poly:
		if isPtrLike(t) {
			if x.isZero() {
				return nilPtr
			}
			undecided("integer %s used as pointer", x)
		}
		if isBoolT(t) {
			return Bool{Cond{x, '!'}}
		}
		if bits, signed, ok := basicInfo(t); ok && signed {
			// same bits reinterpreted
			lo, hi := typeRange(bits, signed)
			if pl, ph := x.interval(); pl != nil && ph != nil && pl.Cmp(lo) >= 0 && ph.Cmp(hi) <= 0 {
				return x
			}
		}
		return x
	case Bool:
		if _, _, ok := basicInfo(t); ok {
			if st.decide(x.c) {
				return polyOne
			}
			return polyZero
		}
	}
	return v
}

// fromBytes interprets byte content as a scalar of type t.
func (st *State) fromBytes(segs []Seg, size int64, t types.Type) Value {
	segs = mergeSegs(segs)
	bits, _, isInt := basicInfo(t)
	if isBoolT(t) {
		bits, isInt = 8, true
	}
	if !isInt || int64(bits) != size*8 {
		if isPtrLike(t) && len(segs) == 1 {
			if _, ok := segs[0].c.(CZero); ok {
				return nilPtr
			}
		}
		undecided("bytes %s read as %s", segsKey(segs), t)
	}
	p := st.intFromSegs(segs, int(size), 'N')
	if isBoolT(t) {
		return Bool{Cond{p, '!'}}
	}
	return p
}

// intFromSegs decodes an n-byte integer in the given order from byte content.
func (st *State) intFromSegs(segs []Seg, n int, order byte) *Poly {
	segs = mergeSegs(segs)
	if n == 1 {
		if len(segs) != 1 {
			undecided("one-byte read of %s", segsKey(segs))
		}
		return st.byteOf(segs[0].c)
	}
	if order == 'N' {
		if st.isLittle() {
			order = 'L'
		} else {
			order = 'B'
		}
	}
	if len(segs) == 1 {
		switch c := segs[0].c.(type) {
		case CZero:
			return polyZero
		case CInt:
			o := c.order
			if o == 'N' {
				if st.isLittle() {
					o = 'L'
				} else {
					o = 'B'
				}
			}
			if c.n == n && c.from == 0 && o == order {
				return c.v
			}
		case CIn:
			return inAtom(c, n, order)
		case CRaw:
			native := byte('B')
			if st.isLittle() {
				native = 'L'
			}
			if native == order {
				return memAtom(st.reg(c.r), c.off, int64(n))
			}
			hi := new(big.Int).Sub(pow2tab[8*n], bigOne)
			return mkAtom(fmt.Sprintf("swapmem%d:%s", n, st.reg(c.r).rawName), bigZero, hi, c.off)
		}
	}
	// assemble from bytes
	v := polyZero
	for i := 0; i < n; i++ {
		b := st.byteOf(st.byteAt(segs, constP(int64(i))))
		sh := 8 * i
		if order == 'B' {
			sh = 8 * (n - 1 - i)
		}
		v = v.Add(b.MulB(pow2tab[sh]))
	}
	return v
}

func inAtom(c CIn, n int, order byte) *Poly {
	hi := new(big.Int).Sub(pow2tab[8*n], bigOne)
	op := fmt.Sprintf("in%c%d:%s", order, n, c.s)
	if n == 1 {
		op = "in1:" + c.s
	}
	return mkAtom(op, bigZero, hi, c.pos)
}

func (st *State) byteOf(c Content) *Poly {
	switch c := c.(type) {
	case CZero:
		return polyZero
	case CRaw:
		if st.reg(c.r).initFn != nil {
			if p, ok := st.initLoad(c.r, c.off, 1, types.Typ[types.Uint8]).(*Poly); ok {
				return p
			}
		}
		return memAtom(st.reg(c.r), c.off, 1)
	case CIn:
		return inAtom(c, 1, 'L')
	case CInt:
		if c.n == 1 {
			return c.v
		}
		o := c.order
		if o == 'N' {
			if st.isLittle() {
				o = 'L'
			} else {
				o = 'B'
			}
		}
		sh := 8 * c.from
		if o == 'B' {
			sh = 8 * (c.n - 1 - c.from)
		}
		return mkMod(mkDiv(c.v, constB(pow2tab[sh])), constP(256))
	case CBlob:
		return mkAtom("hbyte:"+c.h.Key(), bigZero, big.NewInt(255), c.from)
	case CUnk:
		return mkAtom("unkbyte:"+c.id, bigZero, big.NewInt(255))
	}
	undecided("byte of %s", c.CKey())
	return nil
}

func (st *State) isLittle() bool {
	return st.decide(Cond{hostLE.AddC(-1), '='})
}

var hostLE = mkAtom("hostLE", bigZero, bigOne)

// contentAt shifts a content by d bytes.
func contentAt(c Content, d *Poly) Content {
	switch c := c.(type) {
	case CZero:
		return c
	case CRaw:
		return CRaw{c.r, c.off.Add(d)}
	case CIn:
		return CIn{c.s, c.pos.Add(d)}
	case CBlob:
		return CBlob{c.h, c.from.Add(d)}
	case CInt:
		if n, ok := d.Int64(); ok {
			return CInt{c.v, c.n, c.order, c.from + int(n)}
		}
	case CUnk:
		return CUnk{c.id + "+" + d.Key()}
	case CChild:
		return CChild{c.what, c.key + "+" + d.Key()}
	}
	if d.isZero() {
		return c
	}
	undecided("symbolic position %s inside %s", d, c.CKey())
	return nil
}

func (st *State) byteAt(segs []Seg, i *Poly) Content {
	pos := polyZero
	for k, s := range segs {
		end := pos.Add(s.n)
		if k == len(segs)-1 || !st.decideGe(i, end) {
			return contentAt(s.c, i.Sub(pos))
		}
		pos = end
	}
	undecided("byte index outside content")
	return nil
}

// subSegs extracts [from,from+n).
func (st *State) subSegs(segs []Seg, from, n *Poly) []Seg {
	if n.isZero() {
		return nil
	}
	if len(segs) == 1 {
		return []Seg{{n, contentAt(segs[0].c, from)}}
	}
	var out []Seg
	pos := polyZero
	end := from.Add(n)
	for _, s := range segs {
		se := pos.Add(s.n)
		if st.decideGe(from, se) { // segment before range
			pos = se
			continue
		}
		if st.decideGe(pos, end) {
			break
		}
		a := pos
		if st.decideGe(from, pos) {
			a = from
		}
		b := se
		if st.decideGe(se, end) {
			b = end
		}
		out = append(out, Seg{b.Sub(a), contentAt(s.c, a.Sub(pos))})
		pos = se
	}
	return out
}

func mergeSegs(in []Seg) []Seg {
	var out []Seg
	for _, s := range in {
		if s.n.isZero() {
			continue
		}
		if len(out) > 0 {
			l := &out[len(out)-1]
			switch a := l.c.(type) {
			case CZero:
				if _, ok := s.c.(CZero); ok {
					l.n = l.n.Add(s.n)
					continue
				}
			case CRaw:
				if b, ok := s.c.(CRaw); ok && a.r == b.r && a.off.Add(l.n).Eq(b.off) {
					l.n = l.n.Add(s.n)
					continue
				}
			case CIn:
				if b, ok := s.c.(CIn); ok && a.s == b.s && a.pos.Add(l.n).Eq(b.pos) {
					l.n = l.n.Add(s.n)
					continue
				}
			case CBlob:
				if b, ok := s.c.(CBlob); ok && a.h.Key() == b.h.Key() && a.from.Add(l.n).Eq(b.from) {
					l.n = l.n.Add(s.n)
					continue
				}
			case CInt:
				if b, ok := s.c.(CInt); ok && a.n == b.n && a.order == b.order && a.v.Eq(b.v) {
					if n, ok := l.n.Int64(); ok && a.from+int(n) == b.from {
						l.n = l.n.Add(s.n)
						continue
					}
				}
				if b, ok := s.c.(CInt); ok && b.n == 1 && a.from == 0 && (a.n == 1 || a.order == 'L') && a.n < 8 && l.n.Eq(constP(int64(a.n))) && s.n.Eq(polyOne) {
					// the next digit of a number that is written byte by byte
					if v := a.v.Add(b.v.MulB(pow2tab[8*a.n])); len(v.terms) <= len(a.v.terms) && !b.v.isZero() {
						*l = Seg{l.n.AddC(1), CInt{v, a.n + 1, 'L', 0}}
						continue
					}
				}
			}
		}
		out = append(out, s)
	}
	return out
}

// readBytes returns the content of [off,off+n).
func (st *State) readBytes(r int, off, n *Poly) []Seg {
	return mergeSegs(st.readFrom(r, len(st.reg(r).writes)-1, off, n, 0))
}

func (st *State) readFrom(r, i int, off, n *Poly, depth int) []Seg {
	if n.isZero() {
		return nil
	}
	if depth > 400 {
		undecided("memory content too fragmented")
	}
	reg := st.reg(r)
	if i < 0 {
		if reg.zero {
			return []Seg{{n, CZero{}}}
		}
		if reg.initFn != nil {
			if c, ok := n.Int64(); ok && (c == 32) {
				if v := reg.initFn(st, reg, off, 32, byteArr32); v != nil {
					if b, ok := v.(Bytes); ok {
						return b.segs
					}
				}
			}
		}
		if reg.rawName == "" {
			reg = st.wreg(r)
			reg.rawName = reg.name
		}
		return []Seg{{n, CRaw{r, off}}}
	}
	w := reg.writes[i]
	if w.q != nil {
		s, hit := st.readQuant(reg, w, off, n)
		if hit {
			return s
		}
		return st.readFrom(r, i-1, off, n, depth+1)
	}
	switch st.rel(off, n, w.off, w.size) {
	case 1:
		return st.readFrom(r, i-1, off, n, depth+1)
	case 0:
		return st.writeSegs(w)
	case 2:
		return st.subSegs(st.writeSegs(w), off.Sub(w.off), n)
	}
	if w.size.isZero() {
		return st.readFrom(r, i-1, off, n, depth+1)
	}
	// partial overlap: split at the boundaries of w
	end, wend := off.Add(n), w.off.Add(w.size)
	if st.decideGe(w.off, end) || st.decideGe(off, wend) {
		return st.readFrom(r, i-1, off, n, depth+1)
	}
	a := off
	var out []Seg
	if !st.decideGe(off, w.off) {
		out = append(out, st.readFrom(r, i-1, off, w.off.Sub(off), depth+1)...)
		a = w.off
	} else if st.proveEq(off, w.off) {
		a = w.off
	}
	b := end
	tail := false
	if !st.decideGe(wend, end) {
		b = wend
		tail = true
	}
	out = append(out, st.subSegs(st.writeSegs(w), a.Sub(w.off), b.Sub(a))...)
	if tail {
		out = append(out, st.readFrom(r, i-1, b, end.Sub(b), depth+1)...)
	}
	return out
}

var byteArr32 = types.NewArray(types.Typ[types.Uint8], 32)

func (st *State) writeSegs(w *Write) []Seg {
	if w.val == nil {
		return w.segs
	}
	switch v := w.val.(type) {
	case *Poly:
		n, _ := w.size.Int64()
		return []Seg{{w.size, CInt{v, int(n), 'N', 0}}}
	case Bytes:
		return v.segs
	case Bool:
		if st.decide(v.c) {
			return []Seg{{w.size, CInt{polyOne, 1, 'N', 0}}}
		}
		return []Seg{{w.size, CInt{polyZero, 1, 'N', 0}}}
	}
	return []Seg{{w.size, CUnk{"cell:" + valKey(w.val)}}}
}

func (st *State) store(p Ptr, v Value, t types.Type) {
	st.checkPtr(p, "store")
	n := len(st.events)
	st.access(p, constP(sizeof(t)), true)
	if _, ok := v.(*Poly); ok && len(st.events) > n {
		st.events[n].val = v
	}
	st.storeAt(p.r, p.off, v, t)
}

func (st *State) storeAt(r int, off *Poly, v Value, t types.Type) {
	switch x := v.(type) {
	case Agg:
		for _, c := range x.cells {
			st.storeAt(r, off.AddC(c.off), c.v, c.t)
		}
		return
	case Slice:
		st.putCell(r, off, 8, x.p, types.Typ[types.UnsafePointer])
		st.putCell(r, off.AddC(8), 8, x.len, types.Typ[types.Int])
		st.putCell(r, off.AddC(16), 8, x.cap, types.Typ[types.Int])
		return
	}
	st.putCell(r, off, sizeof(t), v, t)
}

func (st *State) putCell(r int, off *Poly, size int64, v Value, t types.Type) {
	if b, ok := v.(Bytes); ok {
		st.writeBytes(r, off, b.n, b.segs)
		return
	}
	st.putWrite(r, &Write{off: off, size: constP(size), val: v, t: t})
}

func (st *State) writeBytes(r int, off, n *Poly, segs []Seg) {
	if n.isZero() {
		return
	}
	st.putWrite(r, &Write{off: off, size: n, segs: segs})
}

func (st *State) putWrite(r int, w *Write) {
	if st.regs[r].seq != nil {
		undecided("write into an element of an abstracted sequence")
	}
	if w.pos == token.NoPos && len(st.frames) > 0 {
		f := st.top()
		if f.block != nil && f.pc < len(f.block.Instrs) {
			w.pos = instrPos(f.block.Instrs[f.pc])
		}
	}
	reg := st.wreg(r)
	// drop an older write to exactly the same place when nothing in between may overlap it
	for i := len(reg.writes) - 1; i >= 0; i-- {
		o := reg.writes[i]
		if o.q != nil {
			break
		}
		d := o.off.Sub(w.off)
		c, ok := d.Const()
		if !ok {
			break
		}
		if c.Sign() == 0 && o.size.Eq(w.size) {
			nw := append([]*Write(nil), reg.writes[:i]...)
			nw = append(nw, reg.writes[i+1:]...)
			reg.writes = append(nw, w)
			return
		}
		oc, ok1 := o.size.Const()
		wc, ok2 := w.size.Const()
		if !ok1 || !ok2 {
			break
		}
		// o at w.off+c
		if c.Cmp(wc) >= 0 || new(big.Int).Add(c, oc).Sign() <= 0 {
			continue
		}
		// o fully inside w: overwritten
		if c.Sign() >= 0 && new(big.Int).Add(c, oc).Cmp(wc) <= 0 {
			nw := append([]*Write(nil), reg.writes[:i]...)
			nw = append(nw, reg.writes[i+1:]...)
			reg.writes = nw
			continue
		}
		break
	}
	reg.writes = append(reg.writes, w)
}

// quantified writes ------------------------------------------------------

// matchQuant finds an index polynomial j with w.off(j) == off.
func matchQuant(w *Write, off *Poly) *Poly {
	kap := kapAtom.SingleAtom()
	// linear in kap: off = base + stride*kap
	base := w.off.SubstAtom(kap, polyZero)
	stride := w.off.SubstAtom(kap, polyOne).Sub(base)
	if stride.isZero() || stride.Mentions(func(a *Atom) bool { return a == kap }) {
		return nil
	}
	if !base.Add(stride.Mul(kapAtom)).Eq(w.off) {
		return nil
	}
	return exactQuot(off.Sub(base), stride)
}

func (st *State) loadQuant(reg *Region, w *Write, off, sz *Poly, t types.Type) (Value, bool) {
	kap := kapAtom.SingleAtom()
	if w.size.Eq(sz) || st.proveEq(w.size, sz) {
		if j := matchQuant(w, off); j != nil && len(w.q.guard) == 0 {
			if st.decide(Cond{j, '+'}) && st.decide(Cond{w.q.upper.Sub(j).AddC(-1), '+'}) {
				at := func(p *Poly) *Poly { return p.SubstAtom(kap, j) }
				if w.val != nil && w.q.must {
					return mapPoly(w.val, at), true
				}
				return st.arrElem(w, off, t), true
			}
			return nil, false
		}
		if len(w.q.guard) > 0 {
			if j := st.matchGuarded(w, off); j != nil {
				at := func(p *Poly) *Poly { return p.SubstAtom(kap, j) }
				if w.val != nil && w.q.must {
					return mapPoly(w.val, at), true
				}
			}
			// guarded append: name elements by position
			return st.arrElem(w, off, t), true
		}
	}
	if st.quantDisjoint(w, off, sz) {
		return nil, false
	}
	if w.val == nil && w.segs != nil {
		s, hit := st.readQuant(reg, w, off, sz)
		if hit {
			n, _ := sz.Int64()
			return st.fromBytes(s, n, t), true
		}
	}
	return st.havocLoad(reg, off, t), true
}

func (st *State) arrElem(w *Write, off *Poly, t types.Type) Value {
	bits, signed, ok := basicInfo(t)
	if !ok {
		return st.havocLoad(nil, off, t)
	}
	lo, hi := typeRange(bits, signed)
	return mkAtom("arr:"+w.q.arr, lo, hi, off)
}

func (st *State) havocLoad(reg *Region, off *Poly, t types.Type) Value {
	nm := st.fresh("havoc")
	if isBoolT(t) {
		return boolAtom(mkAtom(nm, bigZero, bigOne))
	}
	if bits, signed, ok := basicInfo(t); ok {
		lo, hi := typeRange(bits, signed)
		return mkAtom(nm, lo, hi)
	}
	if os.Getenv("ZHAVOC") != "" && reg != nil {
		for _, w := range reg.writes {
			k := ""
			if w.q != nil {
				k = fmt.Sprintf("q upper=%s must=%v guard=%d", w.q.upper, w.q.must, len(w.q.guard))
			}
			fmt.Println("WRITE", w.off, w.size, k, w.val != nil)
		}
		fmt.Println("READ at", off, t)
	}
	undecided("read of memory changed by a loop as %s", t)
	return nil
}

func (st *State) quantDisjoint(w *Write, off, n *Poly) bool {
	kap := kapAtom.SingleAtom()
	base := w.off.SubstAtom(kap, polyZero)
	end := w.off.SubstAtom(kap, w.q.upper) // exclusive hull for ascending strides >= size
	stride := w.off.SubstAtom(kap, polyOne).Sub(base)
	if c, ok := stride.Int64(); ok && c > 0 {
		// strided records: different fields of the records never overlap
		ws, ok1 := w.size.Int64()
		ns, ok2 := n.Int64()
		d := off.Sub(base)
		if ok1 && ok2 && !base.Mentions(func(a *Atom) bool { return a == kap }) && base.Add(stride.Mul(kapAtom)).Eq(w.off) {
			res := new(big.Int).Mod(d.ConstTerm(), big.NewInt(c)).Int64()
			if exactQuot(d.AddC(-res), stride) != nil && res >= ws && res+ns <= c {
				return true
			}
		}
	}
	if st.proveGe(stride, w.size.SubstAtom(kap, polyZero)) || len(w.q.guard) > 0 {
		if st.proveGe(base, off.Add(n)) || st.proveGe(off, end) {
			return true
		}
	}
	if st.proveEq(w.q.upper, polyZero) {
		return true
	}
	return false
}

func (st *State) readQuant(reg *Region, w *Write, off, n *Poly) ([]Seg, bool) {
	if st.quantDisjoint(w, off, n) {
		return nil, false
	}
	kap := kapAtom.SingleAtom()
	if len(w.q.guard) == 0 && w.q.must {
		if j := matchQuant(w, off); j != nil && (n.Eq(w.size.SubstAtom(kap, j)) || st.proveEq(n, w.size.SubstAtom(kap, j))) {
			if st.proveGe(j, polyZero) && st.proveGe(w.q.upper, j.AddC(1)) {
				at := func(p *Poly) *Poly { return p.SubstAtom(kap, j) }
				return mapSegs(st.writeSegs(w), at), true
			}
		}
	}
	return []Seg{{n, CUnk{st.fresh("loopmem")}}}, true
}

// ---------------------------------------------------------------------

func (st *State) ghost(name string) *Region {
	if id, ok := st.ghosts[name]; ok {
		return st.reg(id)
	}
	r := st.newRegion("ghost:"+name, "ghost", constP(64))
	r.zero = true
	m := map[string]int{}
	for k, v := range st.ghosts {
		m[k] = v
	}
	m[name] = r.id
	st.ghosts = m
	return r
}

func (st *State) ghostGet(name string) *Poly {
	r := st.ghost(name)
	return st.loadScalar(r.id, polyZero, 8, types.Typ[types.Int64]).(*Poly)
}

func (st *State) ghostSet(name string, v *Poly) {
	r := st.ghost(name)
	st.putWrite(r.id, &Write{off: polyZero, size: constP(8), val: v, t: types.Typ[types.Int64]})
}

func (st *State) describeStack() string {
	var out []string
	for i := len(st.frames) - 1; i >= 0; i-- {
		out = append(out, st.frames[i].fn.String())
	}
	return strings.Join(out, " <- ")
}

// matchGuarded finds the iteration of a guarded append that wrote the element at off. The write
// goes to base + c*S(kap) where S counts the earlier iterations satisfying the same guard, so
// iterations write to distinct places.
func (st *State) matchGuarded(w *Write, off *Poly) *Poly {
	kap := kapAtom.SingleAtom()
	var cnt *Atom
	w.off.Atoms(func(a *Atom) {
		if a.sum != nil && len(a.args) == 1 && a.args[0].SingleAtom() == kap {
			cnt = a
		}
	})
	if cnt == nil {
		return nil
	}
	if c, ok := cnt.sum.mono.Int64(); !ok || c != 1 || len(cnt.sum.guard) != len(w.q.guard) {
		return nil
	}
	for i, g := range w.q.guard {
		if cnt.sum.guard[i].val != g.val || !cnt.sum.guard[i].atom.Eq(g.atom) {
			return nil
		}
	}
	base := w.off.SubstAtom(cnt, polyZero)
	c := w.off.Sub(base)
	c = exactQuot(c, atomP(cnt))
	if c == nil || base.Mentions(func(a *Atom) bool { return a == kap }) {
		return nil
	}
	if n, ok := c.Int64(); !ok || n <= 0 || !st.proveGe(constP(n), w.size) {
		return nil
	}
	// position = S(u) + d
	pos := exactQuot(off.Sub(base), c)
	if pos == nil {
		return nil
	}
	if pos.isZero() {
		pos = polyZero
	}
	sumAt := func(u *Poly) *Poly { return mkSumRaw(cnt.sum.guard, cnt.sum.mono, u) }
	total := sumAt(w.q.upper)
	holds := func(u *Poly) bool {
		for _, g := range w.q.guard {
			ga := g.atom.SubstAtom(kap, u)
			if !st.entailsCond(Cond{ga.AddC(-g.val), '='}) {
				return false
			}
		}
		return st.proveGe(u, polyZero) && st.proveGe(w.q.upper, u.AddC(1))
	}
	var cands []*Poly
	pos.Atoms(func(a *Atom) {
		if a.sum != nil && sameSumBody(a, cnt) {
			cands = append(cands, a.args[0])
		}
	})
	gk := ""
	for _, g := range w.q.guard {
		gk += fmt.Sprintf("%s=%d;", g.atom.Key(), g.val)
	}
	next := func(u *Poly) *Poly {
		// the first iteration after u satisfying the guard
		n := mkAtom("next:"+gk, bigZero, sizeHi, u)
		if !st.proveGe(total, sumAt(u.AddC(1)).AddC(1)) && !st.proveGe(total, sumAt(u).AddC(2)) {
			return nil
		}
		for _, g := range w.q.guard {
			st.assume(Cond{g.atom.SubstAtom(kap, n).AddC(-g.val), '='})
		}
		st.assume(Cond{n.Sub(u).AddC(-1), '+'})
		st.assume(Cond{w.q.upper.Sub(n).AddC(-1), '+'})
		return n
	}
	for _, u := range cands {
		d, ok := pos.Sub(sumAt(u)).Int64()
		if !ok {
			continue
		}
		if d == 0 && holds(u) {
			return u
		}
		if d == 1 && holds(u) {
			n := next(u)
			if n == nil {
				return nil
			}
			st.assume(Cond{sumAt(n).Sub(sumAt(u)).AddC(-1), '='})
			return n
		}
	}
	return nil
}
