package main

// tags.HasFlag by its own analysis: the paths of the function over an abstraction of comma-separated
// lists. A list is known by its parts as seen from the one the loop has come to: whether part g exists,
// whether it is the flag, whether the list from it on is empty. At loop headers the parts that were passed
// are forgotten, which is sound only when each of them was found not to be the flag ("lost" otherwise),
// so the state space is finite and every path of every number of rounds is covered.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type tvKind int

const (
	tvAny   tvKind = iota
	tvBool         // n: 0, 1
	tvInt          // n
	tvStr          // s
	tvField        // the struct field
	tvTag          // its tag
	tvFlag         // the flag asked for
	tvNS           // the namespace asked for
	tvList         // the list from part n on
	tvHead         // part n
	tvComma        // position of the comma after part n in the list from n on, plus m
	tvPos          // as an index: part n of the split list
	tvParts        // the parts of the list, the index of the first is n
	tvCount        // their number
	tvElem         // address of part n
	tvLen          // length of the string v
	tvCat          // concatenation
	tvTuple        // components
	tvAddr         // local variable n
)

// passed: the number of a first part that has been forgotten
const passed = -1 << 20

type tval struct {
	k    tvKind
	n, m int
	s    string
	vs   []tval
}

func (v tval) key() string {
	k := fmt.Sprintf("%d.%d.%d.%s", v.k, v.n, v.m, v.s)
	for _, x := range v.vs {
		k += "(" + x.key() + ")"
	}
	return k
}

func (v tval) gens(f func(n int) int) tval {
	switch v.k {
	case tvList, tvHead, tvComma, tvPos, tvElem:
		v.n = f(v.n)
	}
	if v.k == tvParts || v.k == tvCount {
		v.n = passed
	}
	if len(v.vs) > 0 {
		vs := make([]tval, len(v.vs))
		for i, x := range v.vs {
			vs[i] = x.gens(f)
		}
		v.vs = vs
	}
	return v
}

func (v tval) minGen(has *bool, m *int) {
	switch v.k {
	case tvList, tvHead, tvComma, tvPos, tvElem:
		if !*has || v.n < *m {
			*m = v.n
		}
		*has = true
	}
	for _, x := range v.vs {
		x.minGen(has, m)
	}
}

type tframe struct {
	fn    *ssa.Function
	blk   *ssa.BasicBlock
	prev  *ssa.BasicBlock
	idx   int
	env   map[ssa.Value]tval
	first map[*ssa.BasicBlock]int // least part in use when a loop was first entered
}

// part: what is known of a part: 1 yes, -1 no
type tpart struct{ ex, flag, empty int }

type tstate struct {
	frames []*tframe
	parts  []tpart
	cells  map[int]tval
	ncell  int
	lost   bool
	has    int // the whole list was searched at once
}

func (s *tstate) clone() *tstate {
	n := &tstate{lost: s.lost, has: s.has, ncell: s.ncell, parts: append([]tpart{}, s.parts...), cells: map[int]tval{}}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for _, f := range s.frames {
		g := *f
		g.env = map[ssa.Value]tval{}
		for k, v := range f.env {
			g.env[k] = v
		}
		g.first = map[*ssa.BasicBlock]int{}
		for k, v := range f.first {
			g.first[k] = v
		}
		n.frames = append(n.frames, &g)
	}
	return n
}

func (s *tstate) part(n int) *tpart {
	for len(s.parts) <= n {
		s.parts = append(s.parts, tpart{})
	}
	return &s.parts[n]
}

// refuted: no part of the list is the flag; shown: one is.
func (s *tstate) refuted() bool {
	if s.has != 0 {
		return s.has < 0
	}
	if s.lost {
		return false
	}
	for i := 0; ; i++ {
		if i >= len(s.parts) {
			return false
		}
		p := s.parts[i]
		if p.ex < 0 || i == 0 && p.empty > 0 {
			return true
		}
		if p.empty > 0 { // the rest of the list is empty
			return true
		}
		if p.flag >= 0 {
			return false
		}
	}
}

func (s *tstate) shown() bool {
	if s.has != 0 {
		return s.has > 0
	}
	for i := 0; i < len(s.parts); i++ {
		p := s.parts[i]
		if i > 0 && p.ex <= 0 {
			return false
		}
		if p.flag > 0 {
			return true
		}
	}
	return false
}

type taglist struct {
	root  *ssa.Function
	bad   func(ok bool, key string, pos token.Pos, msg string)
	seen  map[string]bool
	live  map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	steps int
	rets  int
	stack []*tstate
}

type tagUnknown struct {
	pos token.Pos
	msg string
}

func (a *taglist) fail(in ssa.Instruction, format string, x ...interface{}) {
	panic(tagUnknown{in.Pos(), fmt.Sprintf(format, x...)})
}

// liveness of SSA values at the start of each block
func (a *taglist) liveIn(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if l, ok := a.live[fn]; ok {
		return l
	}
	l := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		l[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range l[s] {
					cur[v] = true
				}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for k, p := range s.Preds {
						if p == b {
							cur[phi.Edges[k]] = true
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil {
						cur[*op] = true
					}
				}
			}
			for v := range cur {
				if !l[b][v] {
					l[b][v] = true
					ch = true
				}
			}
		}
	}
	a.live[fn] = l
	return l
}

func (a *taglist) run() {
	fn := a.root
	s := &tstate{cells: map[int]tval{}}
	s.part(0).ex = 1
	f := &tframe{fn: fn, blk: fn.Blocks[0], env: map[ssa.Value]tval{}, first: map[*ssa.BasicBlock]int{}}
	strs := 0
	for _, p := range fn.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			f.env[p] = tval{k: []tvKind{tvNS, tvFlag, tvAny}[strs]}
			if strs < 2 {
				strs++
			}
		} else {
			f.env[p] = tval{k: tvField}
		}
	}
	s.frames = []*tframe{f}
	a.stack = []*tstate{s}
	for len(a.stack) > 0 {
		s := a.stack[len(a.stack)-1]
		a.stack = a.stack[:len(a.stack)-1]
		for s != nil {
			if a.steps++; a.steps > 200000 {
				panic(tagUnknown{fn.Pos(), "too many states"})
			}
			s = a.step(s)
		}
	}
}

func (a *taglist) fork(s *tstate, x ssa.Value, f func(t *tstate) tval) {
	t := s.clone()
	v := f(t)
	fr := t.frames[len(t.frames)-1]
	fr.env[x] = v
	fr.idx++
	a.stack = append(a.stack, t)
}

// enter moves to a block: phis, and forgetting at loop headers.
func (a *taglist) enter(s *tstate, b *ssa.BasicBlock) *tstate {
	f := s.frames[len(s.frames)-1]
	from := f.blk
	vals := map[ssa.Value]tval{}
	n := 0
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		for k, p := range b.Preds {
			if p == from {
				vals[phi] = a.val(s, phi.Edges[k])
			}
		}
	}
	live := a.liveIn(f.fn)[b]
	for v := range f.env {
		if !live[v] {
			delete(f.env, v)
		}
	}
	for v, x := range vals {
		f.env[v] = x
	}
	f.prev, f.blk, f.idx = from, b, n
	header := false
	for _, p := range b.Preds {
		header = header || b.Dominates(p)
	}
	if !header {
		return s
	}
	// plain counters over a split list become positions in it
	split, base := false, 0
	for _, v := range f.env {
		if v.k == tvParts {
			split, base = true, v.n
		}
	}
	if split && base != passed {
		for v := range vals {
			if x := f.env[v]; x.k == tvInt {
				f.env[v] = tval{k: tvPos, n: x.n + base}
			}
		}
	}
	has, m := false, 0
	for _, v := range f.env {
		v.minGen(&has, &m)
	}
	back := b.Dominates(from)
	if !back {
		f.first[b] = m
	}
	d := m - f.first[b]
	if back && has && d != 0 {
		if d < 0 {
			panic(tagUnknown{b.Instrs[0].Pos(), "a loop over the tag goes backwards"})
		}
		for i := 0; i < d; i++ {
			switch p := s.part(i); {
			case s.shown():
				s.has = 1
			case p.flag >= 0 && p.ex >= 0:
				s.lost = true
			}
			s.part(i + 1)
		}
		s.parts = append([]tpart{}, s.parts[d:]...)
		sh := func(n int) int { return n - d }
		for _, g := range s.frames {
			for v, x := range g.env {
				g.env[v] = x.gens(sh)
			}
		}
		for c, x := range s.cells {
			s.cells[c] = x.gens(sh)
		}
	}
	k := s.key()
	if a.seen[k] {
		return nil
	}
	a.seen[k] = true
	return s
}

func (s *tstate) key() string {
	var sb strings.Builder
	for _, f := range s.frames {
		fmt.Fprintf(&sb, "%s/%d/%d:", f.fn, f.blk.Index, f.idx)
		var ks []string
		for v, x := range f.env {
			ks = append(ks, v.Name()+"="+x.key())
		}
		sort.Strings(ks)
		sb.WriteString(strings.Join(ks, ","))
	}
	var cs []string
	for c, x := range s.cells {
		cs = append(cs, fmt.Sprint(c, "=", x.key()))
	}
	sort.Strings(cs)
	fmt.Fprint(&sb, s.parts, cs, s.lost, s.has)
	return sb.String()
}

func (a *taglist) val(s *tstate, v ssa.Value) tval {
	if c, ok := v.(*ssa.Const); ok {
		if c.Value == nil {
			return tval{}
		}
		switch c.Value.Kind() {
		case constant.String:
			return tval{k: tvStr, s: constant.StringVal(c.Value)}
		case constant.Bool:
			if constant.BoolVal(c.Value) {
				return tval{k: tvBool, n: 1}
			}
			return tval{k: tvBool}
		case constant.Int:
			if n, ok := constant.Int64Val(c.Value); ok {
				return tval{k: tvInt, n: int(n)}
			}
		}
		return tval{}
	}
	return s.frames[len(s.frames)-1].env[v]
}

func tBool(b bool) tval {
	if b {
		return tval{k: tvBool, n: 1}
	}
	return tval{k: tvBool}
}

// assumeExists, assumeFlag, assumeEmpty: false when it contradicts what is known
func (s *tstate) exists(g int, yes bool) bool {
	p := s.part(g)
	v := -1
	if yes {
		v = 1
	}
	if p.ex == -v {
		return false
	}
	p.ex = v
	if yes && g > 0 {
		if !s.exists(g-1, true) || s.part(g-1).empty > 0 {
			return false
		}
		s.part(g - 1).empty = -1
	}
	if !yes && g < len(s.parts)-1 {
		return s.exists(g+1, false)
	}
	return true
}

func (s *tstate) isFlag(g int, yes bool) bool {
	p := s.part(g)
	v := -1
	if yes {
		v = 1
		if p.empty > 0 || p.ex < 0 {
			return false
		}
		p.empty = -1
	}
	if p.flag == -v {
		return false
	}
	p.flag = v
	return true
}

// isEmpty: the list from part g on is the empty string
func (s *tstate) isEmpty(g int, yes bool) bool {
	p := s.part(g)
	v := -1
	if yes {
		v = 1
		if !s.exists(g+1, false) {
			return false
		}
		p = s.part(g)
		if p.flag > 0 {
			return false
		}
		p.flag = -1
	}
	if p.empty == -v {
		return false
	}
	p.empty = v
	return true
}

// either continues with both answers that are compatible with what is known.
func (a *taglist) either(s *tstate, x ssa.Value, yes, no func(t *tstate) bool) *tstate {
	for _, b := range []bool{true, false} {
		b := b
		f := yes
		if !b {
			f = no
		}
		t := s.clone()
		if f(t) {
			fr := t.frames[len(t.frames)-1]
			fr.env[x] = tBool(b)
			fr.idx++
			a.stack = append(a.stack, t)
		}
	}
	return nil
}

func both(fs ...func(t *tstate) bool) func(t *tstate) bool {
	return func(t *tstate) bool {
		for _, f := range fs {
			if !f(t) {
				return false
			}
		}
		return true
	}
}

func (a *taglist) equal(s *tstate, in ssa.Instruction, x ssa.Value, v, w tval, neg bool) *tstate {
	if v.k == tvStr || v.k == tvInt || v.k == tvFlag && w.k != tvStr {
		v, w = w, v
	}
	yn := func(yes, no func(t *tstate) bool) *tstate {
		if neg {
			yes, no = no, yes
		}
		return a.either(s, x, yes, no)
	}
	anyWay := func(t *tstate) bool { return true }
	never := func(t *tstate) bool { return false }
	g := v.n
	ex := func(g int, b bool) func(t *tstate) bool { return func(t *tstate) bool { return t.exists(g, b) } }
	fl := func(b bool) func(t *tstate) bool { return func(t *tstate) bool { return t.isFlag(g, b) } }
	em := func(b bool) func(t *tstate) bool { return func(t *tstate) bool { return t.isEmpty(g, b) } }
	switch {
	case v.k == tvBool && w.k == tvBool:
		if (v.n == w.n) != neg {
			return yn2(a, s, x, true)
		}
		return yn2(a, s, x, false)
	case v.k == tvStr && w.k == tvStr || v.k == tvInt && w.k == tvInt:
		return yn2(a, s, x, (v.s == w.s && v.n == w.n) != neg)
	case v.k == tvFlag && w.k == tvStr && w.s == "":
		return yn(never, anyWay) // the flags of the scheme are not empty
	case v.k == tvHead && w.k == tvFlag:
		return yn(fl(true), fl(false))
	case v.k == tvHead && w.k == tvStr && w.s == "":
		return yn(fl(false), anyWay)
	case v.k == tvStr && v.s == "" && w.k == tvFlag:
		return yn(never, anyWay)
	case v.k == tvList && w.k == tvFlag:
		// equal to the whole rest: it is the last part
		t := s.clone()
		if t.exists(g+1, true) {
			fr := t.frames[len(t.frames)-1]
			fr.env[x] = tBool(neg)
			fr.idx++
			a.stack = append(a.stack, t)
		}
		return yn(both(ex(g+1, false), fl(true)), both(ex(g+1, false), fl(false)))
	case v.k == tvList && w.k == tvStr && w.s == "":
		return yn(em(true), em(false))
	case v.k == tvLen && w.k == tvInt && w.n == 0:
		return a.equal(s, in, x, v.vs[0], tval{k: tvStr}, neg)
	case v.k == tvComma && w.k == tvInt && w.n < 0:
		return yn2(a, s, x, neg) // there is a comma
	case v.k == tvPos && w.k == tvCount:
		return yn(ex(g, false), ex(g, true))
	case v.k == tvCount && w.k == tvPos:
		g = w.n
		return yn(ex(g, false), ex(g, true))
	}
	return yn(anyWay, anyWay)
}

func yn2(a *taglist, s *tstate, x ssa.Value, b bool) *tstate {
	f := s.frames[len(s.frames)-1]
	f.env[x] = tBool(b)
	f.idx++
	return s
}

func (a *taglist) binop(s *tstate, x *ssa.BinOp) *tstate {
	v, w := a.val(s, x.X), a.val(s, x.Y)
	f := s.frames[len(s.frames)-1]
	set := func(r tval) *tstate {
		f.env[x] = r
		f.idx++
		return s
	}
	anyWay := func(t *tstate) bool { return true }
	switch x.Op {
	case token.EQL:
		return a.equal(s, x, x, v, w, false)
	case token.NEQ:
		return a.equal(s, x, x, v, w, true)
	case token.ADD, token.SUB:
		sg := 1
		if x.Op == token.SUB {
			sg = -1
		}
		switch {
		case v.k == tvInt && w.k == tvInt:
			return set(tval{k: tvInt, n: v.n + sg*w.n})
		case v.k == tvPos && w.k == tvInt:
			v.n += sg * w.n
			return set(v)
		case v.k == tvInt && w.k == tvPos && sg > 0:
			w.n += v.n
			return set(w)
		case v.k == tvComma && w.k == tvInt:
			v.m += sg * w.n
			return set(v)
		case x.Op == token.ADD && stringTyped(x.Type()):
			var vs []tval
			for _, y := range []tval{v, w} {
				if y.k == tvCat {
					vs = append(vs, y.vs...)
				} else {
					vs = append(vs, y)
				}
			}
			return set(tval{k: tvCat, vs: vs})
		}
		return set(tval{})
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		op := x.Op
		flip := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
		if v.k == tvInt && w.k != tvInt || v.k == tvCount {
			v, w, op = w, v, flip[op]
		}
		switch {
		case v.k == tvInt && w.k == tvInt:
			r := map[token.Token]bool{token.LSS: v.n < w.n, token.GTR: v.n > w.n, token.LEQ: v.n <= w.n, token.GEQ: v.n >= w.n}[op]
			return set(tBool(r))
		case (v.k == tvPos || v.k == tvInt && w.n != passed) && w.k == tvCount && (op == token.LSS || op == token.GEQ):
			g := v.n
			if v.k == tvInt {
				g += w.n
			}
			if g < 0 {
				return set(tBool(op == token.LSS))
			}
			return a.either(s, x, func(t *tstate) bool { return t.exists(g, op == token.LSS) }, func(t *tstate) bool { return t.exists(g, op != token.LSS) })
		case v.k == tvLen && w.k == tvInt && (w.n == 0 && op == token.GTR || w.n == 1 && op == token.GEQ):
			return a.equal(s, x, x, v.vs[0], tval{k: tvStr}, true)
		case v.k == tvLen && w.k == tvInt && (w.n == 0 && op == token.LEQ || w.n == 1 && op == token.LSS):
			return a.equal(s, x, x, v.vs[0], tval{k: tvStr}, false)
		case v.k == tvComma && w.k == tvInt && w.n == 0 && v.m == 0 && op == token.GEQ, v.k == tvComma && w.k == tvInt && w.n == -1 && v.m == 0 && op == token.GTR:
			return set(tBool(true))
		case v.k == tvComma && w.k == tvInt && w.n == 0 && v.m == 0 && op == token.LSS:
			return set(tBool(false))
		}
	}
	if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
		return a.either(s, x, anyWay, anyWay)
	}
	return set(tval{})
}

func stringTyped(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (a *taglist) slice(s *tstate, x *ssa.Slice) tval {
	v := a.val(s, x.X)
	lo, hi := tval{k: tvInt}, tval{k: tvAny, n: 1}
	if x.Low != nil {
		lo = a.val(s, x.Low)
	}
	if x.High != nil {
		hi = a.val(s, x.High)
	}
	end := x.High == nil || hi.k == tvLen && hi.vs[0].key() == v.key()
	switch {
	case v.k == tvList && lo.k == tvInt && lo.n == 0 && hi.k == tvComma && hi.n == v.n && hi.m == 0:
		return tval{k: tvHead, n: v.n}
	case v.k == tvList && lo.k == tvComma && lo.n == v.n && lo.m == 1 && end:
		return tval{k: tvList, n: v.n + 1}
	case lo.k == tvInt && lo.n == 0 && end:
		return v
	case v.k == tvParts && lo.k == tvInt && end && v.n != passed:
		v.n += lo.n
		return v
	}
	return tval{}
}

func isComma(v tval) bool { return v.k == tvStr && v.s == "," || v.k == tvInt && v.n == ',' }

func (a *taglist) call(s *tstate, x *ssa.Call) *tstate {
	f := s.frames[len(s.frames)-1]
	set := func(r tval) *tstate {
		f.env[x] = r
		f.idx++
		return s
	}
	var args []tval
	for _, v := range x.Call.Args {
		args = append(args, a.val(s, v))
	}
	anyBool := func() *tstate {
		y := func(t *tstate) bool { return true }
		return a.either(s, x, y, y)
	}
	if b, ok := x.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "len" {
			switch args[0].k {
			case tvParts:
				return set(tval{k: tvCount, n: args[0].n})
			case tvStr:
				return set(tval{k: tvInt, n: len(args[0].s)})
			case tvList, tvHead, tvFlag:
				return set(tval{k: tvLen, vs: args[:1]})
			}
		}
		return set(tval{})
	}
	fn := x.Call.StaticCallee()
	if fn == nil {
		a.fail(x, "a dynamic call")
	}
	name := fn.String()
	if i := strings.Index(name, "["); i > 0 && !strings.HasPrefix(name, "(") {
		name = name[:i]
	}
	comma := func(g int, v func(has bool) tval) *tstate {
		for _, b := range []bool{true, false} {
			b := b
			t := s.clone()
			if t.exists(g+1, b) {
				fr := t.frames[len(t.frames)-1]
				fr.env[x] = v(b)
				fr.idx++
				a.stack = append(a.stack, t)
			}
		}
		return nil
	}
	whole := func(v tval) bool { return v.k == tvList && v.n == 0 && !s.lost && s.has == 0 }
	search := func() *tstate {
		return a.either(s, x, func(t *tstate) bool { t.has = 1; return true }, func(t *tstate) bool { t.has = -1; return true })
	}
	switch name {
	case "(reflect.StructTag).Lookup", "(reflect.StructTag).Get":
		if args[0].k != tvTag || args[1].k != tvNS {
			a.fail(x, "the tag looked up is not the one asked for")
		}
		if name == "(reflect.StructTag).Get" {
			return set(tval{k: tvList})
		}
		// an absent tag reads as an empty one
		t := s.clone()
		if t.isEmpty(0, true) {
			fr := t.frames[len(t.frames)-1]
			fr.env[x] = tval{k: tvTuple, vs: []tval{{k: tvList}, tBool(false)}}
			fr.idx++
			a.stack = append(a.stack, t)
		}
		return set(tval{k: tvTuple, vs: []tval{{k: tvList}, tBool(true)}})
	case "strings.Index", "strings.IndexByte", "strings.IndexRune":
		if args[0].k == tvList && isComma(args[1]) {
			g := args[0].n
			return comma(g, func(b bool) tval {
				if b {
					return tval{k: tvComma, n: g}
				}
				return tval{k: tvInt, n: -1}
			})
		}
	case "strings.Contains", "strings.ContainsRune":
		if args[0].k == tvList && isComma(args[1]) {
			return comma(args[0].n, tBool)
		}
		c, d := args[0], args[1]
		if c.k == tvCat && d.k == tvCat && len(c.vs) == 3 && len(d.vs) == 3 && whole(c.vs[1]) && d.vs[1].k == tvFlag &&
			isComma(c.vs[0]) && isComma(c.vs[2]) && isComma(d.vs[0]) && isComma(d.vs[2]) {
			return search()
		}
		return anyBool()
	case "strings.Cut":
		if args[0].k == tvList && isComma(args[1]) {
			g := args[0].n
			return comma(g, func(b bool) tval {
				rest := tval{k: tvList, n: g + 1}
				if !b {
					rest = tval{k: tvStr}
				}
				return tval{k: tvTuple, vs: []tval{{k: tvHead, n: g}, rest, tBool(b)}}
			})
		}
	case "strings.Split":
		if args[0].k == tvList && isComma(args[1]) {
			return set(tval{k: tvParts, n: args[0].n})
		}
	case "slices.Contains", "slices.Index":
		if args[0].k == tvParts && args[0].n == 0 && whole(tval{k: tvList}) && args[1].k == tvFlag {
			if name == "slices.Contains" {
				return search()
			}
			for _, b := range []int{1, -1} {
				t := s.clone()
				t.has = b
				fr := t.frames[len(t.frames)-1]
				fr.env[x] = tval{k: tvInt, n: b} // compared with 0 only
				fr.idx++
				a.stack = append(a.stack, t)
			}
			return nil
		}
	}
	if len(fn.Blocks) > 0 && len(s.frames) < 8 {
		g := &tframe{fn: fn, blk: fn.Blocks[0], env: map[ssa.Value]tval{}, first: map[*ssa.BasicBlock]int{}}
		for i, p := range fn.Params {
			g.env[p] = args[i]
		}
		used := map[ssa.Value]bool{}
		for _, b := range f.blk.Succs {
			for v := range a.liveIn(f.fn)[b] {
				used[v] = true
			}
			for _, in := range b.Instrs {
				if phi, ok := in.(*ssa.Phi); ok {
					for _, v := range phi.Edges {
						used[v] = true
					}
				}
			}
		}
		for _, in := range f.blk.Instrs[f.idx+1:] {
			for _, op := range in.Operands(nil) {
				if *op != nil {
					used[*op] = true
				}
			}
		}
		for v := range f.env {
			if !used[v] {
				delete(f.env, v)
			}
		}
		s.frames = append(s.frames, g)
		return s
	}
	if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
		return anyBool()
	}
	return set(tval{})
}

func (a *taglist) step(s *tstate) *tstate {
	f := s.frames[len(s.frames)-1]
	in := f.blk.Instrs[f.idx]
	set := func(v ssa.Value, r tval) *tstate {
		f.env[v] = r
		f.idx++
		return s
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		f.idx++
		return s
	case *ssa.If:
		c := a.val(s, x.Cond)
		if c.k == tvBool {
			return a.enter(s, f.blk.Succs[1-c.n])
		}
		t := s.clone()
		if t = a.enter(t, f.blk.Succs[1]); t != nil {
			a.stack = append(a.stack, t)
		}
		return a.enter(s, f.blk.Succs[0])
	case *ssa.Jump:
		return a.enter(s, f.blk.Succs[0])
	case *ssa.Return:
		var vs []tval
		for _, r := range x.Results {
			vs = append(vs, a.val(s, r))
		}
		if len(s.frames) > 1 {
			s.frames = s.frames[:len(s.frames)-1]
			g := s.frames[len(s.frames)-1]
			c := g.blk.Instrs[g.idx].(*ssa.Call)
			switch {
			case len(vs) == 1:
				g.env[c] = vs[0]
			case len(vs) > 1:
				g.env[c] = tval{k: tvTuple, vs: vs}
			}
			g.idx++
			return s
		}
		a.rets++
		v := tval{}
		if len(vs) > 0 {
			v = vs[0]
		}
		if v.k != tvBool || v.n == 1 {
			a.bad(s.shown(), "flag-true", x.Pos(), "HasFlag can report a flag although no part of the tag is that flag")
		}
		if v.k != tvBool || v.n == 0 {
			a.bad(s.refuted(), "flag-false", x.Pos(), "HasFlag can report that a flag is absent although a part of the tag may be that flag")
		}
		return nil
	case *ssa.Panic:
		a.bad(false, "flag-panic", x.Pos(), "HasFlag can panic")
		return nil
	case *ssa.BinOp:
		return a.binop(s, x)
	case *ssa.UnOp:
		v := a.val(s, x.X)
		switch x.Op {
		case token.NOT:
			if v.k == tvBool {
				return set(x, tBool(v.n == 0))
			}
		case token.MUL:
			switch v.k {
			case tvField, tvTag:
				return set(x, v)
			case tvElem:
				return set(x, tval{k: tvHead, n: v.n})
			case tvAddr:
				return set(x, s.cells[v.n])
			}
		}
		return set(x, tval{})
	case *ssa.Alloc:
		s.ncell++
		c := int(x.Pos())
		z := tval{}
		switch t := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(type) {
		case *types.Basic:
			switch {
			case t.Info()&types.IsString != 0:
				z = tval{k: tvStr}
			case t.Info()&types.IsInteger != 0:
				z = tval{k: tvInt}
			case t.Info()&types.IsBoolean != 0:
				z = tval{k: tvBool}
			}
		}
		s.cells[c] = z
		return set(x, tval{k: tvAddr, n: c})
	case *ssa.Store:
		if p := a.val(s, x.Addr); p.k == tvAddr {
			s.cells[p.n] = a.val(s, x.Val)
		} else {
			a.fail(x, "a store outside local variables")
		}
		f.idx++
		return s
	case *ssa.FieldAddr:
		return set(x, tagField(a.val(s, x.X), x.X.Type(), x.Field))
	case *ssa.Field:
		return set(x, tagField(a.val(s, x.X), x.X.Type(), x.Field))
	case *ssa.IndexAddr:
		v, i := a.val(s, x.X), a.val(s, x.Index)
		switch {
		case v.k == tvParts && i.k == tvPos:
			return set(x, tval{k: tvElem, n: i.n})
		case v.k == tvParts && i.k == tvInt && v.n != passed:
			return set(x, tval{k: tvElem, n: v.n + i.n})
		}
		return set(x, tval{})
	case *ssa.Slice:
		return set(x, a.slice(s, x))
	case *ssa.Extract:
		if v := a.val(s, x.Tuple); v.k == tvTuple && x.Index < len(v.vs) {
			return set(x, v.vs[x.Index])
		}
		return set(x, tval{})
	case *ssa.ChangeType:
		return set(x, a.val(s, x.X))
	case *ssa.Convert:
		return set(x, a.val(s, x.X))
	case *ssa.Phi:
		f.idx++
		return s
	case *ssa.Call:
		return a.call(s, x)
	case ssa.Value:
		return set(x, tval{})
	}
	a.fail(in, "instruction %T", in)
	return nil
}

func tagField(v tval, t types.Type, i int) tval {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if st, ok := t.Underlying().(*types.Struct); ok && v.k == tvField && st.Field(i).Name() == "Tag" {
		return tval{k: tvTag}
	}
	return tval{}
}

// flagParsing: tags.HasFlag reports a flag exactly when a comma-separated part of the tag is that flag.
func (c *Ctx) flagParsing() {
	fn := c.w.e.fnByName("tags", "HasFlag")
	if fn == nil || len(fn.Blocks) == 0 {
		return
	}
	a := &taglist{root: fn, seen: map[string]bool{}, live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	a.bad = func(ok bool, key string, pos token.Pos, msg string) { c.ob(key, ok, pos, "%s", msg) }
	defer func() {
		if x := recover(); x != nil {
			u, ok := x.(tagUnknown)
			if !ok {
				panic(x)
			}
			c.ob("flag-analysed", false, u.pos, "HasFlag cannot be analysed: %s", u.msg)
		}
	}()
	a.run()
	c.ob("flag-analysed", a.rets > 0, fn.Pos(), "HasFlag does not return")
}
