package main

// Integer arithmetic, comparisons and conversions in the abstract domain.

import (
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func degree(p *Poly) int {
	d := 0
	for _, t := range p.terms {
		if len(t.mono) > d {
			d = len(t.mono)
		}
	}
	return d
}

func inRange(p *Poly, lo, hi *big.Int) bool {
	l, h := p.interval()
	return l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0
}

// wrap reduces the mathematical result p of an operation to the given type.
func (st *State) wrap(p *Poly, bits int, signed bool, op string) *Poly {
	lo, hi := typeRange(bits, signed)
	if inRange(p, lo, hi) {
		return p
	}
	m := pow2tab[bits]
	if c, ok := p.Const(); ok {
		r := new(big.Int).Mod(c, m)
		if signed && r.Cmp(hi) > 0 {
			r.Sub(r, m)
		}
		return constB(r)
	}
	if bits == 64 && degree(p) >= 2 {
		// products of sizes, counts and limits are assumed not to overflow 64 bits;
		// differences involving them are still checked below zero
		if op != "sub" && op != "neg" {
			return p
		}
	}
	if bits < 64 {
		// narrow arithmetic: exact modulo when not provably in range
		if st.proveGe(p, constB(lo)) && st.proveGe(constB(hi), p) {
			return p
		}
		if !signed {
			if lo0, _ := p.interval(); lo0 != nil && lo0.Sign() >= 0 {
				return mkMod(p, constB(m))
			}
			if st.decide(Cond{p, '+'}) {
				return mkMod(p, constB(m))
			}
			return p.Add(constB(m))
		}
		undecided("narrow signed arithmetic overflow")
	}
	if l, _ := p.interval(); l == nil || l.Cmp(lo) < 0 {
		if !st.decide(Cond{p.Sub(constB(lo)), '+'}) {
			st.event(Event{kind: "wrap", n: p, str: op})
			return p.Add(constB(m))
		}
	}
	// an unsigned difference never exceeds its left operand
	if _, h := p.interval(); (h == nil || h.Cmp(hi) > 0) && (signed || op != "sub") {
		if !st.decide(Cond{constB(hi).Sub(p), '+'}) {
			st.event(Event{kind: "wrap", n: p, str: op})
			return p.Sub(constB(m))
		}
	}
	return p
}

func (st *State) binop(op token.Token, a, b Value, ta, tb, tr types.Type) Value {
	switch op {
	case token.EQL:
		return st.equal(a, b, ta)
	case token.NEQ:
		r := st.equal(a, b, ta)
		return Bool{r.c.Not()}
	}
	// strings
	if sa, ok := a.(Str); ok {
		sb, ok := b.(Str)
		if !ok {
			undecided("string operation %s", op)
		}
		switch op {
		case token.ADD:
			if sa.isC && sb.isC {
				return Str{isC: true, s: sa.s + sb.s}
			}
			if sa.isC && sa.s == "" {
				return sb
			}
			if sb.isC && sb.s == "" {
				return sa
			}
			return Str{op: "cat", parts: []Value{sa, sb}, n: strLen(sa).Add(strLen(sb))}
		}
		if sa.isC && sb.isC {
			c := strings.Compare(sa.s, sb.s)
			switch op {
			case token.LSS:
				return boolC(c < 0)
			case token.GTR:
				return boolC(c > 0)
			case token.LEQ:
				return boolC(c <= 0)
			case token.GEQ:
				return boolC(c >= 0)
			}
		}
		return boolAtom(mkAtom("strcmp:"+op.String()+":"+valKey(sa)+":"+valKey(sb), bigZero, bigOne))
	}
	// pointer arithmetic on uintptr values
	pa, aPtr := a.(Ptr)
	pb, bPtr := b.(Ptr)
	if aPtr || bPtr {
		return st.ptrOp(op, a, b, pa, pb, aPtr, bPtr)
	}
	x, ok1 := a.(*Poly)
	y, ok2 := b.(*Poly)
	if !ok1 || !ok2 {
		undecided("operation %s on %s and %s", op, showVal(a), showVal(b))
	}
	switch op {
	case token.LSS:
		return Bool{Cond{y.Sub(x).AddC(-1), '+'}}
	case token.LEQ:
		return Bool{Cond{y.Sub(x), '+'}}
	case token.GTR:
		return Bool{Cond{x.Sub(y).AddC(-1), '+'}}
	case token.GEQ:
		return Bool{Cond{x.Sub(y), '+'}}
	}
	bits, signed, ok := basicInfo(tr)
	if !ok {
		undecided("arithmetic on %s", tr)
	}
	switch op {
	case token.ADD:
		return st.wrap(joinIn(x.Add(y)), bits, signed, "add")
	case token.SUB:
		return st.wrap(x.Sub(y), bits, signed, "sub")
	case token.MUL:
		return st.wrap(x.Mul(y), bits, signed, "mul")
	case token.QUO, token.REM:
		if !st.decide(Cond{y, '!'}) {
			halt("panic", "division by zero")
		}
		if signed {
			if !st.proveGe(x, polyZero) || !st.proveGe(y, polyOne) {
				if !st.decide(Cond{x, '+'}) || !st.decide(Cond{y.AddC(-1), '+'}) {
					undecided("signed division of possibly negative value")
				}
			}
		}
		if op == token.QUO {
			return mkDiv(x, y)
		}
		return mkMod(x, y)
	case token.SHL:
		n := st.shiftAmount(y)
		if n >= bits {
			return polyZero
		}
		p := x.MulB(pow2tab[n])
		if bits == 64 && !signed {
			lo, hi := typeRange(64, false)
			if inRange(p, lo, hi) {
				return p
			}
			if c, ok := p.Const(); ok {
				return constB(new(big.Int).Mod(c, two64))
			}
			if st.decide(Cond{constB(hi).Sub(p), '+'}) {
				return p
			}
			st.event(Event{kind: "wrap", n: p, str: "shl"})
			return mkMod(p, constB(two64))
		}
		return st.wrap(p, bits, signed, "shl")
	case token.SHR:
		n := st.shiftAmount(y)
		if signed && !st.proveGe(x, polyZero) {
			undecided("shift of possibly negative value")
		}
		if n >= bits {
			return polyZero
		}
		return shrP(x, n)
	case token.AND:
		return st.and(x, y, bits)
	case token.OR:
		return joinIn(x.Add(y).Sub(st.and(x, y, bits)))
	case token.XOR:
		return x.Add(y).Sub(st.and(x, y, bits).MulC(2))
	case token.AND_NOT:
		return x.Sub(st.and(x, y, bits))
	}
	undecided("operator %s", op)
	return nil
}

func shrP(x *Poly, n int) *Poly {
	if _, h := x.interval(); h != nil && h.Cmp(pow2tab[n]) < 0 {
		if l, _ := x.interval(); l != nil && l.Sign() >= 0 {
			return polyZero
		}
	}
	return mkDiv(x, constB(pow2tab[n]))
}

func (st *State) shiftAmount(y *Poly) int {
	if n, ok := y.Int64(); ok {
		if n < 0 {
			halt("panic", "negative shift amount")
		}
		if n > 128 {
			n = 128
		}
		return int(n)
	}
	if !st.decide(Cond{y, '+'}) {
		halt("panic", "negative shift amount")
	}
	return int(st.enumerate(y, 65))
}

// joinIn: bytes of the input that are put together to a number.
func joinIn(p *Poly) *Poly {
	part := func(id int) (s string, n int64) {
		for _, w := range []struct {
			pre string
			n   int64
		}{{"in1:", 1}, {"inL2:", 2}, {"inL4:", 4}} {
			if op := atomTab[id].op; strings.HasPrefix(op, w.pre) {
				return op[len(w.pre):], w.n
			}
		}
		return "", 0
	}
	count := 0
	for _, t := range p.terms {
		if len(t.mono) == 1 {
			if _, n := part(t.mono[0]); n > 0 {
				count++
			}
		}
	}
	if count < 2 {
		return p
	}
	for _, t := range p.terms {
		if len(t.mono) != 1 {
			continue
		}
		s, n := part(t.mono[0])
		if n == 0 {
			continue
		}
		start := atomTab[t.mono[0]].args[0]
		sum, best, bestN := polyZero, polyZero, int64(0)
		for total, more := int64(0), true; more && total < 8; {
			more = false
			for _, u := range p.terms {
				if len(u.mono) != 1 {
					continue
				}
				s2, n2 := part(u.mono[0])
				if n2 == 0 || s2 != s || total+n2 > 8 || u.c.Cmp(new(big.Int).Mul(t.c, pow2tab[8*total])) != 0 || !atomTab[u.mono[0]].args[0].Eq(start.AddC(total)) {
					continue
				}
				sum = sum.Add(atomP(atomTab[u.mono[0]]).MulB(u.c))
				total += n2
				more = true
				if total > n && (total == 2 || total == 4 || total == 8) {
					best, bestN = sum, total
				}
				break
			}
		}
		if bestN > 0 {
			return joinIn(p.Sub(best).Add(inAtom(CIn{s, start}, int(bestN), 'L').MulB(t.c)))
		}
	}
	return p
}

// pow2Test: a & (a-1) is zero exactly for powers of two.
func (st *State) pow2Test(x, y *Poly, bits int) *Poly {
	d := x.Sub(y)
	if c, ok := d.Int64(); !ok || c != 1 && c != -1 {
		return nil
	} else if c == -1 {
		x, y = y, x
	}
	if !st.proveGe(y, polyZero) {
		return nil
	}
	v := st.enumerate(mkAtom("depth", bigZero, big.NewInt(64), x), 65)
	if v <= 1 || v < 64 && st.decide(Cond{x.Sub(constB(pow2tab[v])), '='}) {
		return polyZero
	}
	return mkAtom("andp", bigOne, new(big.Int).Sub(pow2tab[bits], bigOne), x)
}

// enumerate forks until p has a constant value (at most max values).
func (st *State) enumerate(p *Poly, max int) int64 {
	lo, hi := p.interval()
	l := int64(0)
	if lo != nil && lo.IsInt64() && lo.Sign() > 0 {
		l = lo.Int64()
	}
	h := l + int64(max)
	if hi != nil && hi.IsInt64() && hi.Int64() < h {
		h = hi.Int64()
	} else if !st.proveGe(constP(h), p) {
		undecided("value %s has too many cases", p)
	}
	for v := l; v < h; v++ {
		if st.decide(Cond{p.AddC(-v), '='}) {
			return v
		}
	}
	if !st.proveGe(p, constP(l)) && !st.decide(Cond{p.AddC(-l), '+'}) {
		undecided("value %s may be below %d", p, l)
	}
	st.assume(Cond{p.AddC(-h), '='}) // the one case left
	return h
}

func divisibleBy(p *Poly, m *big.Int) bool {
	for _, t := range p.terms {
		if new(big.Int).Mod(t.c, m).Sign() != 0 {
			return false
		}
	}
	return true
}

func (st *State) and(x, y *Poly, bits int) *Poly {
	if c, ok := x.Const(); ok {
		x, y = y, x
		_ = c
	}
	if x.Eq(y) {
		return x
	}
	lo, hi := x.interval()
	if m, ok := y.Const(); ok {
		if m.Sign() == 0 {
			return polyZero
		}
		if xc, ok := x.Const(); ok {
			if xc.Sign() < 0 || m.Sign() < 0 {
				return constB(new(big.Int).And(xc, m))
			}
			return constB(new(big.Int).And(xc, m))
		}
		if lo == nil || lo.Sign() < 0 {
			if !st.decide(Cond{x, '+'}) {
				undecided("bit operation on negative value")
			}
		}
		if m.Sign() < 0 {
			m = new(big.Int).Add(m, pow2tab[bits])
		}
		top := bits
		if hi != nil && hi.BitLen() < top {
			top = hi.BitLen()
		}
		res := polyZero
		for i := 0; i < top; {
			if m.Bit(i) == 0 {
				i++
				continue
			}
			j := i
			for j < top && m.Bit(j) == 1 {
				j++
			}
			part := mkDiv(x, constB(pow2tab[i]))
			if j < top {
				part = part.Sub(mkDiv(x, constB(pow2tab[j])).MulB(pow2tab[j-i]))
			}
			res = res.Add(part.MulB(pow2tab[i]))
			i = j
		}
		return res
	}
	if st.eng.cut != nil {
		if r := st.pow2Test(x, y, bits); r != nil {
			return r
		}
	}
	// disjoint by alignment
	for s := 0; s < 2; s++ {
		l, h := y.interval()
		if l != nil && l.Sign() >= 0 && h != nil {
			k := pow2tab[h.BitLen()]
			if divisibleBy(x, k) {
				return polyZero
			}
			// x >= aligned check through facts is not attempted
		}
		x, y = y, x
	}
	lo, hi = x.interval()
	_, hy := y.interval()
	if hi == nil || (hy != nil && hy.Cmp(hi) < 0) {
		hi = hy
	}
	if hi == nil {
		hi = new(big.Int).Sub(pow2tab[bits], bigOne)
	}
	a, b := x, y
	if a.Key() > b.Key() {
		a, b = b, a
	}
	return mkAtom("and", bigZero, hi, a, b)
}

func init() {
	axiomTab["and"] = func(f *Facts, a *Atom) []Con {
		return []Con{{a.args[0].Sub(atomP(a)), false}, {a.args[1].Sub(atomP(a)), false}}
	}
}

func (st *State) ptrOp(op token.Token, a, b Value, pa, pb Ptr, aPtr, bPtr bool) Value {
	switch op {
	case token.ADD:
		if aPtr && !bPtr {
			y := b.(*Poly)
			pa.off = pa.off.Add(y)
			pa.isUint = true
			return pa
		}
		if bPtr && !aPtr {
			x := a.(*Poly)
			pb.off = pb.off.Add(x)
			pb.isUint = true
			return pb
		}
	case token.SUB:
		if aPtr && !bPtr {
			y := b.(*Poly)
			pa.off = pa.off.Sub(y)
			pa.isUint = true
			return pa
		}
		if aPtr && bPtr && pa.r == pb.r {
			return pa.off.Sub(pb.off)
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if aPtr && bPtr && pa.r == pb.r {
			x, y := pa.off, pb.off
			switch op {
			case token.LSS:
				return Bool{Cond{y.Sub(x).AddC(-1), '+'}}
			case token.LEQ:
				return Bool{Cond{y.Sub(x), '+'}}
			case token.GTR:
				return Bool{Cond{x.Sub(y).AddC(-1), '+'}}
			case token.GEQ:
				return Bool{Cond{x.Sub(y), '+'}}
			}
		}
	}
	undecided("pointer operation %s on %s, %s", op, showVal(a), showVal(b))
	return nil
}

func (st *State) isNilPtr(p Ptr) Bool {
	if p.r < 0 {
		if p.off == nil {
			return boolC(true)
		}
		return Bool{Cond{p.off, '='}}
	}
	if p.nilAt != nil {
		return boolAtom(p.nilAt)
	}
	return boolC(false)
}

func isNilVal(v Value) bool {
	switch x := v.(type) {
	case Iface:
		return x.t == nil
	case Closure:
		return x.fn == nil
	case Ptr:
		return x.r < 0 && (x.off == nil || x.off.isZero())
	case Slice:
		return x.p.r < 0
	case *Poly:
		return x.isZero()
	}
	return false
}

func (st *State) equal(a, b Value, t types.Type) Bool {
	switch x := a.(type) {
	case *Poly:
		switch y := b.(type) {
		case *Poly:
			return Bool{Cond{x.Sub(y), '='}}
		case Ptr:
			if x.isZero() {
				return st.isNilPtr(y)
			}
		}
	case Bool:
		if y, ok := b.(Bool); ok {
			return boolC(st.decide(x.c) == st.decide(y.c))
		}
	case Ptr:
		switch y := b.(type) {
		case *Poly:
			if y.isZero() {
				return st.isNilPtr(x)
			}
		case Ptr:
			if y.r < 0 {
				return st.isNilPtr(x)
			}
			if x.r < 0 {
				return st.isNilPtr(y)
			}
			if x.r != y.r {
				return boolC(false)
			}
			return Bool{Cond{x.off.Sub(y.off), '='}}
		}
	case Slice:
		if isNilVal(b) {
			if x.p.r >= 0 && x.p.nilAt == nil {
				return boolC(false)
			}
			return st.isNilPtr(x.p)
		}
	case Str:
		if y, ok := b.(Str); ok {
			return st.strEq(x, y)
		}
	case Closure, Builtin:
		if isNilVal(b) {
			return boolC(isNilVal(a))
		}
		if isNilVal(a) {
			return st.equal(b, a, t)
		}
	case Iface, Opaque:
		return st.ifaceEq(a, b)
	case Bytes:
		if y, ok := b.(Bytes); ok {
			return st.bytesEq(x, y)
		}
	case Agg:
		if y, ok := b.(Agg); ok && len(x.cells) == len(y.cells) {
			for i := range x.cells {
				if !st.decide(st.equal(x.cells[i].v, y.cells[i].v, x.cells[i].t).c) {
					return boolC(false)
				}
			}
			return boolC(true)
		}
	}
	undecided("comparison of %s and %s", showVal(a), showVal(b))
	return Bool{}
}

func (st *State) strEq(x, y Str) Bool {
	if x.isC && y.isC {
		return boolC(x.s == y.s)
	}
	if valKey(x) == valKey(y) {
		return boolC(true)
	}
	if x.isC && x.s == "" {
		return Bool{Cond{strLen(y), '='}}
	}
	if y.isC && y.s == "" {
		return Bool{Cond{strLen(x), '='}}
	}
	k1, k2 := valKey(x), valKey(y)
	if k1 > k2 {
		k1, k2 = k2, k1
	}
	return boolAtom(mkAtom("streq:"+k1+"|"+k2, bigZero, bigOne))
}

func (st *State) ifaceEq(a, b Value) Bool {
	ia, aI := a.(Iface)
	ib, bI := b.(Iface)
	nilA := aI && ia.t == nil
	nilB := bI && ib.t == nil
	if nilA && nilB {
		return boolC(true)
	}
	if nilA {
		a, b = b, a
		nilA, nilB = nilB, nilA
	}
	if nilB {
		if o, ok := a.(Opaque); ok {
			if o.kind == "any" || (o.kind == "func") {
				return boolAtom(mkAtom("isnil:"+o.kind+":"+o.key, bigZero, bigOne, o.args...))
			}
			return boolC(false)
		}
		return boolC(false)
	}
	if valKey(a) == valKey(b) {
		return boolC(true)
	}
	if aI && bI {
		if !types.Identical(ia.t, ib.t) {
			return boolC(false)
		}
		return st.equal(ia.v, ib.v, ia.t)
	}
	k1, k2 := valKey(a), valKey(b)
	if k1 > k2 {
		k1, k2 = k2, k1
	}
	return boolAtom(mkAtom("ifeq:"+k1+"|"+k2, bigZero, bigOne))
}

func (st *State) bytesEq(x, y Bytes) Bool {
	if segsKey(x.segs) == segsKey(y.segs) {
		return boolC(true)
	}
	n, ok := x.n.Int64()
	if ok && n <= 8 {
		for i := int64(0); i < n; i++ {
			u := st.byteOf(st.byteAt(x.segs, constP(i)))
			v := st.byteOf(st.byteAt(y.segs, constP(i)))
			if !st.decide(Cond{u.Sub(v), '='}) {
				return boolC(false)
			}
		}
		return boolC(true)
	}
	k1, k2 := segsKey(x.segs), segsKey(y.segs)
	if k1 > k2 {
		k1, k2 = k2, k1
	}
	return boolAtom(mkAtom("byteseq:"+k1+"|"+k2, bigZero, bigOne))
}

func (st *State) convert(v Value, from, to types.Type) Value {
	switch x := v.(type) {
	case *Poly:
		if isPtrLike(to) {
			if x.isZero() {
				return nilPtr
			}
			undecided("integer to pointer conversion of %s", x)
		}
		fb, fs, ok1 := basicInfo(from)
		tb, ts, ok2 := basicInfo(to)
		if !ok2 {
			if isStringT(to) {
				return Str{op: "rune", parts: []Value{x}}
			}
			undecided("conversion %s to %s", from, to)
		}
		if ok1 && ((fs == ts && tb >= fb) || (!fs && ts && tb > fb)) {
			return x
		}
		lo, hi := typeRange(tb, ts)
		if inRange(x, lo, hi) {
			return x
		}
		if tb == 8 && !ts && !st.proveGe(constB(hi), x) && (st.proveGe(x, polyZero) && !st.proveGe(x, constB(hi).AddC(1))) {
			// the last byte of a number: what is written and read byte by byte is put together again
			return st.modRange(x, tb, ts)
		}
		if l, _ := x.interval(); l == nil || l.Cmp(lo) < 0 {
			if !st.decide(Cond{x.Sub(constB(lo)), '+'}) {
				st.event(Event{kind: "narrow", n: x, str: from.String() + "->" + to.String()})
				return st.modRange(x, tb, ts)
			}
		}
		if _, h := x.interval(); h == nil || h.Cmp(hi) > 0 {
			if !st.decide(Cond{constB(hi).Sub(x), '+'}) {
				st.event(Event{kind: "narrow", n: x, str: from.String() + "->" + to.String()})
				return st.modRange(x, tb, ts)
			}
		}
		return x
	case Ptr:
		if isUintptrT(to) {
			x.isUint = true
			return x
		}
		if isPtrLike(to) {
			x.isUint = false
			return x
		}
	case Str:
		if s, ok := to.Underlying().(*types.Slice); ok {
			n := strLen(x)
			r := st.newRegion("bytes of string", "fresh", n)
			r.rawName = "strbytes:" + valKey(x)
			r.elem = s.Elem()
			if sizeof(s.Elem()) != 1 {
				undecided("string to rune slice")
			}
			return Slice{Ptr{r: r.id, off: polyZero}, n, n}
		}
		return x
	case Slice:
		if isStringT(to) {
			return Str{op: "ofbytes", parts: []Value{Bytes{x.len, st.sliceContent(x)}}, n: x.len}
		}
		return x
	case Bool:
		return x
	case Iface, Opaque, Closure:
		return x
	}
	undecided("conversion of %s from %s to %s", showVal(v), from, to)
	return nil
}

func (st *State) modRange(x *Poly, bits int, signed bool) *Poly {
	m := constB(pow2tab[bits])
	if st.proveGe(x, polyZero) || st.decide(Cond{x, '+'}) {
		r := mkMod(x, m)
		if !signed {
			return r
		}
		_, hi := typeRange(bits, true)
		if st.decide(Cond{constB(hi).Sub(r), '+'}) {
			return r
		}
		return r.Sub(m)
	}
	if !signed {
		y := x.Add(m)
		if st.decide(Cond{y, '+'}) {
			return y
		}
	}
	undecided("conversion of out-of-range value %s", x)
	return nil
}

// sliceContent returns the byte content of a byte slice.
func (st *State) sliceContent(s Slice) []Seg {
	if s.len.isZero() || s.p.r < 0 {
		return nil
	}
	return st.readBytes(s.p.r, s.p.off, s.len)
}

// builtin implements Go builtins and unsafe helpers.
func (st *State) builtin(name string, c *ssa.CallCommon, args []Value) []Value {
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case Slice:
			if name == "len" {
				return []Value{x.len}
			}
			return []Value{x.cap}
		case Str:
			return []Value{strLen(x)}
		case Bytes:
			return []Value{x.n}
		case Ptr:
			if pt, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
				if at, ok := pt.Elem().Underlying().(*types.Array); ok {
					return []Value{constP(at.Len())}
				}
			}
		case Agg:
			if at, ok := x.t.Underlying().(*types.Array); ok {
				return []Value{constP(at.Len())}
			}
		}
	case "append":
		return []Value{st.appendOp(c, args)}
	case "copy":
		return []Value{st.copyOp(c, args)}
	case "min", "max":
		cur, ok := args[0].(*Poly)
		if !ok {
			break
		}
		for _, a := range args[1:] {
			y, ok := a.(*Poly)
			if !ok {
				undecided("min/max of non-integers")
			}
			less := st.decide(Cond{y.Sub(cur), '+'}) // cur <= y
			if (name == "min") != less {
				cur = y
			}
		}
		return []Value{cur}
	case "clear":
		if s, ok := args[0].(Slice); ok {
			et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			n := s.len.MulC(sizeof(et))
			if s.p.r >= 0 {
				st.access(s.p, n, true)
				st.writeBytes(s.p.r, s.p.off, n, []Seg{{n, CZero{}}})
			}
			return noResult
		}
	case "ssa:wrapnilchk":
		return []Value{args[0]}
	case "print", "println":
		return noResult
	case "Add": // unsafe.Add
		p, ok := args[0].(Ptr)
		if ok {
			p.off = p.off.Add(args[1].(*Poly))
			return []Value{p}
		}
	case "Slice": // unsafe.Slice(ptr, len)
		p, ok := args[0].(Ptr)
		n, ok2 := args[1].(*Poly)
		if ok && ok2 {
			if !st.decide(Cond{n, '+'}) {
				halt("panic", "unsafe.Slice: negative length")
			}
			return []Value{Slice{p, n, n}}
		}
	case "SliceData":
		if s, ok := args[0].(Slice); ok {
			return []Value{s.p}
		}
	case "String":
		p, ok := args[0].(Ptr)
		n, ok2 := args[1].(*Poly)
		if ok && ok2 {
			return []Value{Str{op: "ofbytes", parts: []Value{Bytes{n, st.sliceContent(Slice{p, n, n})}}, n: n}}
		}
	case "panic":
		halt("panic", "explicit panic")
	}
	undecided("builtin %s", name)
	return nil
}

func (st *State) copyOp(c *ssa.CallCommon, args []Value) Value {
	d, ok := args[0].(Slice)
	if !ok {
		undecided("copy to %s", showVal(args[0]))
	}
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	es := sizeof(et)
	var sl *Poly
	var content func(n *Poly) []Seg
	switch s := args[1].(type) {
	case Slice:
		sl = s.len
		content = func(n *Poly) []Seg {
			st.access(s.p, n, false)
			return st.readBytes(s.p.r, s.p.off, n)
		}
	case Str:
		sl = strLen(s)
		content = func(n *Poly) []Seg { return []Seg{{n, CUnk{"str:" + valKey(s)}}} }
	default:
		undecided("copy from %s", showVal(args[1]))
	}
	n := sl
	if !st.decide(Cond{d.len.Sub(sl), '+'}) {
		n = d.len
	}
	if st.proveEq(n, polyZero) || n.isZero() {
		return polyZero
	}
	if d.p.r < 0 {
		if st.decide(Cond{n, '='}) {
			return polyZero
		}
		halt("panic", "copy to nil data")
	}
	nb := n.MulC(es)
	if es != 1 {
		if _, isB := basicKindInt(et); !isB {
			return st.copyElems(d, args[1].(Slice), n, et)
		}
	}
	segs := content(nb)
	st.access(d.p, nb, true)
	st.writeBytes(d.p.r, d.p.off, nb, segs)
	return n
}

func basicKindInt(t types.Type) (int, bool) {
	bits, _, ok := basicInfo(t)
	if ok {
		return bits, true
	}
	if _, isArr := isByteArray(t); isArr {
		return 8, true
	}
	return 0, false
}

func (st *State) copyElems(d, s Slice, n *Poly, et types.Type) Value {
	c, ok := n.Int64()
	if !ok || c > 64 {
		undecided("copy of %s elements of %s", n, et)
	}
	var vals []Value
	for i := int64(0); i < c; i++ {
		vals = append(vals, st.load(Ptr{r: s.p.r, off: s.p.off.AddC(i * sizeof(et))}, et))
	}
	for i, v := range vals {
		st.store(Ptr{r: d.p.r, off: d.p.off.AddC(int64(i) * sizeof(et))}, v, et)
	}
	return n
}

// appendOp models append(s, xs...).
func (st *State) appendOp(c *ssa.CallCommon, args []Value) Value {
	s, ok := args[0].(Slice)
	if !ok {
		undecided("append to %s", showVal(args[0]))
	}
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	es := sizeof(et)
	var add *Poly
	var src Slice
	switch x := args[1].(type) {
	case Slice:
		add, src = x.len, x
	case Str:
		add = strLen(x)
		v := st.convert(x, types.Typ[types.String], types.NewSlice(types.Typ[types.Byte]))
		src = v.(Slice)
	default:
		undecided("append of %s", showVal(args[1]))
	}
	if add.isZero() {
		return s
	}
	nl := s.len.Add(add)
	inPlace := false
	if s.p.r >= 0 && st.reg(s.p.r).grow {
		inPlace = true
	} else if s.p.r < 0 {
	} else if st.proveGe(s.cap, nl) {
		inPlace = true
	} else if st.proveGe(nl, s.cap.AddC(1)) {
	} else if st.decide(Cond{s.cap.Sub(nl), '+'}) {
		inPlace = true
	}
	res := s
	if !inPlace {
		old := s
		ncap := nl
		r := st.newRegion("append", "fresh", nil)
		r.zero = true
		r.elem = et
		r.grow = st.eng.cut == nil
		if !r.grow {
			r.size = nl.MulC(es)
		}
		st.event(Event{kind: "alloc", n: nl, m: constP(es), str: "append"})
		res = Slice{Ptr{r: r.id, off: polyZero}, nl, ncap}
		if !old.len.isZero() && old.p.r >= 0 {
			st.copyData(res.p, old.p, old.len, et)
		}
	} else {
		res.len = nl
		if st.reg(s.p.r).grow {
			res.cap = nl
		}
	}
	dst := Ptr{r: res.p.r, off: res.p.off.Add(s.len.MulC(es))}
	if src.p.r >= 0 {
		st.access(dst, add.MulC(es), true)
		if st.reg(dst.r).seq == nil {
			if _, ok := add.Int64(); !ok && seqRecord(et) && (!dst.off.isZero() || len(st.reg(dst.r).writes) > 0) {
				st.putWrite(dst.r, &Write{off: dst.off, size: add.MulC(es), segs: []Seg{{add.MulC(es), CUnk{st.fresh("seq")}}}})
			} else {
				st.copyData(dst, src.p, add, et)
			}
		}
	}
	ev := Event{kind: "append", ptr: dst, n: add, m: constP(es), objs: []Value{s, src, res}}
	if seqRecord(et) {
		ev.elems = st.elems(src, et)
	}
	st.event(ev)
	return res
}

// copyData moves n elements of type et without bounds checks.
func (st *State) copyData(dst, src Ptr, n *Poly, et types.Type) {
	es := sizeof(et)
	if n.isZero() || es == 0 {
		return
	}
	if c, ok := n.Int64(); ok && c <= 16 {
		var vals []Value
		for i := int64(0); i < c; i++ {
			vals = append(vals, st.loadAt(src.r, src.off.AddC(i*es), et))
		}
		for i, v := range vals {
			st.storeAt(dst.r, dst.off.AddC(int64(i)*es), v, et)
		}
		return
	}
	if _, isB := basicKindInt(et); isB {
		nb := n.MulC(es)
		st.writeBytes(dst.r, dst.off, nb, st.readBytes(src.r, src.off, nb))
		return
	}
	// whole-slice copy of a sequence into an empty growing region: share the contents lazily
	st.lazyCopy(dst, src, n, et)
}

// lazyCopy makes reads of [dst, dst+n*es) refer to the content of src at this moment.
func (st *State) lazyCopy(dst, src Ptr, n *Poly, et types.Type) {
	d := st.wreg(dst.r)
	if len(d.writes) > 0 || d.initFn != nil || !dst.off.isZero() {
		undecided("copy of %s elements of %s", n, et)
	}
	sr := st.reg(src.r)
	frozen := *sr
	frozen.gen = newGen()
	soff := src.off
	d.initFn = func(s *State, r *Region, off *Poly, size int64, t types.Type) Value {
		// read through to the frozen source
		tmp := frozen
		id := len(s.regs)
		tmp.id = id
		tmp.gen = newGen()
		s.regs = append(s.regs, &tmp)
		return s.loadScalar(id, soff.Add(off), size, t)
	}
	d.zero = false
	d.size = nil
}
