package main

// Contracts of everything outside the analysed module (standard library,
// reader, writer, hash function, element codecs).

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type externFn func(st *State, x ssa.Instruction, args []Value) []Value

var externs map[string]externFn
var opaqueInvokes map[string]func(st *State, x ssa.Instruction, r Opaque, args []Value) []Value

const streamR = "R"

func bAtom(op string, args ...*Poly) *Poly { return mkAtom(op, bigZero, bigOne, args...) }
func szAtom(op string, args ...*Poly) *Poly {
	return mkAtom(op, bigZero, sizeHi, args...)
}

// cntAtom: the number of struct fields or field records; their descriptions fit in memory.
func cntAtom(op string, args ...*Poly) *Poly {
	return mkAtom(op, bigZero, pow2tab[36], args...)
}

func errVal(key string) Opaque { return Opaque{kind: "err", key: key} }

func (st *State) newErr(why string) Value {
	return errVal(st.fresh(why))
}

// ---------------------------------------------------------------- reflect

type rtypeInfo struct{ t types.Type }

var rtypeTab = map[string]types.Type{}

func rtypeOf(t types.Type) Opaque {
	k := "go:" + types.TypeString(t, nil)
	rtypeTab[k] = t
	return Opaque{kind: "rtype", key: k}
}

func rtElem(o Opaque) Opaque {
	if t, ok := rtypeTab[o.key]; ok {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return rtypeOf(u.Elem())
		case *types.Slice:
			return rtypeOf(u.Elem())
		case *types.Array:
			return rtypeOf(u.Elem())
		}
	}
	if strings.HasPrefix(o.key, "P(") && strings.HasSuffix(o.key, ")") {
		return Opaque{kind: "rtype", key: o.key[2 : len(o.key)-1], args: o.args}
	}
	return Opaque{kind: "rtype", key: o.key + ".E", args: o.args}
}

func rtPtr(o Opaque) Opaque {
	if t, ok := rtypeTab[o.key]; ok {
		return rtypeOf(types.NewPointer(t))
	}
	return Opaque{kind: "rtype", key: "P(" + o.key + ")", args: o.args}
}

var kindOfBasic = map[types.BasicKind]int64{types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6,
	types.Uint: 7, types.Uint8: 8, types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.Uintptr: 12, types.Float32: 13, types.Float64: 14,
	types.Complex64: 15, types.Complex128: 16, types.String: 24, types.UnsafePointer: 26}

const (
	kBool = 1
	kU8   = 8
	kU16  = 9
	kU32  = 10
	kU64  = 11
	kArr  = 17
	kPtr  = 22
	kSl   = 23
	kStr  = 25
)

func kindNum(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return kindOfBasic[u.Kind()]
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func rtKind(o Opaque) *Poly {
	if t, ok := rtypeTab[o.key]; ok {
		return constP(kindNum(t))
	}
	if strings.HasPrefix(o.key, "P(") {
		return constP(kPtr)
	}
	return mkAtom("Kind:"+o.key, bigZero, big.NewInt(26), o.args...)
}

func rtSize(o Opaque) *Poly {
	if t, ok := rtypeTab[o.key]; ok {
		return constP(sizeof(t))
	}
	if strings.HasPrefix(o.key, "P(") {
		return constP(8)
	}
	return szAtom("TypSize:"+o.key, o.args...)
}

func rtLen(o Opaque) *Poly {
	if t, ok := rtypeTab[o.key]; ok {
		if a, ok := t.Underlying().(*types.Array); ok {
			return constP(a.Len())
		}
	}
	return szAtom("TypLen:"+o.key, o.args...)
}

var kindSizes = map[int64]int64{1: 1, 2: 8, 3: 1, 4: 2, 5: 4, 6: 8, 7: 8, 8: 1, 9: 2, 10: 4, 11: 8, 12: 8, 22: 8, 23: 24, 24: 16, 20: 16, 21: 8, 19: 8, 18: 8}

func opRest(op string) string {
	if i := strings.IndexAny(op, ":@"); i >= 0 {
		return op[i+1:]
	}
	return ""
}

func init() {
	axiomTab["TypSize"] = func(f *Facts, a *Atom) []Con {
		key := opRest(a.op)
		k := mkAtom("Kind:"+key, bigZero, big.NewInt(26), a.args...)
		v, ok := f.knownAtom(k.SingleAtom())
		if !ok || !v.IsInt64() {
			return nil
		}
		if s, ok := kindSizes[v.Int64()]; ok {
			return []Con{{atomP(a).AddC(-s), true}}
		}
		if v.Int64() == kArr {
			o := Opaque{kind: "rtype", key: key, args: a.args}
			return []Con{{atomP(a).Sub(rtLen(o).Mul(rtSize(rtElem(o)))), true}}
		}
		return nil
	}
}

func (e *Engine) reflectType(name string) types.Type {
	p := e.prog.ImportedPackage("reflect")
	if p == nil {
		return nil
	}
	if m := p.Type(name); m != nil {
		return m.Type()
	}
	return nil
}

func (st *State) structFieldAgg(o Opaque, i *Poly) Value {
	t := st.eng.reflectType("StructField")
	if t == nil {
		undecided("reflect.StructField not available")
	}
	u := t.Underlying().(*types.Struct)
	offs := fieldOffsets(u)
	a := Agg{t: t}
	ft := Opaque{kind: "rtype", key: o.key + ".F", args: append(append([]*Poly{}, o.args...), i)}
	for j := 0; j < u.NumFields(); j++ {
		f := u.Field(j)
		var v Value
		switch f.Name() {
		case "Name":
			v = Str{op: "fieldName:" + o.key, parts: []Value{i}}
		case "PkgPath":
			v = Str{op: "fieldPkg:" + o.key, parts: []Value{i}}
		case "Tag":
			v = Str{op: "fieldTag:" + o.key, parts: []Value{i}}
		case "Type":
			v = ft
		case "Offset":
			v = szAtom("FieldOff:"+o.key, ft.args...)
		case "Anonymous":
			v = boolAtom(bAtom("Anon:"+o.key, ft.args...))
		case "Index":
			v = Slice{nilPtr, polyZero, polyZero}
		default:
			v = zeroValue(f.Type())
		}
		a.cells = append(a.cells, AggCell{offs[j], sizeof(f.Type()), f.Type(), v})
	}
	return a
}

func (st *State) asRType(v Value) Opaque {
	if o, ok := v.(Opaque); ok && o.kind == "rtype" {
		return o
	}
	undecided("expected a reflect.Type, got %s", showVal(v))
	return Opaque{}
}

// ---------------------------------------------------------------- readers

// limited unwraps *io.LimitedReader values.
func (st *State) limited(v Value) (Ptr, bool) {
	i, ok := v.(Iface)
	if !ok || i.t == nil {
		return Ptr{}, false
	}
	if i.t.String() != "*io.LimitedReader" {
		return Ptr{}, false
	}
	p, ok := i.v.(Ptr)
	return p, ok
}

var tInt64 = types.Typ[types.Int64]

func (st *State) anyIfaceT() types.Type { return types.NewInterfaceType(nil, nil) }

// take consumes n bytes from reader r; returns ok=false if the reader fails or ends early.
func (st *State) take(r Value, n *Poly) (bool, *Poly) {
	var chain []Ptr
	for {
		p, ok := st.limited(r)
		if !ok {
			break
		}
		chain = append(chain, p)
		if len(chain) > 12 {
			undecided("reader chain too deep")
		}
		r = st.loadAt(p.r, p.off, st.anyIfaceT())
	}
	o, ok := r.(Opaque)
	if !ok || o.kind != "reader" {
		undecided("read from %s", showVal(r))
	}
	pos := st.ghostGet("pos:" + o.key)
	for _, p := range chain {
		lim, ok := st.loadAt(p.r, p.off.AddC(16), tInt64).(*Poly)
		if !ok {
			undecided("limited reader state")
		}
		if !st.decide(Cond{lim.Sub(n), '+'}) {
			// the limit is reached before n bytes
			st.event(Event{kind: "short", n: n, m: lim})
			return false, pos
		}
	}
	fail := bAtom(st.fresh("ioerr"))
	if st.decide(Cond{fail.AddC(-1), '='}) {
		st.event(Event{kind: "ioerr", n: n})
		return false, pos
	}
	for _, p := range chain {
		lim := st.loadAt(p.r, p.off.AddC(16), tInt64).(*Poly)
		st.storeAt(p.r, p.off.AddC(16), lim.Sub(n), tInt64)
	}
	st.ghostSet("pos:"+o.key, pos.Add(n))
	st.event(Event{kind: "consume", n: n, m: pos, str: o.key})
	return true, pos
}

func (st *State) readFull(r Value, buf Slice) (Value, Value) {
	n := buf.len
	if n.isZero() || st.decide(Cond{n, '='}) {
		return polyZero, Iface{}
	}
	ok, pos := st.take(r, n)
	if !ok {
		got := mkAtom(st.fresh("shortn"), bigZero, sizeHi)
		st.assume(Cond{n.Sub(got).AddC(-1), '+'})
		// the bytes received before the failure are unspecified
		if buf.p.r >= 0 {
			st.access(buf.p, n, true)
			st.writeBytes(buf.p.r, buf.p.off, n, []Seg{{n, CUnk{st.fresh("partial")}}})
		}
		return got, errVal(st.fresh("io"))
	}
	st.access(buf.p, n, true)
	st.writeBytes(buf.p.r, buf.p.off, n, []Seg{{n, CIn{streamR, pos}}})
	return n, Iface{}
}

// skipN discards n bytes.
func (st *State) skipN(r Value, n *Poly) (Value, Value) {
	if n.isZero() {
		return polyZero, Iface{}
	}
	if !st.decide(Cond{n.AddC(-1), '+'}) {
		return polyZero, Iface{}
	}
	ok, _ := st.take(r, n)
	if !ok {
		got := mkAtom(st.fresh("shortn"), bigZero, sizeHi)
		st.assume(Cond{n.Sub(got).AddC(-1), '+'})
		return got, errVal(st.fresh("io"))
	}
	return n, Iface{}
}

// plainRead is one call of io.Reader.Read, with all outcomes the io.Reader contract permits.
func (st *State) plainRead(r Value, buf Slice) []Value {
	n := buf.len
	if n.isZero() || st.decide(Cond{n, '='}) {
		return []Value{polyZero, Iface{}}
	}
	eof := bAtom(st.fresh("eofdata"))
	part := bAtom(st.fresh("partial"))
	if st.decide(Cond{part.AddC(-1), '='}) {
		// fewer bytes than asked for, no error
		got := mkAtom(st.fresh("readn"), bigZero, sizeHi)
		st.assume(Cond{n.Sub(got).AddC(-1), '+'})
		if st.decide(Cond{got, '='}) {
			return []Value{polyZero, Iface{}}
		}
		ok, pos := st.take(r, got)
		if !ok {
			return []Value{polyZero, errVal(st.fresh("io"))}
		}
		st.access(buf.p, got, true)
		st.writeBytes(buf.p.r, buf.p.off, got, []Seg{{got, CIn{streamR, pos}}})
		return []Value{got, Iface{}}
	}
	a, b := st.readFull(r, buf)
	if i, ok := b.(Iface); ok && i.t == nil {
		if st.decide(Cond{eof.AddC(-1), '='}) {
			return []Value{a, errVal("io.EOF")}
		}
	}
	return []Value{a, b}
}

// ---------------------------------------------------------------- writers

func (st *State) doWrite(o Opaque, p Slice) []Value {
	segs := st.sliceContent(p)
	if p.p.r >= 0 {
		st.access(p.p, p.len, false)
	}
	if o.key == "discard" || o.key == "print" {
		return []Value{p.len, Iface{}}
	}
	cnt := st.ghostGet("wr:" + o.key)
	fail := bAtom(st.fresh("wrerr"))
	if st.decide(Cond{fail.AddC(-1), '='}) {
		got := mkAtom(st.fresh("wrn"), bigZero, sizeHi)
		st.assume(Cond{p.len.Sub(got), '+'})
		st.ghostSet("wr:"+o.key, cnt.Add(got))
		er := errVal(st.fresh("werr"))
		st.event(Event{kind: "wrerr", n: p.len, segs: segs, str: o.key, val: er})
		return []Value{got, er}
	}
	st.ghostSet("wr:"+o.key, cnt.Add(p.len))
	st.event(Event{kind: "write", n: p.len, m: cnt, segs: segs, str: o.key})
	return []Value{p.len, Iface{}}
}

// ---------------------------------------------------------------- element codecs (assume-guarantee)

func childKey(o Opaque) string { return o.key }

func chAtom(op string, o Opaque) *Poly {
	if op == "IsFixed" {
		return bAtom(op+":"+o.key, o.args...)
	}
	return szAtom(op+":"+o.key, o.args...)
}

func ptrSuffix(p Ptr) string { return fmt.Sprintf("@r%d", p.r) }

func sizeOfAtom(o Opaque, p Ptr) *Poly {
	return szAtom("SizeOf:"+o.key+ptrSuffix(p), append(append([]*Poly{}, o.args...), p.off)...)
}

func init() {
	chFrom := func(a *Atom, n int) Opaque {
		k := opRest(a.op)
		if i := strings.Index(k, "@"); i >= 0 {
			k = k[:i]
		}
		return Opaque{kind: "ssz", key: k, args: a.args[:n]}
	}
	ax := func(f *Facts, a *Atom) []Con {
		o := chFrom(a, len(a.args))
		return childAxioms(f, o)
	}
	for _, op := range []string{"FixedLen", "MinLen", "MaxLen", "FuzzMinLen", "FuzzMaxLen"} {
		axiomTab[op] = ax
	}
	axiomTab["SizeOf"] = func(f *Facts, a *Atom) []Con {
		o := chFrom(a, len(a.args)-1)
		fx := chAtom("IsFixed", o)
		if f.knownIs(fx, 1) {
			return []Con{{atomP(a).Sub(chAtom("FixedLen", o)), true}}
		}
		return nil
	}
}

// seqOwner: the type whose fields a record sequence describes.
var seqOwner = map[string]Opaque{}

func init() {
	// every record of a container addresses memory of its type; established for every append
	// that builds such a sequence (rule C22)
	axiomTab["FieldPtr"] = func(f *Facts, a *Atom) []Con {
		k := opRest(a.op)
		n := len(a.args)
		if n == 0 {
			return nil
		}
		var owner Opaque
		if strings.HasPrefix(k, "SQ:S:") {
			owner = Opaque{kind: "rtype", key: strings.TrimPrefix(k, "SQ:S:"), args: a.args[:n-1]}
		} else if o, ok := seqOwner[k]; ok {
			owner = o
		} else {
			return nil
		}
		m := szAtom("MemSize:"+k, a.args...)
		return []Con{{rtSize(owner).Sub(atomP(a)).Sub(m), false}}
	}
	axiomTab["FieldOff"] = func(f *Facts, a *Atom) []Con {
		k := opRest(a.op)
		if len(a.args) != 1 {
			return nil
		}
		return []Con{{rtSize(Opaque{kind: "rtype", key: k}).Sub(atomP(a)).Sub(rtSize(Opaque{kind: "rtype", key: k + ".F", args: a.args})), false}}
	}
}

func childAxioms(f *Facts, o Opaque) []Con {
	fx, fl, mn, mx := chAtom("IsFixed", o), chAtom("FixedLen", o), chAtom("MinLen", o), chAtom("MaxLen", o)
	fmn, fmx := chAtom("FuzzMinLen", o), chAtom("FuzzMaxLen", o)
	out := []Con{{mn.Sub(fl), false}, {mx.Sub(mn), false}, {fmx.Sub(fmn), false}}
	if f.knownIs(fmn, 0) {
		// contract of element codecs: only a value that never takes input in fuzzing mode has minimum 0
		out = append(out, Con{fmx, true})
	}
	if f.knownIs(fx, 1) {
		out = append(out, Con{mn.Sub(fl), true}, Con{mx.Sub(fl), true}, Con{fmn.Sub(fl), true}, Con{fmx.Sub(fl), true})
	}
	return out
}

func (e *Engine) method(pkgSuffix, typ, name string) *ssa.Function {
	for path, p := range e.pkgs {
		if strings.HasSuffix(path, "/"+pkgSuffix) || path == pkgSuffix {
			m := p.Type(typ)
			if m == nil {
				return nil
			}
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := e.prog.MethodSets.MethodSet(t)
				if sel := ms.Lookup(p.Pkg, name); sel != nil {
					return e.prog.MethodValue(sel)
				}
			}
		}
	}
	return nil
}

func (e *Engine) fnByName(pkgSuffix, name string) *ssa.Function {
	for path, p := range e.pkgs {
		if (pkgSuffix == "" && path == e.modPath) || (pkgSuffix != "" && strings.HasSuffix(path, "/"+pkgSuffix)) {
			return p.Func(name)
		}
	}
	return nil
}

// inline evaluates a function that must have a single outcome in st.
func (st *State) inline(fn *ssa.Function, args ...Value) []Value {
	if fn == nil {
		undecided("required function not found")
	}
	saveW := st.watch
	outs := st.eng.Call(st, fn, args, nil)
	var ok *Outcome
	for _, o := range outs {
		if o.kind != "return" {
			undecided("%s: %s", fn, o.reason)
		}
		if ok != nil {
			undecided("%s has several outcomes", fn)
		}
		ok = o
	}
	if ok == nil {
		undecided("%s has no outcome", fn)
	}
	gen := st.gen
	*st = *ok.st
	_ = gen
	st.watch = saveW
	return ok.res
}

func (st *State) dr(name string, dr Value) Value {
	m := st.eng.method("dec", "DecodingReader", name)
	if m == nil {
		undecided("DecodingReader.%s not found", name)
	}
	r := st.inline(m, dr)
	return r[0]
}

func init() {
	type H = func(st *State, x ssa.Instruction, r Opaque, args []Value) []Value
	opaqueInvokes = map[string]H{}
	// --- reflect.Type
	opaqueInvokes["rtype.Kind"] = func(st *State, x ssa.Instruction, r Opaque, args []Value) []Value {
		return []Value{rtKind(r)}
	}
	opaqueInvokes["rtype.Elem"] = func(st *State, x ssa.Instruction, r Opaque, args []Value) []Value {
		return []Value{rtElem(r)}
	}
	opaqueInvokes["rtype.Len"] = func(st *State, x ssa.Instruction, r Opaque, args []Value) []Value {
		return []Value{rtLen(r)}
	}
	opaqueInvokes["rtype.Size"] = func(st *State, x ssa.Instruction, r Opaque, args []Value) []Value {
		return []Value{rtSize(r)}
	}
	opaqueInvokes["rtype.NumField"] = func(st *State, x ssa.Instruction, r Opaque, args []Value) []Value {
		return []Value{cntAtom("NumField:"+r.key, r.args...)}
	}
	opaqueInvokes["rtype.Field"] = func(st *State, x ssa.Instruction, r Opaque, args []Value) []Value {
		i := args[0].(*Poly)
		n := cntAtom("NumField:"+r.key, r.args...)
		if !st.decide(Cond{i, '+'}) || !st.decide(Cond{n.Sub(i).AddC(-1), '+'}) {
			halt("panic", "reflect: Field index out of range")
		}
		return []Value{st.structFieldAgg(r, i)}
	}
	for _, nm := range []string{"String", "Name", "PkgPath"} {
		nm := nm
		opaqueInvokes["rtype."+nm] = func(st *State, x ssa.Instruction, r Opaque, args []Value) []Value {
			return []Value{Str{op: "rt" + nm + ":" + r.Key()}}
		}
	}
	opaqueInvokes["rtype.Implements"] = func(st *State, x ssa.Instruction, r Opaque, args []Value) []Value {
		u := st.asRType(args[0])
		return []Value{boolAtom(implAtom(r, u))}
	}
	// --- zero instances of user types
	opaqueInvokes["any.Limit"] = func(st *State, x ssa.Instruction, r Opaque, args []Value) []Value {
		if !strings.HasPrefix(r.key, "zero:") {
			undecided("Limit of %s", r)
		}
		t := Opaque{kind: "rtype", key: strings.TrimPrefix(r.key, "zero:"), args: r.args}
		return []Value{szAtom("Limit:"+rtElem(t).key, r.args...)}
	}
	opaqueInvokes["any.BitLen"] = func(st *State, x ssa.Instruction, r Opaque, args []Value) []Value {
		if !strings.HasPrefix(r.key, "zero:") {
			undecided("BitLen of %s", r)
		}
		t := Opaque{kind: "rtype", key: strings.TrimPrefix(r.key, "zero:"), args: r.args}
		return []Value{szAtom("BitLen:"+rtElem(t).key, r.args...)}
	}
	opaqueInvokes["err.Error"] = func(st *State, x ssa.Instruction, r Opaque, args []Value) []Value {
		return []Value{Str{op: "errtext:" + r.key}}
	}
	// --- io
	opaqueInvokes["reader.Read"] = func(st *State, x ssa.Instruction, r Opaque, args []Value) []Value {
		return st.plainRead(r, args[0].(Slice))
	}
	opaqueInvokes["writer.Write"] = func(st *State, x ssa.Instruction, r Opaque, args []Value) []Value {
		return st.doWrite(r, args[0].(Slice))
	}
	// --- hash function
	opaqueInvokes["hasher.Combi"] = func(st *State, x ssa.Instruction, r Opaque, args []Value) []Value {
		a, b := args[0].(Bytes), args[1].(Bytes)
		if st.eng.cut != nil {
			return []Value{blob(st.eng.cut.combi(st, st.eng.cut.termOf(a), st.eng.cut.termOf(b)))}
		}
		h := &HTerm{op: "combi", key: segsKey(a.segs) + "||" + segsKey(b.segs), fn: r}
		st.event(Event{kind: "combi", objs: []Value{a, b}})
		return []Value{blob(h)}
	}
	opaqueInvokes["hasher.MixIn"] = func(st *State, x ssa.Instruction, r Opaque, args []Value) []Value {
		a, n := args[0].(Bytes), args[1].(*Poly)
		h := &HTerm{op: "mixin", n: []*Poly{n}, fn: r}
		if t := wholeBlob(a); t != nil {
			h.args = []*HTerm{t}
		} else {
			h.key = segsKey(a.segs)
		}
		return []Value{blob(h)}
	}
	// --- element codecs
	for _, nm := range []string{"FixedLen", "MinLen", "MaxLen", "FuzzMinLen", "FuzzMaxLen"} {
		nm := nm
		opaqueInvokes["ssz."+nm] = func(st *State, x ssa.Instruction, r Opaque, args []Value) []Value {
			if (nm == "MinLen" || nm == "MaxLen") && st.facts.entails(Con{chAtom("IsFixed", r).AddC(-1), false}) {
				return []Value{chAtom("FixedLen", r)} // contract of fixed-size types
			}
			return []Value{chAtom(nm, r)}
		}
	}
	opaqueInvokes["ssz.IsFixed"] = func(st *State, x ssa.Instruction, r Opaque, args []Value) []Value {
		return []Value{boolAtom(chAtom("IsFixed", r))}
	}
	opaqueInvokes["ssz.SizeOf"] = func(st *State, x ssa.Instruction, r Opaque, args []Value) []Value {
		p := args[0].(Ptr)
		st.event(Event{kind: "child", str: "SizeOf", val: r, ptr: p})
		return []Value{sizeOfAtom(r, p)}
	}
	opaqueInvokes["ssz.HashTreeRoot"] = func(st *State, x ssa.Instruction, r Opaque, args []Value) []Value {
		p := args[1].(Ptr)
		st.event(Event{kind: "child", str: "HashTreeRoot", val: r, ptr: p, val2: args[0]})
		return []Value{blob(childRoot(r, p, args[0]))}
	}
	opaqueInvokes["ssz.SigningRoot"] = func(st *State, x ssa.Instruction, r Opaque, args []Value) []Value {
		p := args[1].(Ptr)
		st.event(Event{kind: "child", str: "SigningRoot", val: r, ptr: p, val2: args[0]})
		h := childRoot(r, p, args[0])
		h.op = "sig"
		return []Value{blob(h)}
	}
	opaqueInvokes["ssz.Pretty"] = func(st *State, x ssa.Instruction, r Opaque, args []Value) []Value {
		p := args[2].(Ptr)
		st.event(Event{kind: "child", str: "Pretty", val: r, ptr: p})
		return noResult
	}
	opaqueInvokes["ssz.Encode"] = func(st *State, x ssa.Instruction, r Opaque, args []Value) []Value {
		p := args[1].(Ptr)
		n := sizeOfAtom(r, p)
		st.event(Event{kind: "child", str: "Encode", val: r, ptr: p, n: n})
		g := st.newRegion("encoded", "scratch", n)
		st.writeBytes(g.id, polyZero, n, []Seg{{n, CBlob{h: encTerm(r, p), from: polyZero}}})
		m := st.eng.method("enc", "EncodingWriter", "Write")
		if m == nil {
			undecided("EncodingWriter.Write not found")
		}
		st.pushFrame(m, []Value{args[0], Slice{Ptr{r: g.id, off: polyZero}, n, n}}, nil, x, nil)
		return nil
	}
	opaqueInvokes["ssz.Decode"] = func(st *State, x ssa.Instruction, r Opaque, args []Value) []Value {
		return st.childDecode(x, r, args[0], args[1].(Ptr), "Decode")
	}
	opaqueInvokes["ssz.DryCheck"] = func(st *State, x ssa.Instruction, r Opaque, args []Value) []Value {
		return st.childDecode(x, r, args[0], nilPtr, "DryCheck")
	}
	opaqueInvokes["ssz.SquashFields"] = func(st *State, x ssa.Instruction, r Opaque, args []Value) []Value {
		return []Value{st.eng.squashSeq(st, x, r)}
	}
}

func blob(h *HTerm) Bytes {
	return Bytes{constP(32), []Seg{{constP(32), CBlob{h, polyZero}}}}
}

func wholeBlob(b Bytes) *HTerm {
	if len(b.segs) == 1 {
		if c, ok := b.segs[0].c.(CBlob); ok && c.from.isZero() {
			return c.h
		}
	}
	return nil
}

func childRoot(r Opaque, p Ptr, h Value) *HTerm {
	return &HTerm{op: "htr", key: r.key + ptrSuffix(p), n: append(append([]*Poly{}, r.args...), p.off), fn: h}
}

func encTerm(r Opaque, p Ptr) *HTerm {
	return &HTerm{op: "enc", key: r.key + ptrSuffix(p), n: append(append([]*Poly{}, r.args...), p.off)}
}

func implAtom(r, u Opaque) *Poly {
	if t, ok := rtypeTab[r.key]; ok {
		if it, ok := rtypeTab[u.key]; ok {
			if i, ok := it.Underlying().(*types.Interface); ok {
				if types.Implements(t, i) {
					return polyOne
				}
				return polyZero
			}
		}
	}
	return bAtom("Impl:"+u.key+":"+r.key, r.args...)
}

// childDecode is the contract every element codec is separately checked to satisfy.
func (st *State) childDecode(x ssa.Instruction, r Opaque, dr Value, p Ptr, op string) []Value {
	fuzz := false
	if b, ok := st.dr("IsFuzzMode", dr).(Bool); ok {
		fuzz = st.decide(b.c)
	} else {
		undecided("fuzz mode of reader")
	}
	idx, ok1 := st.dr("Index", dr).(*Poly)
	mx, ok2 := st.dr("Max", dr).(*Poly)
	if !ok1 || !ok2 {
		undecided("reader bounds")
	}
	span := mx.Sub(idx)
	pos := st.ghostGet("pos:" + streamR)
	fixed := st.decide(Cond{chAtom("IsFixed", r).AddC(-1), '='})
	ev := Event{kind: "child", str: op, val: r, ptr: p, n: pos, m: span, objs: []Value{idx, mx, dr, boolC(fuzz), boolC(fixed)}}
	st.event(ev)
	var c *Poly
	args := func(extra ...*Poly) []*Poly {
		return append(append([]*Poly{}, r.args...), extra...)
	}
	if fuzz {
		// sufficient input: success; insufficient: unspecified
		need := chAtom("FuzzMinLen", r)
		if !st.decide(Cond{span.Sub(need), '+'}) {
			st.event(Event{kind: "fuzzshort", n: span, m: need, val: r})
			return []Value{st.newErr("childerr")}
		}
		if fixed {
			c = chAtom("FixedLen", r)
		} else {
			c = szAtom("fuzzused:"+r.key, args(pos, span)...)
			st.assume(Cond{span.Sub(c), '+'})
		}
	} else {
		bspan := span
		if fixed {
			bspan = chAtom("FixedLen", r)
		}
		bad := bAtom("bad:"+r.key, args(pos, bspan)...)
		if fixed {
			c = bspan
		} else {
			c = szAtom("used:"+r.key, args(pos, span)...)
		}
		if !fixed || st.proveGe(span, c) {
			if st.decide(Cond{bad.AddC(-1), '='}) {
				st.event(Event{kind: "childbad", val: r, n: pos, m: bspan})
				return []Value{st.newErr("childerr")}
			}
		}
		if !fixed {
			st.assume(Cond{span.Sub(c), '+'})
			// a variable-size element that is read to the end of its scope occupies at least its minimum
		}
	}
	g := st.newRegion("childbuf", "scratch", c)
	m := st.eng.method("dec", "DecodingReader", "Read")
	if m == nil {
		undecided("DecodingReader.Read not found")
	}
	st.pushFrame(m, []Value{dr, Slice{Ptr{r: g.id, off: polyZero}, c, c}}, nil, x, func(s *State, res []Value) []Value {
		er := res[len(res)-1]
		if i, ok := er.(Iface); ok && i.t == nil {
			s.event(Event{kind: "childok", str: op, val: r, ptr: p, n: pos, m: c})
			if fixed && !fuzz {
				bad := bAtom("bad:"+r.key, args(pos, chAtom("FixedLen", r))...)
				if s.decide(Cond{bad.AddC(-1), '='}) {
					return []Value{s.newErr("childerr")}
				}
			}
			if p.r >= 0 && op == "Decode" {
				sz := s.eng.childMem(r)
				s.event(Event{kind: "childstore", ptr: p, n: sz, val: r})
				s.writeBytes(p.r, p.off, sz, []Seg{{sz, CChild{"dec:" + r.Key(), pos.Key() + "/" + c.Key()}}})
			}
		}
		return []Value{er}
	})
	return nil
}

// childMem is the in-memory size of the Go type an element codec was built for.
func (e *Engine) childMem(r Opaque) *Poly {
	if strings.HasPrefix(r.key, "S:") {
		return rtSize(Opaque{kind: "rtype", key: r.key[2:], args: r.args})
	}
	return szAtom("MemSize:"+r.key, r.args...)
}

// opaqueCall calls a function value that is only known by contract.
func (st *State) opaqueCall(f Opaque, args []Value) []Value {
	switch {
	case f.key == "factory":
		t := st.asRType(args[0])
		if st.decide(Cond{bAtom("facterr:"+t.key, t.args...).AddC(-1), '='}) {
			st.event(Event{kind: "facterr", val: t})
			return []Value{Iface{}, errVal("factory:" + t.Key())}
		}
		return []Value{sszOf(t), Iface{}}
	case f.key == "hashfn":
		s, ok := args[0].(Slice)
		if !ok {
			break
		}
		return []Value{blob(hashOf("hfn", st.sliceContent(s)))}
	case strings.HasPrefix(f.key, "fieldptr:"):
		p, ok := args[0].(Ptr)
		if ok {
			p.off = p.off.Add(szAtom("FieldPtr:"+strings.TrimPrefix(f.key, "fieldptr:"), f.args...))
			return []Value{p}
		}
	case f.key == "leaf":
		n, ok := args[0].(*Poly)
		if c := st.eng.cut; ok && c != nil {
			if c.probe {
				undecided("leaf-probe")
			}
			c.leaves[st.where()] = true
			if !st.entailsCond(geC(c.count, n.AddC(1))) {
				c.problem(st, "asks for leaf %s, which may not exist", n)
			}
			r := st.newRegion("leaf", "scratch", constP(32))
			st.writeBytes(r.id, polyZero, constP(32), blob(hNode(0, n)).segs)
			return []Value{Slice{Ptr{r: r.id, off: polyZero}, constP(32), constP(32)}}
		}
		if ok {
			r := st.newRegion("leaf", "scratch", constP(32))
			st.writeBytes(r.id, polyZero, constP(32), blob(&HTerm{op: "leaf", n: []*Poly{n}}).segs)
			st.event(Event{kind: "leaf", n: n})
			return []Value{Slice{Ptr{r: r.id, off: polyZero}, constP(32), constP(32)}}
		}
	}
	undecided("call of unknown function value %s", f)
	return nil
}

func sszOf(t Opaque) Opaque { return Opaque{kind: "ssz", key: "S:" + t.key, args: t.args} }

var internTab = map[string]int{}

func hashOf(op string, segs []Seg) *HTerm {
	k := op + segsKey(segs)
	id, ok := internTab[k]
	if !ok {
		id = len(internTab)
		internTab[k] = id
	}
	return &HTerm{op: op, key: fmt.Sprintf("#%d", id)}
}

// assertCond decides a type assertion on an opaque value.
func (st *State) assertCond(o Opaque, t types.Type) *Poly {
	if o.kind == "any" && strings.HasPrefix(o.key, "zero:") {
		r := Opaque{kind: "rtype", key: strings.TrimPrefix(o.key, "zero:"), args: o.args}
		return implAtom(r, rtypeOf(t))
	}
	return bAtom("is:"+o.kind+":"+o.key+":"+t.String(), o.args...)
}

// ---------------------------------------------------------------- standard library

func argPoly(v Value) *Poly {
	p, ok := v.(*Poly)
	if !ok {
		undecided("expected integer argument, got %s", showVal(v))
	}
	return p
}

func argSlice(v Value) Slice {
	s, ok := v.(Slice)
	if !ok {
		undecided("expected slice argument, got %s", showVal(v))
	}
	return s
}

func putUint(n int, order byte) externFn {
	return func(st *State, x ssa.Instruction, args []Value) []Value {
		s := argSlice(args[len(args)-2])
		v := argPoly(args[len(args)-1])
		if !st.decide(Cond{s.len.AddC(-int64(n)), '+'}) {
			halt("panic", "PutUint: buffer too short")
		}
		st.access(s.p, constP(int64(n)), true)
		st.writeBytes(s.p.r, s.p.off, constP(int64(n)), []Seg{{constP(int64(n)), CInt{v, n, order, 0}}})
		return noResult
	}
}

func getUint(n int, order byte) externFn {
	return func(st *State, x ssa.Instruction, args []Value) []Value {
		s := argSlice(args[len(args)-1])
		if !st.decide(Cond{s.len.AddC(-int64(n)), '+'}) {
			halt("panic", "Uint: buffer too short")
		}
		st.access(s.p, constP(int64(n)), false)
		return []Value{st.intFromSegs(st.readBytes(s.p.r, s.p.off, constP(int64(n))), n, order)}
	}
}

func bitLen(bits int, f func(n int64) int64) externFn {
	return func(st *State, x ssa.Instruction, args []Value) []Value {
		p := argPoly(args[0])
		for k := 0; k <= bits; k++ {
			if st.decide(Cond{constB(pow2tab[k]).Sub(p).AddC(-1), '+'}) { // p < 2^k
				return []Value{constP(f(int64(k)))}
			}
		}
		undecided("bits.Len")
		return nil
	}
}

func init() {
	X := map[string]externFn{}
	externs = X
	mkErr := func(st *State, x ssa.Instruction, args []Value) []Value {
		return []Value{st.newErr("err")}
	}
	X["fmt.Errorf"] = mkErr
	X["errors.New"] = mkErr
	X["errors.Is"] = func(st *State, x ssa.Instruction, args []Value) []Value {
		return []Value{st.ifaceEq(args[0], args[1])}
	}
	str := func(st *State, x ssa.Instruction, args []Value) []Value {
		return []Value{Str{op: st.fresh("str")}}
	}
	X["fmt.Sprintf"] = str
	X["fmt.Sprint"] = str
	X["strconv.FormatUint"] = str
	X["strconv.Itoa"] = str
	X["encoding/hex.EncodeToString"] = str
	X["io.WriteString"] = func(st *State, x ssa.Instruction, args []Value) []Value {
		if o, ok := args[0].(Opaque); ok && o.kind == "writer" && o.key == "print" {
			return []Value{strLen(args[1].(Str)), Iface{}}
		}
		undecided("io.WriteString")
		return nil
	}
	for _, n := range []string{"fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln"} {
		X[n] = func(st *State, x ssa.Instruction, args []Value) []Value {
			if o, ok := args[0].(Opaque); ok && o.kind == "writer" && o.key == "print" {
				return []Value{mkAtom(st.fresh("printed"), bigZero, sizeHi), Iface{}}
			}
			undecided("print to another writer")
			return nil
		}
	}
	X["strings.Repeat"] = func(st *State, x ssa.Instruction, args []Value) []Value {
		if !st.decide(Cond{argPoly(args[1]), '+'}) {
			halt("panic", "strings.Repeat: negative count")
		}
		return []Value{Str{op: "repeat", parts: args}}
	}
	X["runtime.KeepAlive"] = func(st *State, x ssa.Instruction, args []Value) []Value { return noResult }
	X["io.LimitReader"] = func(st *State, x ssa.Instruction, args []Value) []Value {
		r := st.newRegion("LimitedReader", "fresh", constP(24))
		r.zero = true
		st.putWrite(r.id, &Write{off: polyZero, size: constP(16), val: args[0], t: st.anyIfaceT()})
		st.putWrite(r.id, &Write{off: constP(16), size: constP(8), val: argPoly(args[1]), t: tInt64})
		pkg := st.eng.prog.ImportedPackage("io")
		if pkg == nil || pkg.Type("LimitedReader") == nil {
			undecided("io.LimitedReader not available")
		}
		return []Value{Iface{types.NewPointer(pkg.Type("LimitedReader").Type()), Ptr{r: r.id, off: polyZero}}}
	}
	X["(*io.LimitedReader).Read"] = func(st *State, x ssa.Instruction, args []Value) []Value {
		pkg := st.eng.prog.ImportedPackage("io")
		lr := Iface{types.NewPointer(pkg.Type("LimitedReader").Type()), args[0]}
		return st.plainRead(lr, argSlice(args[1]))
	}
	X["io.ReadFull"] = func(st *State, x ssa.Instruction, args []Value) []Value {
		a, b := st.readFull(args[0], argSlice(args[1]))
		return []Value{a, b}
	}
	X["io.ReadAtLeast"] = func(st *State, x ssa.Instruction, args []Value) []Value {
		s := argSlice(args[1])
		if !st.proveEq(s.len, argPoly(args[2])) {
			undecided("io.ReadAtLeast with slack")
		}
		a, b := st.readFull(args[0], s)
		return []Value{a, b}
	}
	X["io.CopyN"] = func(st *State, x ssa.Instruction, args []Value) []Value {
		if o, ok := args[0].(Opaque); !ok || o.key != "discard" {
			undecided("io.CopyN to %s", showVal(args[0]))
		}
		a, b := st.skipN(args[1], argPoly(args[2]))
		return []Value{a, b}
	}
	ioCopy := func(st *State, x ssa.Instruction, args []Value) []Value {
		if o, ok := args[0].(Opaque); !ok || o.key != "discard" {
			undecided("io.Copy to %s", showVal(args[0]))
		}
		p, ok := st.limited(args[1])
		if !ok {
			undecided("io.Copy from %s", showVal(args[1]))
		}
		n, ok := st.loadAt(p.r, p.off.AddC(16), tInt64).(*Poly)
		if !ok {
			undecided("limited reader state")
		}
		if n.isZero() || !st.decide(Cond{n.AddC(-1), '+'}) {
			return []Value{polyZero, Iface{}}
		}
		if ok, _ := st.take(args[1], n); ok {
			return []Value{n, Iface{}}
		}
		got := mkAtom(st.fresh("shortn"), bigZero, sizeHi)
		st.assume(Cond{n.Sub(got).AddC(-1), '+'})
		if st.decide(Cond{bAtom(st.fresh("ended")).AddC(-1), '='}) {
			// the end of the input is not an error here
			return []Value{got, Iface{}}
		}
		return []Value{got, errVal(st.fresh("io"))}
	}
	X["io.Copy"], X["io.CopyBuffer"] = ioCopy, ioCopy
	for _, n := range []int{2, 4, 8} {
		nm := fmt.Sprintf("int%d", n*8)
		X["(encoding/binary.littleEndian).PutU"+nm] = putUint(n, 'L')
		X["(encoding/binary.bigEndian).PutU"+nm] = putUint(n, 'B')
		X["(encoding/binary.nativeEndian).PutU"+nm] = putUint(n, 'N')
		X["(encoding/binary.littleEndian).U"+nm] = getUint(n, 'L')
		X["(encoding/binary.bigEndian).U"+nm] = getUint(n, 'B')
		X["(encoding/binary.nativeEndian).U"+nm] = getUint(n, 'N')
	}
	for _, b := range []int{8, 16, 32, 64} {
		b := b
		X[fmt.Sprintf("math/bits.Len%d", b)] = bitLen(b, func(n int64) int64 { return n })
		X[fmt.Sprintf("math/bits.LeadingZeros%d", b)] = bitLen(b, func(n int64) int64 { return int64(b) - n })
	}
	X["math/bits.Len"] = X["math/bits.Len64"]
	X["math/bits.LeadingZeros"] = X["math/bits.LeadingZeros64"]
	X["crypto/sha256.Sum256"] = func(st *State, x ssa.Instruction, args []Value) []Value {
		return []Value{blob(hashOf("sha", st.sliceContent(argSlice(args[0]))))}
	}
	X["reflect.TypeOf"] = func(st *State, x ssa.Instruction, args []Value) []Value {
		switch v := args[0].(type) {
		case Iface:
			if v.t != nil {
				return []Value{rtypeOf(v.t)}
			}
		case Opaque:
			return []Value{Opaque{kind: "rtype", key: "dyn:" + v.key, args: v.args}}
		}
		undecided("reflect.TypeOf(%s)", showVal(args[0]))
		return nil
	}
	ptrTo := func(st *State, x ssa.Instruction, args []Value) []Value { return []Value{rtPtr(st.asRType(args[0]))} }
	X["reflect.PtrTo"] = ptrTo
	X["reflect.PointerTo"] = ptrTo
	X["reflect.New"] = func(st *State, x ssa.Instruction, args []Value) []Value {
		t := st.asRType(args[0])
		r := st.newRegion("reflect.New", "heap", rtSize(t))
		r.zero = true
		r.rawName = ""
		st.event(Event{kind: "new", n: rtSize(t), val: t})
		return []Value{Opaque{kind: "rvalue", key: "P(" + t.key + ")", args: t.args, val: Ptr{r: r.id, off: polyZero}}}
	}
	X["reflect.Zero"] = func(st *State, x ssa.Instruction, args []Value) []Value {
		t := st.asRType(args[0])
		return []Value{Opaque{kind: "rvalue", key: "Z(" + t.key + ")", args: t.args}}
	}
	X["(reflect.Value).Elem"] = func(st *State, x ssa.Instruction, args []Value) []Value {
		o, ok := args[0].(Opaque)
		if ok && o.kind == "rvalue" && strings.HasPrefix(o.key, "P(") {
			return []Value{Opaque{kind: "rvalue", key: "Z(" + o.key[2:], args: o.args, val: o.val}}
		}
		undecided("reflect.Value.Elem of %s", showVal(args[0]))
		return nil
	}
	X["(reflect.Value).Interface"] = func(st *State, x ssa.Instruction, args []Value) []Value {
		o, ok := args[0].(Opaque)
		if ok && o.kind == "rvalue" && strings.HasPrefix(o.key, "Z(") {
			return []Value{Opaque{kind: "any", key: "zero:" + o.key[2:len(o.key)-1], args: o.args}}
		}
		if ok && o.kind == "rvalue" && strings.HasPrefix(o.key, "P(") {
			// pointer to a zero value of the type: same method set as a nil pointer
			return []Value{Opaque{kind: "any", key: "zero:" + o.key, args: o.args}}
		}
		undecided("reflect.Value.Interface of %s", showVal(args[0]))
		return nil
	}
	vptr := func(st *State, x ssa.Instruction, args []Value) []Value {
		o, ok := args[0].(Opaque)
		if ok && o.kind == "rvalue" {
			if p, ok := o.val.(Ptr); ok {
				p.isUint = true
				return []Value{p}
			}
		}
		undecided("reflect.Value.Pointer of %s", showVal(args[0]))
		return nil
	}
	X["(reflect.Value).Pointer"] = vptr
	X["(reflect.Value).UnsafePointer"] = vptr
	X["(reflect.Value).UnsafeAddr"] = vptr
	X["reflect.MakeSlice"] = func(st *State, x ssa.Instruction, args []Value) []Value {
		t := st.asRType(args[0])
		l, c := argPoly(args[1]), argPoly(args[2])
		if !st.decide(Cond{l, '+'}) || !st.decide(Cond{c.Sub(l), '+'}) {
			halt("panic", "reflect.MakeSlice: negative length")
		}
		es := rtSize(rtElem(t))
		st.event(Event{kind: "alloc", n: c, m: es, str: "reflect.MakeSlice"})
		r := st.newRegion("MakeSlice", "heap", c.Mul(es))
		r.zero = true
		return []Value{Opaque{kind: "rvalue", key: "S(" + t.key + ")", args: t.args, val: Ptr{r: r.id, off: polyZero}}}
	}
	X["(reflect.StructTag).Lookup"] = func(st *State, x ssa.Instruction, args []Value) []Value {
		k := valKey(args[0]) + "/" + valKey(args[1])
		return []Value{Str{op: "tag:" + k}, boolAtom(bAtom("hastag:" + k))}
	}
	X["(reflect.StructTag).Get"] = func(st *State, x ssa.Instruction, args []Value) []Value {
		k := valKey(args[0]) + "/" + valKey(args[1])
		return []Value{Str{op: "tag:" + k}}
	}
}

// squashSeq: the fields an element codec reports for squashing (opaque sequence).
func (e *Engine) squashSeq(st *State, x ssa.Instruction, r Opaque) Value {
	sig := callSig(x)
	if sig == nil || sig.Results().Len() != 1 {
		undecided("result type of SquashFields")
	}
	sl, ok := sig.Results().At(0).Type().Underlying().(*types.Slice)
	if !ok {
		undecided("SquashFields does not return a slice")
	}
	n := cntAtom("NSQ:"+r.key, r.args...)
	g := st.newRegion("squash", "desc", n.MulC(sizeof(sl.Elem())))
	g.elem = sl.Elem()
	g.seq = &Seq{key: "SQ:" + r.key, args: r.args, es: sizeof(sl.Elem()), flagOK: true, ptrOK: true, offAt: offsetCell(sl.Elem())}
	return Slice{Ptr{r: g.id, off: polyZero}, n, n}
}

func callSig(x ssa.Instruction) *types.Signature {
	if c, ok := x.(ssa.CallInstruction); ok {
		return c.Common().Signature()
	}
	return nil
}

// pureText: functions of the text packages that have no effect and return numbers, strings or booleans,
// given strings and numbers.
func (st *State) pureText(fn *ssa.Function, args []Value) (out []Value) {
	if fn.Pkg == nil || fn.Signature.Recv() != nil {
		return nil
	}
	switch fn.Pkg.Pkg.Path() {
	case "strings", "strconv", "unicode", "unicode/utf8":
	default:
		return nil
	}
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		if _, ok := fn.Signature.Params().At(i).Type().Underlying().(*types.Basic); !ok {
			return nil
		}
	}
	if fn.Name() == "Repeat" {
		return nil
	}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		t := fn.Signature.Results().At(i).Type()
		b, ok := t.Underlying().(*types.Basic)
		switch {
		case !ok:
			return nil
		case b.Info()&types.IsString != 0:
			out = append(out, Str{op: st.fresh("str")})
		case b.Kind() == types.Bool:
			out = append(out, boolAtom(bAtom(st.fresh("text"))))
		case b.Kind() == types.Int:
			out = append(out, mkAtom(st.fresh("text"), big.NewInt(-1), sizeHi))
		default:
			return nil
		}
	}
	return out
}
