package main

// Abstract values.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

// Cond is an atomic condition: op '=' p==0, '!' p!=0, '+' p>=0.
type Cond struct {
	p  *Poly
	op byte
}

func (c Cond) Not() Cond {
	switch c.op {
	case '=':
		return Cond{c.p, '!'}
	case '!':
		return Cond{c.p, '='}
	}
	return Cond{c.p.Neg().AddC(-1), '+'}
}

func (c Cond) String() string {
	switch c.op {
	case '=':
		return c.p.String() + " == 0"
	case '!':
		return c.p.String() + " != 0"
	}
	return c.p.String() + " >= 0"
}

type Bool struct{ c Cond }

func boolC(b bool) Bool {
	if b {
		return Bool{Cond{polyZero, '='}}
	}
	return Bool{Cond{polyOne, '='}}
}

// boolAtom: true iff the 0/1 atom is 1.
func boolAtom(p *Poly) Bool { return Bool{Cond{p.AddC(-1), '='}} }

type Ptr struct {
	r      int // region id, -1 = nil
	off    *Poly
	nilAt  *Poly // boolean atom: 1 = this pointer is nil
	isUint bool
}

type Slice struct {
	p        Ptr
	len, cap *Poly
}

type Str struct {
	s     string
	isC   bool
	op    string
	parts []Value // opaque identity arguments
	n     *Poly
}

type Iface struct {
	t types.Type // nil = nil interface
	v Value
}

type Opaque struct {
	kind string // "ssz","rtype","reader","writer","hasher","func","err","any"
	key  string
	args []*Poly
	t    types.Type
	val  Value
}

func (o Opaque) Key() string {
	s := o.kind + ":" + o.key
	if len(o.args) > 0 {
		var as []string
		for _, a := range o.args {
			as = append(as, a.Key())
		}
		s += "(" + strings.Join(as, ",") + ")"
	}
	return s
}

func (o Opaque) String() string {
	s := o.key
	if len(o.args) > 0 {
		var as []string
		for _, a := range o.args {
			as = append(as, a.String())
		}
		s += "[" + strings.Join(as, ",") + "]"
	}
	return s
}

type Closure struct {
	fn   *ssa.Function // nil = nil func
	free []Value
}

// Box stands for the address of a variable that is never assigned again; it holds its value.
type Box struct{ v Value }

type Builtin struct{ name string }

type AggCell struct {
	off, size int64
	t         types.Type
	v         Value
}

// Agg is a loaded struct or non-byte array.
type Agg struct {
	t     types.Type
	cells []AggCell
}

type Tuple []Value

// ---- byte contents

type Content interface{ CKey() string }

type CZero struct{}
type CRaw struct { // initial bytes of a region
	r   int
	off *Poly
}
type CIn struct { // bytes of an input stream
	s   string
	pos *Poly
}
type CInt struct { // bytes [from,from+cnt) of an n-byte integer in the given order
	v     *Poly
	n     int
	order byte // 'L','B','N'
	from  int
}
type CBlob struct { // bytes of a 32-byte hash value
	h    *HTerm
	from *Poly
}
type CChild struct { // the encoding of a child element
	what string
	key  string
}
type CUnk struct{ id string }

func (c CZero) CKey() string  { return "zero" }
func (c CRaw) CKey() string   { return fmt.Sprintf("raw(r%d,%s)", c.r, c.off) }
func (c CIn) CKey() string    { return fmt.Sprintf("in(%s,%s)", c.s, c.pos) }
func (c CInt) CKey() string   { return fmt.Sprintf("int%c%d(%s)@%d", c.order, c.n, c.v, c.from) }
func (c CBlob) CKey() string  { return fmt.Sprintf("hash(%s)@%s", c.h.Key(), c.from) }
func (c CChild) CKey() string { return fmt.Sprintf("%s(%s)", c.what, c.key) }
func (c CUnk) CKey() string   { return "unk(" + c.id + ")" }

type Seg struct {
	n *Poly
	c Content
}

// Bytes is the value of a byte array.
type Bytes struct {
	n    *Poly
	segs []Seg
}

func segsKey(segs []Seg) string {
	var sb strings.Builder
	for i, s := range segs {
		if i > 0 {
			sb.WriteString(" ++ ")
		}
		fmt.Fprintf(&sb, "%s[%s]", s.c.CKey(), s.n)
	}
	return sb.String()
}

// HTerm is a symbolic 32-byte hash value.
type HTerm struct {
	op   string // "combi","mixin","merkle","htr","sig","hfn","zh","unk"
	args []*HTerm
	n    []*Poly
	key  string
	leaf Value // merkle: leaf closure
	fn   Value // hasher
	kids string
}

func (h *HTerm) Key() string {
	var sb strings.Builder
	sb.WriteString(h.op)
	if h.key != "" {
		sb.WriteString(":" + h.key)
	}
	if h.fn != nil {
		if o, ok := h.fn.(Opaque); ok {
			sb.WriteString("<" + o.Key() + ">")
		} else {
			fmt.Fprintf(&sb, "<%T>", h.fn)
		}
	}
	sb.WriteString("(")
	for _, a := range h.args {
		sb.WriteString(a.Key() + ",")
	}
	for _, a := range h.n {
		sb.WriteString(a.String() + ",")
	}
	sb.WriteString(")")
	return sb.String()
}

func mapPolyH(h *HTerm, f func(*Poly) *Poly) *HTerm {
	if h == nil {
		return nil
	}
	n := &HTerm{op: h.op, key: h.key, leaf: h.leaf, fn: h.fn, kids: h.kids}
	for _, a := range h.args {
		n.args = append(n.args, mapPolyH(a, f))
	}
	for _, a := range h.n {
		n.n = append(n.n, f(a))
	}
	if h.leaf != nil {
		n.leaf = mapPoly(h.leaf, f)
	}
	return n
}

func mapContent(c Content, f func(*Poly) *Poly) Content {
	switch c := c.(type) {
	case CRaw:
		return CRaw{c.r, f(c.off)}
	case CIn:
		return CIn{c.s, f(c.pos)}
	case CInt:
		return CInt{f(c.v), c.n, c.order, c.from}
	case CBlob:
		return CBlob{mapPolyH(c.h, f), f(c.from)}
	}
	return c
}

func mapSegs(s []Seg, f func(*Poly) *Poly) []Seg {
	out := make([]Seg, len(s))
	for i, x := range s {
		out[i] = Seg{f(x.n), mapContent(x.c, f)}
	}
	return out
}

func mapPolys(a []*Poly, f func(*Poly) *Poly) []*Poly {
	if len(a) == 0 {
		return a
	}
	out := make([]*Poly, len(a))
	for i, x := range a {
		out[i] = f(x)
	}
	return out
}

// mapPoly applies f to every polynomial inside v.
func mapPoly(v Value, f func(*Poly) *Poly) Value {
	switch v := v.(type) {
	case nil:
		return nil
	case *Poly:
		return f(v)
	case Bool:
		return Bool{Cond{f(v.c.p), v.c.op}}
	case Ptr:
		if v.off != nil {
			v.off = f(v.off)
		}
		if v.nilAt != nil {
			v.nilAt = f(v.nilAt)
		}
		return v
	case Slice:
		return Slice{mapPoly(v.p, f).(Ptr), f(v.len), f(v.cap)}
	case Str:
		n := v
		if v.n != nil {
			n.n = f(v.n)
		}
		if len(v.parts) > 0 {
			n.parts = nil
			for _, p := range v.parts {
				n.parts = append(n.parts, mapPoly(p, f))
			}
		}
		return n
	case Iface:
		return Iface{v.t, mapPoly(v.v, f)}
	case Opaque:
		v.args = mapPolys(v.args, f)
		return v
	case Box:
		return Box{mapPoly(v.v, f)}
	case Closure:
		if len(v.free) == 0 {
			return v
		}
		n := Closure{fn: v.fn}
		for _, x := range v.free {
			n.free = append(n.free, mapPoly(x, f))
		}
		return n
	case Builtin:
		return v
	case Agg:
		n := Agg{t: v.t}
		for _, c := range v.cells {
			n.cells = append(n.cells, AggCell{c.off, c.size, c.t, mapPoly(c.v, f)})
		}
		return n
	case Tuple:
		n := make(Tuple, len(v))
		for i, x := range v {
			n[i] = mapPoly(x, f)
		}
		return n
	case Bytes:
		return Bytes{f(v.n), mapSegs(v.segs, f)}
	case SeqElem:
		if v.off != nil {
			v.off = f(v.off)
		}
		v.ssz, v.flag, v.name = mapPoly(v.ssz, f), mapPoly(v.flag, f), mapPoly(v.name, f)
		return v
	}
	return v
}

// valKey is a structural identity of a value.
func valKey(v Value) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case *Poly:
		return v.Key()
	case Bool:
		return string(v.c.op) + v.c.p.Key()
	case Ptr:
		if v.r < 0 {
			return "nilptr"
		}
		k := fmt.Sprintf("&%d+%s", v.r, v.off.Key())
		if v.nilAt != nil {
			k += "?" + v.nilAt.Key()
		}
		return k
	case Slice:
		return "[" + valKey(v.p) + ";" + v.len.Key() + ";" + v.cap.Key() + "]"
	case Str:
		if v.isC {
			return fmt.Sprintf("%q", v.s)
		}
		k := "str:" + v.op
		for _, p := range v.parts {
			k += "," + valKey(p)
		}
		return k
	case Iface:
		if v.t == nil {
			return "niliface"
		}
		return "if<" + v.t.String() + ">" + valKey(v.v)
	case Opaque:
		return v.Key()
	case Box:
		return "box(" + valKey(v.v) + ")"
	case Closure:
		if v.fn == nil {
			return "nilfn"
		}
		k := "fn:" + v.fn.String()
		for _, x := range v.free {
			k += "," + valKey(x)
		}
		return k
	case Agg:
		k := "{"
		for _, c := range v.cells {
			k += fmt.Sprintf("%d:%s;", c.off, valKey(c.v))
		}
		return k + "}"
	case Tuple:
		k := "("
		for _, x := range v {
			k += valKey(x) + ","
		}
		return k + ")"
	case Bytes:
		return "bytes[" + segsKey(v.segs) + "]"
	case Builtin:
		return v.name
	}
	return fmt.Sprintf("%T", v)
}

func showVal(v Value) string {
	switch v := v.(type) {
	case *Poly:
		return v.String()
	case Bool:
		return v.c.String()
	case Ptr:
		if v.r < 0 {
			return "nil"
		}
		return fmt.Sprintf("&r%d+(%s)", v.r, v.off)
	case Slice:
		return fmt.Sprintf("slice(%s,len %s)", showVal(v.p), v.len)
	case Opaque:
		return v.String()
	case SeqElem:
		return fmt.Sprintf("{%s +%v %s}", showVal(v.ssz), v.off, showVal(v.flag))
	case Iface:
		if v.t == nil {
			return "nil"
		}
		return "iface(" + showVal(v.v) + ")"
	}
	return valKey(v)
}
