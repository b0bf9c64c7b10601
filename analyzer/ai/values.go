// Package ai is an abstract interpreter over go/ssa. It makes one forward pass over
// the control flow graph, joining states at merge points (no path is enumerated and no
// solver is called). Integers are vectors of bits, each bit a canonical Boolean function
// of the input bits; floating point numbers are normalised polynomials over such bits
// and over uninterpreted terms; text is a sequence of literal pieces and formatted values.
package ai

import (
	"crypto/sha256"
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/bdd"
)

type Node = bdd.Node

const (
	F = bdd.False
	T = bdd.True
)

// Value is an abstract value: *BV, *Agg or *Alts. Values are immutable.
type Value interface{}

// BV is an integer or a boolean (width 1): least significant bit first.
type BV struct{ Bits []Node }

// Agg is a struct, an array or a tuple.
type Agg struct{ Elems []Value }

// Alt is one guarded alternative of a value that is not bit-decomposed.
type Alt struct {
	G Node
	V Atom
}

// Alts is a guarded disjoint union.
type Alts struct{ A []Alt }

// Atom is an indivisible abstract value. Equal keys mean equal values.
type Atom interface{ Key() string }

// ObjID names an abstract heap object.
type ObjID int

// PtrA is a pointer to a part of an object; Obj 0 is nil.
type PtrA struct {
	Obj  ObjID
	Path string // "/1/3"
}

func (p PtrA) Key() string { return fmt.Sprintf("p%d%s", p.Obj, p.Path) }

// SliceA is a slice of the array that Arr points to; Arr.Obj 0 is nil.
type SliceA struct {
	Arr PtrA
	Off int
	Len *BV
	Cap *BV
}

func (s SliceA) Key() string {
	return fmt.Sprintf("s%s+%d,%s,%s", s.Arr.Key(), s.Off, bvKey(s.Len), bvKey(s.Cap))
}

// IfaceA is an interface value; Typ nil is the nil interface.
type IfaceA struct {
	Typ types.Type
	V   Value
}

func (i IfaceA) Key() string {
	if i.Typ == nil {
		return "inil"
	}
	return "i<" + types.TypeString(i.Typ, nil) + ">" + ValKey(i.V)
}

// MapA is a map held in the heap; Obj 0 is nil.
type MapA struct{ Obj ObjID }

func (m MapA) Key() string { return fmt.Sprintf("m%d", m.Obj) }

// FuncA is a function value; Fn nil is nil.
type FuncA struct {
	Fn    *ssa.Function
	Binds []Value
	BI    string
}

func (f FuncA) Key() string {
	if f.Fn == nil {
		return "fnil"
	}
	s := fmt.Sprintf("f%p", f.Fn)
	for _, b := range f.Binds {
		s += "," + ValKey(b)
	}
	return s
}

// Opaque is an unknown value.
type Opaque struct {
	ID   string
	Type types.Type
}

func (o Opaque) Key() string { return "o" + o.ID }

// Str is text.
type Str struct {
	Segs []Seg
	key  string
}

// Key of a long text is a digest.
func (s *Str) Key() string {
	if s.key != "" {
		return s.key
	}
	var b strings.Builder
	b.WriteString("t")
	for _, g := range s.Segs {
		b.WriteString(g.Key())
		b.WriteByte(1)
	}
	s.key = b.String()
	if len(s.key) > 100 {
		h := sha256.Sum256([]byte(s.key))
		s.key = "h" + string(h[:])
	}
	return s.key
}

// Seg is a piece of text.
type Seg interface{ Key() string }

// Lit is literal text.
type Lit string

func (l Lit) Key() string { return "L" + string(l) }

// Fmt is a formatted value.
type Fmt struct {
	Verb string
	V    Value
	Typ  types.Type
}

func (f Fmt) Key() string { return "F" + f.Verb + numClass(f.Typ) + "(" + ValKey(f.V) + ")" }

// numClass is what the type of a number adds to the way it is printed: the
// sign of an integer, the precision of a float.
func numClass(t types.Type) string {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return ""
	}
	switch {
	case b.Kind() == types.Float32:
		return "f"
	case b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0:
		return "s"
	}
	return ""
}

// Nest is a nested choice between texts.
type Nest struct{ A *Alts }

func (n Nest) Key() string { return "N" + ValKey(n.A) }

// Char is one byte (or one rune) of text.
type Char struct {
	V    *BV
	Rune bool
}

func (c Char) Key() string { return fmt.Sprintf("C%v%s", c.Rune, bvKey(c.V)) }

// OpaqueSeg is unknown text.
type OpaqueSeg string

func (o OpaqueSeg) Key() string { return "O" + string(o) }

func bvKey(v *BV) string {
	var b strings.Builder
	b.WriteByte('b')
	for _, n := range v.Bits {
		fmt.Fprintf(&b, "%x.", n)
	}
	return b.String()
}

// ValKey is a canonical key of a value.
func ValKey(v Value) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case *BV:
		return bvKey(v)
	case *Agg:
		var b strings.Builder
		b.WriteByte('{')
		for _, e := range v.Elems {
			b.WriteString(ValKey(e))
			b.WriteByte(';')
		}
		b.WriteByte('}')
		return b.String()
	case *Alts:
		ks := make([]string, len(v.A))
		for i, a := range v.A {
			ks[i] = fmt.Sprintf("%d?%s", a.G, a.V.Key())
		}
		sort.Strings(ks)
		return "[" + strings.Join(ks, "|") + "]"
	case *LazyArr:
		return fmt.Sprintf("lazy%p", v)
	case *MapObj:
		return fmt.Sprintf("mapobj%p", v)
	}
	return fmt.Sprintf("?%T", v)
}

// LazyArr is the content of an array of unknown length: unread elements are unknown.
type LazyArr struct {
	Base *lazyBase
	Over map[int]Value
}

type lazyBase struct {
	Name string
	Elem types.Type
	Mk   func(i int) Value
	memo map[int]Value
}

// MapObj is the content of a map. Later entries override earlier ones.
type MapObj struct {
	Ents []MapEnt
	Sym  string // not empty: an unknown map of that name
	KT   types.Type
	VT   types.Type
}

type MapEnt struct {
	G Node
	K Value
	V Value
	// Del marks a deletion.
	Del bool
}

func single(a Atom) *Alts { return &Alts{[]Alt{{T, a}}} }
