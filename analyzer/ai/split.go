package ai

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// mayHold says whether the text of a piece may contain a separator.
func mayHold(s Seg, sep string) bool {
	switch x := s.(type) {
	case Lit:
		return strings.Contains(string(x), sep)
	case Nest:
		for _, a := range x.A.A {
			st, ok := a.V.(*Str)
			if !ok {
				return true
			}
			for _, q := range st.Segs {
				if mayHold(q, sep) {
					return true
				}
			}
		}
		return false
	case Fmt:
		if b, ok := x.V.(*BV); ok {
			return b == nil || strings.Trim(sep, "0123456789abcdefxtrulsABCDEFX+- ") == ""
		}
		if isFloat(x.Typ) {
			return strings.Trim(sep, "0123456789.eE+-NaInf") == ""
		}
	case Char:
		return len(sep) != 1 || sep[0] >= 0x20
	}
	return true
}

// unnest gives a text as alternatives in which no nested choice holds the separator.
func (in *Interp) unnest(a *Alts, g Node, sep string) ([]Alt, bool) {
	var out []Alt
	todo := in.strAlts(a, g)
	for len(todo) > 0 {
		x := todo[0]
		todo = todo[1:]
		segs := x.V.(*Str).Segs
		k := -1
		for i, s := range segs {
			if n, ok := s.(Nest); ok && mayHold(n, sep) {
				k = i
				break
			}
		}
		if k < 0 {
			out = append(out, Alt{x.G, &Str{Segs: normSegs(segs)}})
			if len(out) > 64 {
				return nil, false
			}
			continue
		}
		for _, y := range segs[k].(Nest).A.A {
			gg := in.B.And(x.G, y.G)
			if gg == F {
				continue
			}
			st, ok := y.V.(*Str)
			if !ok {
				st = &Str{Segs: []Seg{OpaqueSeg(y.V.Key())}}
			}
			n := append(append(append([]Seg{}, segs[:k]...), st.Segs...), segs[k+1:]...)
			todo = append(todo, Alt{gg, &Str{Segs: n}})
		}
		if len(todo) > 256 {
			return nil, false
		}
	}
	return out, true
}

// splitText cuts the text of one alternative at a separator.
func splitText(s *Str, sep string) ([][]Seg, bool) {
	out := [][]Seg{nil}
	for _, q := range s.Segs {
		l, ok := q.(Lit)
		if !ok {
			if mayHold(q, sep) {
				return nil, false
			}
			out[len(out)-1] = append(out[len(out)-1], q)
			continue
		}
		for i, p := range strings.Split(string(l), sep) {
			if i > 0 {
				out = append(out, nil)
			}
			if p != "" {
				out[len(out)-1] = append(out[len(out)-1], Lit(p))
			}
		}
	}
	return out, true
}

// ascii says whether all characters are below 128.
func (in *Interp) ascii(cs []*BV) bool {
	for _, c := range cs {
		if c.Bits[7] != F {
			return false
		}
	}
	return true
}

func splitModel(in *Interp, fr *frame, instr ssa.Instruction, fn *ssa.Function, args []Value) (Value, bool) {
	sep, ok := in.constStr(in.alts(args[1]))
	if x := in.strAlts(in.alts(args[0]), fr.st.PC); ok && sep == "" && len(x) == 1 {
		if l, cs, ok := in.charsOf(x[0].V); ok && in.ascii(cs) {
			a := &Agg{}
			for _, c := range cs {
				a.Elems = append(a.Elems, single(&Str{Segs: normSegs([]Seg{Char{V: c}})}))
			}
			n := in.Int(64, int64(l))
			id := in.NewObject(fr.st, in.allocKind(), "split", types.NewArray(types.Typ[types.String], int64(l)), a)
			return single(SliceA{Arr: PtrA{Obj: id}, Len: n, Cap: n}), true
		}
	}
	if ok && len(sep) == 1 {
		if al, ok := in.unnest(in.alts(args[0]), fr.st.PC, sep); ok {
			var r []Alt
			good := true
			for _, x := range al {
				ps, ok := splitText(x.V.(*Str), sep)
				if !ok {
					good = false
					break
				}
				a := &Agg{}
				for _, p := range ps {
					a.Elems = append(a.Elems, single(&Str{Segs: normSegs(p)}))
				}
				n := in.Int(64, int64(len(ps)))
				id := in.NewObject(fr.st, in.allocKind(), "split", types.NewArray(types.Typ[types.String], int64(len(ps))), a)
				r = in.addAlt(r, x.G, SliceA{Arr: PtrA{Obj: id}, Len: n, Cap: n})
			}
			if good {
				return &Alts{r}, true
			}
		}
	}
	return in.unknownList(fr, fn, args), true
}

// unknownList is a list of texts of which nothing is known but the arguments it comes from.
func (in *Interp) unknownList(fr *frame, fn *ssa.Function, args []Value) Value {
	k := fn.Name()
	for _, a := range args {
		k += "," + ValKey(a)
	}
	return in.FreshSlice(types.Typ[types.String], fmt.Sprintf("%s(%s)", fn.Name(), k), fr.st, -1, "local")
}

// replaceModel is strings.ReplaceAll with constant one-byte text to replace.
func replaceModel(in *Interp, fr *frame, instr ssa.Instruction, fn *ssa.Function, args []Value) (Value, bool) {
	if len(args) > 3 {
		if n, ok := asInt(args[3].(*BV)); !ok || n >= 0 {
			return nil2(in, fr, instr, fn)
		}
	}
	old, ok := in.constStr(in.alts(args[1]))
	al, ok2 := in.unnest(in.alts(args[0]), fr.st.PC, old)
	if !ok || len(old) != 1 || !ok2 {
		return single(&Str{Segs: []Seg{OpaqueSeg("replace(" + ValKey(args[0]) + ValKey(args[1]) + ValKey(args[2]) + ")")}}), true
	}
	var r []Alt
	for _, x := range al {
		ps, ok := splitText(x.V.(*Str), old)
		if !ok {
			r = in.addAlt(r, x.G, &Str{Segs: []Seg{OpaqueSeg("replace(" + x.V.Key() + ValKey(args[1]) + ValKey(args[2]) + ")")}})
			continue
		}
		var segs []Seg
		for k, p := range ps {
			if k > 0 {
				segs = append(segs, in.asSegs(in.alts(args[2]), x.G)...)
			}
			segs = append(segs, p...)
		}
		r = in.addAlt(r, x.G, &Str{Segs: normSegs(segs)})
	}
	return &Alts{r}, true
}

// splits says whether a function cuts a text into a list.
func splits(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil {
					switch fnName(f) {
					case "strings.Split", "strings.SplitN", "strings.SplitAfter":
						return true
					}
				}
			}
		}
	}
	return false
}

// byText interprets a function that cuts a text once for each form of the text, so that the
// number of pieces is known, and joins the results.
func (in *Interp) byText(fn *ssa.Function, args, binds []Value, st *State) (Value, *State, bool) {
	if len(fn.Blocks) == 0 || !splits(fn) {
		return nil, nil, false
	}
	for k, p := range fn.Params {
		if !isString(p.Type()) {
			continue
		}
		al, ok := in.unnest(in.alts(args[k]), st.PC, "\n")
		if !ok || len(al) < 2 || len(al) > 32 {
			continue
		}
		var rv Value
		var rs *State
		for _, x := range al {
			s2 := st.clone()
			s2.PC = in.B.And(st.PC, x.G)
			if s2.PC == F {
				continue
			}
			a2 := append([]Value{}, args...)
			a2[k] = single(x.V)
			v, out := in.callBody(fn, a2, binds, s2)
			if out == nil || out.PC == F {
				continue
			}
			if rs == nil {
				rv, rs = v, out
				continue
			}
			if rv != nil || v != nil {
				rv = in.Merge(rs.PC, rv, v)
			}
			rs = &State{in.B.Or(rs.PC, out.PC), in.mergeHeap(rs.PC, rs.Heap, out.Heap)}
		}
		return rv, rs, true
	}
	return nil, nil, false
}
