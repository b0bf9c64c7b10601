package checks

import (
	"fmt"
	"go/types"

	"verif/analyzer/ai"
)

// same is the condition, within g, under which two values of the same program differ. Pointers
// and slices are followed.
func (r *run) same(g ai.Node, a, b ai.Value, depth int) (ai.Node, string) {
	in := r.in
	if g == ai.F || depth > 14 {
		return ai.F, ""
	}
	switch x := a.(type) {
	case *ai.BV:
		y, ok := b.(*ai.BV)
		if !ok || len(x.Bits) != len(y.Bits) {
			return g, "another kind of value"
		}
		return in.B.And(g, in.B.Not(in.Eq(x, y))), "another number"
	case *ai.Agg:
		y, ok := b.(*ai.Agg)
		if !ok || len(x.Elems) != len(y.Elems) {
			return g, "another kind of value"
		}
		bad, why := ai.F, ""
		for k := range x.Elems {
			d, w := r.same(g, x.Elems[k], y.Elems[k], depth+1)
			if d != ai.F {
				bad, why = in.B.Or(bad, d), fmt.Sprintf("part %d: %s", k, w)
			}
		}
		return bad, why
	case *ai.Alts:
		y, ok := b.(*ai.Alts)
		if !ok {
			return g, "another kind of value"
		}
		bad, why := ai.F, ""
		for _, p := range in.Prune(x, g) {
			h := in.B.And(g, p.G)
			for _, q := range in.Prune(y, h) {
				d, w := r.sameAtom(in.B.And(h, q.G), p.V, q.V, depth)
				if d != ai.F {
					bad, why = in.B.Or(bad, d), w
				}
			}
		}
		return bad, why
	}
	if a == nil && b == nil {
		return ai.F, ""
	}
	return g, fmt.Sprintf("value of kind %T", a)
}

func (r *run) sameAtom(g ai.Node, a, b ai.Atom, depth int) (ai.Node, string) {
	in := r.in
	if a.Key() == b.Key() {
		return ai.F, ""
	}
	switch x := a.(type) {
	case *ai.Poly:
		if y, ok := b.(*ai.Poly); ok {
			d, _ := in.PolyDiffer(x, y, g)
			return d, "another number"
		}
	case *ai.Str:
		if y, ok := b.(*ai.Str); ok {
			return textDiffer(in, ai.Single(x), ai.Single(y), g)
		}
	case ai.IfaceA:
		y, ok := b.(ai.IfaceA)
		if ok && x.Typ != nil && y.Typ != nil && types.Identical(x.Typ, y.Typ) {
			return r.same(g, x.V, y.V, depth+1)
		}
		return g, "another type"
	case ai.PtrA:
		y, ok := b.(ai.PtrA)
		if ok && x.Obj != 0 && y.Obj != 0 {
			return r.same(g, in.Deref(r.st, x), in.Deref(r.st, y), depth+1)
		}
		return g, "another pointer"
	case ai.SliceA:
		y, ok := b.(ai.SliceA)
		if !ok || x.Arr.Obj == 0 || y.Arr.Obj == 0 {
			return g, "another slice"
		}
		bad := in.B.And(g, in.B.Not(in.Eq(x.Len, y.Len)))
		if bad != ai.F {
			return bad, "another length"
		}
		ex, ey := r.elems(x, g), r.elems(y, g)
		if len(ex) != len(ey) {
			return g, "another length"
		}
		why := ""
		for k := range ex {
			d, w := r.same(ex[k].g, ex[k].v, ey[k].v, depth+1)
			if d != ai.F {
				bad, why = in.B.Or(bad, d), w
			}
		}
		return bad, why
	}
	return g, "another value"
}
