package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) alts(v Value) *Alts {
	a, ok := v.(*Alts)
	if !ok {
		panic(fmt.Sprintf("alternatives expected, got %T", v))
	}
	return a
}

func (in *Interp) allocKind() string {
	if in.initing {
		return "init"
	}
	return "local"
}

// exec interprets one instruction; false: control does not continue.
func (in *Interp) exec(fr *frame, instr ssa.Instruction) bool {
	B := in.B
	switch i := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := i.Type().Underlying().(*types.Pointer).Elem()
		id := in.newObj(in.allocKind(), i.Comment, t)
		fr.st.Heap[id] = in.Zero(t)
		fr.env[i] = single(PtrA{Obj: id})
	case *ssa.BinOp:
		fr.env[i] = in.binop(fr, i)
	case *ssa.UnOp:
		x := in.val(fr, i.X)
		switch i.Op {
		case token.MUL:
			fr.env[i] = in.load(fr, i, in.alts(x), i.Type())
		case token.NOT, token.XOR:
			fr.env[i] = in.bvNot(x.(*BV))
		case token.SUB:
			if v, ok := x.(*BV); ok {
				fr.env[i] = in.bvNeg(v)
			} else {
				fr.env[i] = in.mapPoly(in.alts(x), fr.st.PC, func(p *Poly) *Poly { return in.polyScale(p, big.NewRat(-1, 1)) })
			}
		default:
			in.undecided(i, "channel receive")
			fr.env[i] = in.freshAt(fr, i, i.Type())
		}
	case *ssa.Call:
		v, ok := in.call(fr, i, &i.Call)
		if !ok {
			return false
		}
		fr.env[i] = v
	case *ssa.ChangeInterface:
		fr.env[i] = in.val(fr, i.X)
	case *ssa.ChangeType:
		fr.env[i] = in.val(fr, i.X)
	case *ssa.Convert:
		fr.env[i] = in.convert(fr, i)
	case *ssa.MakeInterface:
		fr.env[i] = single(IfaceA{i.X.Type(), in.val(fr, i.X)})
	case *ssa.MakeClosure:
		f := FuncA{Fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			f.Binds = append(f.Binds, in.val(fr, b))
		}
		fr.env[i] = single(f)
	case *ssa.MakeMap:
		m := i.Type().Underlying().(*types.Map)
		id := in.newObj(in.allocKind(), "map", i.Type())
		fr.st.Heap[id] = &MapObj{KT: m.Key(), VT: m.Elem()}
		fr.env[i] = single(MapA{id})
	case *ssa.MakeSlice:
		et := i.Type().Underlying().(*types.Slice).Elem()
		ln := in.toInt64(in.val(fr, i.Len).(*BV), i.Len.Type())
		cp := in.toInt64(in.val(fr, i.Cap).(*BV), i.Cap.Type())
		ok := B.And(B.Not(ln.Bits[63]), B.Not(in.bvLt(cp, ln, true)))
		in.obl("make-slice", i, fr.st.PC, ok, "make with a bad length")
		fr.st.PC = B.And(fr.st.PC, ok)
		n, okc := asInt(cp)
		if !okc {
			n, okc = asInt(ln)
			if !okc || n > 100000 {
				// unknown capacity: an array grown on demand, zero elsewhere
				vals, _, okf := in.feasible(cp, fr.st.PC, 64)
				if !okf {
					lb := &lazyBase{Name: "make", Elem: et, memo: map[int]Value{}}
					z := in.Zero(et)
					lb.Mk = func(int) Value { return z }
					id := in.newObj(in.allocKind(), "make", i.Type())
					fr.st.Heap[id] = &LazyArr{Base: lb}
					fr.env[i] = single(SliceA{Arr: PtrA{Obj: id}, Len: ln, Cap: cp})
					break
				}
				n = 0
				for _, v := range vals {
					if v > n {
						n = v
					}
				}
			}
		}
		if n > 100000 {
			panic(Abort{"very large make in " + fr.fn.String()})
		}
		id := in.newObj(in.allocKind(), "make", i.Type())
		fr.st.Heap[id] = in.Zero(types.NewArray(et, n))
		fr.env[i] = single(SliceA{Arr: PtrA{Obj: id}, Len: ln, Cap: cp})
	case *ssa.Extract:
		fr.env[i] = in.val(fr, i.Tuple).(*Agg).Elems[i.Index]
	case *ssa.Field:
		fr.env[i] = in.val(fr, i.X).(*Agg).Elems[i.Field]
	case *ssa.FieldAddr:
		a := in.alts(in.val(fr, i.X))
		var r []Alt
		ok := F
		for _, x := range in.prune(a, fr.st.PC) {
			if p, isP := x.V.(PtrA); isP {
				if p.Obj == 0 {
					continue
				}
				ok = B.Or(ok, x.G)
				r = in.addAlt(r, x.G, PtrA{p.Obj, fmt.Sprintf("%s/%d", p.Path, i.Field)})
			} else {
				ok = B.Or(ok, x.G)
				r = in.addAlt(r, x.G, Opaque{fmt.Sprintf("%s.f%d", x.V.Key(), i.Field), i.Type()})
			}
		}
		in.obl("nil-deref", i, fr.st.PC, ok, "field of a nil pointer")
		fr.st.PC = B.And(fr.st.PC, ok)
		if fr.st.PC == F {
			return false
		}
		fr.env[i] = &Alts{r}
	case *ssa.Index:
		return in.index(fr, i)
	case *ssa.IndexAddr:
		return in.indexAddr(fr, i)
	case *ssa.Lookup:
		return in.lookup(fr, i)
	case *ssa.MapUpdate:
		in.mapUpdate(fr, i)
	case *ssa.Slice:
		return in.slice(fr, i)
	case *ssa.SliceToArrayPointer:
		n := int64(0)
		if at, ok := i.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
			n = at.Len()
		}
		var r []Alt
		ok := F
		for _, x := range in.prune(in.alts(in.val(fr, i.X)), fr.st.PC) {
			s := x.V.(SliceA)
			g := B.And(x.G, B.Not(in.bvLt(s.Len, in.Int(64, n), true)))
			ok = B.Or(ok, g)
			in.undecided(i, "slice to array pointer conversion")
			r = in.addAlt(r, g, s.Arr)
		}
		in.obl("slice-to-array", i, fr.st.PC, ok, "slice shorter than the array")
		fr.st.PC = B.And(fr.st.PC, ok)
		fr.env[i] = &Alts{r}
	case *ssa.Store:
		in.store(fr, i, in.alts(in.val(fr, i.Addr)), in.val(fr, i.Val))
	case *ssa.TypeAssert:
		return in.typeAssert(fr, i)
	case *ssa.Defer:
		d := deferred{instr: i, g: fr.st.PC, fn: in.val(fr, i.Call.Value)}
		if i.Call.IsInvoke() {
			in.undecided(i, "deferred interface call")
		}
		for _, a := range i.Call.Args {
			d.args = append(d.args, in.val(fr, a))
		}
		fr.defs = append(fr.defs[:len(fr.defs):len(fr.defs)], d)
	case *ssa.Range:
		fr.env[i] = in.rangeStart(fr, i)
	case *ssa.Next:
		fr.env[i] = in.rangeNext(fr, i)
	case *ssa.Go:
		in.effect("goroutine", i, fr.st.PC, "go statement", nil)
		in.undecided(i, "goroutine start")
	case *ssa.Send:
		in.undecided(i, "channel send")
	case *ssa.Select:
		in.undecided(i, "select")
		fr.env[i] = in.freshAt(fr, i, i.Type())
	case *ssa.MakeChan:
		in.undecided(i, "channel")
		fr.env[i] = in.freshAt(fr, i, i.Type())
	default:
		in.undecided(instr, fmt.Sprintf("instruction %T", instr))
		if v, ok := instr.(ssa.Value); ok {
			fr.env[v] = in.freshAt(fr, instr, v.Type())
		}
	}
	return fr.st.PC != F
}

func (in *Interp) freshAt(fr *frame, instr ssa.Instruction, t types.Type) Value {
	in.fresh++
	return in.Fresh(t, fmt.Sprintf("u%d", in.fresh), fr.st, false)
}

func (in *Interp) toInt64(v *BV, t types.Type) *BV {
	_, s, _ := intInfo(t)
	return in.bvResize(v, 64, s)
}

// ---- floats ----

func (in *Interp) polyAlts(a *Alts, g Node) []Alt {
	r := in.prune(a, g)
	for k := range r {
		if _, ok := r[k].V.(*Poly); !ok {
			r[k].V = in.FloatInput(r[k].V.Key())
		}
	}
	return r
}

const maxAlts = 3000

func (in *Interp) mapPoly(a *Alts, g Node, f func(p *Poly) *Poly) *Alts {
	var r []Alt
	for _, x := range in.polyAlts(a, g) {
		r = in.addAlt(r, x.G, f(x.V.(*Poly)))
	}
	return &Alts{r}
}

func (in *Interp) mapPoly2(a, b *Alts, g Node, f func(p, q *Poly) *Poly) *Alts {
	var r []Alt
	ya := in.polyAlts(b, g)
	for _, x := range in.polyAlts(a, g) {
		for _, y := range ya {
			gg := in.B.And(x.G, y.G)
			if gg == F {
				continue
			}
			r = in.addAlt(r, gg, f(x.V.(*Poly), y.V.(*Poly)))
			if len(r) > maxAlts {
				panic(Abort{"too many alternatives of a number"})
			}
		}
	}
	return &Alts{r}
}

func (in *Interp) cmpPoly(a, b *Alts, g Node, op token.Token) Node {
	res := F
	yb := in.polyAlts(b, g)
	for _, x := range in.polyAlts(a, g) {
		for _, y := range yb {
			gg := in.B.And(x.G, y.G)
			if gg == F {
				continue
			}
			lt, eq, gt := in.tri(in.polySub(x.V.(*Poly), y.V.(*Poly)))
			var c Node
			switch op {
			case token.LSS:
				c = lt
			case token.LEQ:
				c = in.B.Or(lt, eq)
			case token.GTR:
				c = gt
			case token.GEQ:
				c = in.B.Or(gt, eq)
			case token.EQL:
				c = eq
			case token.NEQ:
				c = in.B.Not(eq)
			}
			res = in.B.Or(res, in.B.And(gg, c))
		}
	}
	return res
}

// ---- binary operators ----

func boolV(n Node) *BV { return &BV{[]Node{n}} }

func (in *Interp) binop(fr *frame, i *ssa.BinOp) Value {
	x, y := in.val(fr, i.X), in.val(fr, i.Y)
	t := i.X.Type()
	pc := fr.st.PC
	if a, ok := x.(*BV); ok {
		b := y.(*BV)
		w, signed, _ := intInfo(t)
		switch i.Op {
		case token.ADD:
			return in.bvAdd(a, b, F)
		case token.SUB:
			return in.bvSub(a, b)
		case token.MUL:
			return in.bvMul(a, b)
		case token.QUO, token.REM:
			nz := in.B.Not(in.bvEq(b, in.Int(w, 0)))
			in.obl("div-zero", i, pc, nz, "integer division by zero")
			fr.st.PC = in.B.And(pc, nz)
			q, r := in.bvDivRem(a, b, signed)
			if i.Op == token.QUO {
				return q
			}
			return r
		case token.AND:
			return in.bvMap2(a, b, in.B.And)
		case token.OR:
			return in.bvMap2(a, b, in.B.Or)
		case token.XOR:
			return in.bvMap2(a, b, in.B.Xor)
		case token.AND_NOT:
			return in.bvMap2(a, b, in.B.Diff)
		case token.SHL, token.SHR:
			_, ys, _ := intInfo(i.Y.Type())
			if ys {
				nn := in.B.Not(b.Bits[len(b.Bits)-1])
				in.obl("shift", i, pc, nn, "negative shift count")
				fr.st.PC = in.B.And(pc, nn)
			}
			return in.bvShift(a, b, i.Op == token.SHL, signed)
		case token.EQL:
			return boolV(in.bvEq(a, b))
		case token.NEQ:
			return boolV(in.B.Not(in.bvEq(a, b)))
		case token.LSS:
			return boolV(in.bvLt(a, b, signed))
		case token.GTR:
			return boolV(in.bvLt(b, a, signed))
		case token.LEQ:
			return boolV(in.B.Not(in.bvLt(b, a, signed)))
		case token.GEQ:
			return boolV(in.B.Not(in.bvLt(a, b, signed)))
		}
	}
	if isFloat(t) {
		a, b := in.alts(x), in.alts(y)
		switch i.Op {
		case token.ADD:
			return in.mapPoly2(a, b, pc, in.polyAdd)
		case token.SUB:
			return in.mapPoly2(a, b, pc, in.polySub)
		case token.MUL:
			return in.mapPoly2(a, b, pc, in.polyMul)
		case token.QUO:
			return in.mapPoly2(a, b, pc, func(p, q *Poly) *Poly { return in.polyMul(p, in.polyInv(q)) })
		default:
			return boolV(in.cmpPoly(a, b, pc, i.Op))
		}
	}
	if isString(t) && i.Op == token.ADD {
		return in.concat(in.alts(x), in.alts(y), pc)
	}
	switch i.Op {
	case token.EQL:
		return boolV(in.equal(i, x, y, pc))
	case token.NEQ:
		return boolV(in.B.Not(in.equal(i, x, y, pc)))
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		// text order: only for constants
		if a, ok := in.constStr(in.alts(x)); ok {
			if b, ok := in.constStr(in.alts(y)); ok {
				r := map[token.Token]bool{token.LSS: a < b, token.GTR: a > b, token.LEQ: a <= b, token.GEQ: a >= b}[i.Op]
				if r {
					return boolV(T)
				}
				return boolV(F)
			}
		}
		return boolV(in.keyed(fmt.Sprintf("cmp%v(%s,%s)", i.Op, ValKey(x), ValKey(y))))
	}
	in.undecided(i, "operator "+i.Op.String())
	return in.freshAt(fr, i, i.Type())
}

// equal is the condition, within pc, under which two values are equal.
func (in *Interp) equal(instr ssa.Instruction, x, y Value, pc Node) Node {
	switch a := x.(type) {
	case *BV:
		return in.bvEq(a, y.(*BV))
	case *Agg:
		b := y.(*Agg)
		r := T
		for k := range a.Elems {
			r = in.B.And(r, in.equal(instr, a.Elems[k], b.Elems[k], pc))
		}
		return r
	case *Alts:
		b := y.(*Alts)
		r := F
		pb := in.prune(b, pc)
		for _, p := range in.prune(a, pc) {
			for _, q := range pb {
				g := in.B.And(p.G, q.G)
				if g == F {
					continue
				}
				r = in.B.Or(r, in.B.And(g, in.atomEqual(instr, p.V, q.V, pc)))
			}
		}
		return r
	}
	panic(fmt.Sprintf("equal of %T", x))
}

func isNilAtom(a Atom) bool {
	switch x := a.(type) {
	case PtrA:
		return x.Obj == 0
	case SliceA:
		return x.Arr.Obj == 0
	case IfaceA:
		return x.Typ == nil
	case MapA:
		return x.Obj == 0
	case FuncA:
		return x.Fn == nil && x.BI == ""
	}
	return false
}

func (in *Interp) atomEqual(instr ssa.Instruction, p, q Atom, pc Node) Node {
	if pp, ok := p.(*Poly); ok {
		if qq, ok := q.(*Poly); ok {
			_, eq, _ := in.tri(in.polySub(pp, qq))
			return eq
		}
	}
	if a, ok := p.(IfaceA); ok {
		if b, ok := q.(IfaceA); ok {
			if a.Typ == nil || b.Typ == nil {
				if a.Typ == nil && b.Typ == nil {
					return T
				}
				return F
			}
			if !types.Identical(a.Typ, b.Typ) {
				return F
			}
			return in.equal(instr, a.V, b.V, pc)
		}
	}
	if a, ok := p.(*Str); ok {
		if b, ok := q.(*Str); ok {
			return in.strEqual(a, b)
		}
	}
	if p.Key() == q.Key() {
		return T
	}
	if isNilAtom(p) != isNilAtom(q) {
		// an unknown error value made by errors.New or fmt.Errorf is not nil
		_, o1 := p.(Opaque)
		_, o2 := q.(Opaque)
		if !o1 && !o2 {
			return F
		}
	}
	if a, ok := p.(PtrA); ok {
		if b, ok := q.(PtrA); ok {
			_ = a
			_ = b
			return F
		}
	}
	return in.keyed("eq(" + p.Key() + "," + q.Key() + ")")
}

// ---- conversions ----

func (in *Interp) convert(fr *frame, i *ssa.Convert) Value {
	x := in.val(fr, i.X)
	from, to := i.X.Type(), i.Type()
	pc := fr.st.PC
	if v, ok := x.(*BV); ok {
		_, s, _ := intInfo(from)
		if w, _, ok := intInfo(to); ok {
			return in.bvResize(v, w, s)
		}
		if isFloat(to) {
			return single(in.bvToPoly(v, s))
		}
		if isString(to) {
			r := in.bvResize(v, 32, s)
			if c, ok := asInt(r); ok {
				return single(mkStr(string(rune(c))))
			}
			return single(&Str{Segs: []Seg{Char{r, true}}})
		}
	}
	if isFloat(from) {
		a := in.alts(x)
		if isFloat(to) {
			return a
		}
		if w, _, ok := intInfo(to); ok {
			var gs []Node
			var vs []Value
			for _, p := range in.polyAlts(a, pc) {
				gs = append(gs, p.G)
				vs = append(vs, in.polyToInt(p.V.(*Poly), w))
			}
			return in.mux(gs, vs)
		}
	}
	if isString(from) {
		if st, ok := to.Underlying().(*types.Slice); ok {
			return in.strToSlice(fr, i, in.alts(x), st)
		}
		if isString(to) {
			return x
		}
	}
	if isString(to) {
		return in.sliceToStr(fr, i, in.alts(x))
	}
	in.undecided(i, fmt.Sprintf("conversion %v to %v", from, to))
	return in.freshAt(fr, i, to)
}

func (in *Interp) polyToInt(p *Poly, w int) *BV {
	if c, ok := p.constant(); ok {
		q := new(big.Int).Quo(c.Num(), c.Denom())
		return in.constBV(w, q)
	}
	if v, den, ok := in.polyToBV(p, 130); ok {
		if den.Cmp(big.NewInt(1)) == 0 {
			return in.bvResize(v, w, true)
		}
		q, _ := in.bvDivRem(v, in.constBV(len(v.Bits), den), true)
		return in.bvResize(q, w, true)
	}
	bits := make([]Node, w)
	k, max := "trunc("+p.Key()+")", w
	if lo, hi, ok := in.bounds(p); ok && lo >= 0 {
		k = in.op("floor", p).Key()
		for n := 0; n < w; n++ {
			if hi < math.Ldexp(1, n) {
				max = n
				break
			}
		}
	}
	for i := range bits {
		if i >= max {
			bits[i] = F
			continue
		}
		bits[i] = in.keyed(fmt.Sprintf("%s.%d", k, i))
	}
	return &BV{bits}
}

// ---- indexing ----

func (in *Interp) index(fr *frame, i *ssa.Index) bool {
	x := in.val(fr, i.X)
	idx := in.toInt64(in.val(fr, i.Index).(*BV), i.Index.Type())
	if a, ok := x.(*Agg); ok {
		n := int64(len(a.Elems))
		okc := in.bvLt(idx, in.Int(64, n), false)
		in.obl("index", i, fr.st.PC, okc, fmt.Sprintf("index outside an array of %d", n))
		fr.st.PC = in.B.And(fr.st.PC, okc)
		if fr.st.PC == F {
			return false
		}
		if v, ok := in.tableAt(a.Elems, idx); ok {
			fr.env[i] = v
			return true
		}
		vals, gs, ok := in.feasible(idx, fr.st.PC, 5000)
		if !ok {
			panic(Abort{"index with too many values"})
		}
		var vs []Value
		for _, v := range vals {
			vs = append(vs, a.Elems[v])
		}
		fr.env[i] = in.mux(gs, vs)
		return true
	}
	// string
	return in.strIndex(fr, i, i, in.alts(x), idx)
}

func (in *Interp) indexAddr(fr *frame, i *ssa.IndexAddr) bool {
	idx := in.toInt64(in.val(fr, i.Index).(*BV), i.Index.Type())
	alts := in.prune(in.alts(in.val(fr, i.X)), fr.st.PC)
	okAll := F
	type tgt struct {
		g   Node
		arr PtrA
		off int
	}
	var ts []tgt
	for _, a := range alts {
		switch s := a.V.(type) {
		case SliceA:
			g := in.B.And(a.G, in.bvLt(idx, s.Len, false))
			okAll = in.B.Or(okAll, g)
			if g != F {
				ts = append(ts, tgt{g, s.Arr, s.Off})
			}
		case PtrA:
			if s.Obj == 0 {
				continue
			}
			at := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			g := in.B.And(a.G, in.bvLt(idx, in.Int(64, at.Len()), false))
			okAll = in.B.Or(okAll, g)
			if g != F {
				ts = append(ts, tgt{g, s, 0})
			}
		default:
			in.undecided(i, "index of an unknown slice")
			g := a.G
			okAll = in.B.Or(okAll, g)
			et := i.Type().Underlying().(*types.Pointer).Elem()
			id := in.newObj("local", "unknown element", et)
			in.fresh++
			fr.st.Heap[id] = &Agg{[]Value{in.Fresh(et, fmt.Sprintf("u%d", in.fresh), nil, false)}}
			fr.env[i] = single(PtrA{id, "/0"})
		}
	}
	in.obl("index", i, fr.st.PC, okAll, "index out of range")
	fr.st.PC = in.B.And(fr.st.PC, okAll)
	if fr.st.PC == F {
		return false
	}
	if len(ts) == 0 {
		return true
	}
	var r []Alt
	if len(ts) == 1 && onlyLoaded(i) {
		// a table of numbers
		if a, ok := getPath(fr.st.Heap[ts[0].arr.Obj], splitPath(ts[0].arr.Path)).(*Agg); ok && ts[0].off == 0 {
			if v, ok := in.tableAt(a.Elems, idx); ok {
				id := in.newObj("local", "element", i.Type().Underlying().(*types.Pointer).Elem())
				fr.st.Heap[id] = v
				fr.env[i] = single(PtrA{id, ""})
				return true
			}
		}
	}
	for _, t := range ts {
		vals, gs, ok := in.feasible(idx, t.g, 5000)
		if !ok {
			panic(Abort{"index with too many values in " + fr.fn.String()})
		}
		for k, v := range vals {
			r = in.addAltFast(r, gs[k], PtrA{t.arr.Obj, fmt.Sprintf("%s/%d", t.arr.Path, int(v)+t.off)})
		}
	}
	fr.env[i] = &Alts{r}
	return true
}

// onlyLoaded says whether an address is used for nothing but loads right after it.
func onlyLoaded(i *ssa.IndexAddr) bool {
	for _, r := range *i.Referrers() {
		u, ok := r.(*ssa.UnOp)
		if !ok || u.Op != token.MUL || u.Block() != i.Block() {
			return false
		}
	}
	after, left := false, len(*i.Referrers())
	for _, x := range i.Block().Instrs {
		if x == ssa.Instruction(i) {
			after = true
			continue
		}
		if !after {
			continue
		}
		if u, ok := x.(*ssa.UnOp); ok && u.X == ssa.Value(i) {
			if left--; left == 0 {
				return true
			}
			continue
		}
		switch x.(type) {
		case *ssa.Store, ssa.CallInstruction, *ssa.MapUpdate:
			return false
		}
	}
	return left == 0
}

// tableAt reads a table of constants at an unknown index, through the algebraic normal form of
// each bit of the table.
func (in *Interp) tableAt(es []Value, idx *BV) (Value, bool) {
	if isConst(idx) || len(es) < 33 || len(es) > 4096 {
		return nil, false
	}
	k := 0
	for 1<<k < len(es) {
		k++
	}
	var w int
	tab := make([]uint64, 1<<k)
	for i, e := range es {
		b, ok := e.(*BV)
		if !ok || !isConst(b) || len(b.Bits) > 64 {
			return nil, false
		}
		w = len(b.Bits)
		for j, x := range b.Bits {
			if x == T {
				tab[i] |= 1 << uint(j)
			}
		}
	}
	for j := 0; j < k; j++ {
		for i := range tab {
			if i>>uint(j)&1 == 1 {
				tab[i] ^= tab[i&^(1<<uint(j))]
			}
		}
	}
	n := 0
	for _, x := range tab {
		if x != 0 {
			n++
		}
	}
	if n > 4*k+4 {
		return nil, false
	}
	r := make([]Node, w)
	for j := range r {
		r[j] = F
	}
	for i, x := range tab {
		if x == 0 {
			continue
		}
		m := T
		for j := 0; j < k; j++ {
			if i>>uint(j)&1 == 1 {
				m = in.B.And(m, idx.Bits[j])
			}
		}
		for j := range r {
			if x>>uint(j)&1 == 1 {
				r[j] = in.B.Xor(r[j], m)
			}
		}
	}
	return &BV{r}, true
}

func (in *Interp) addAltFast(r []Alt, g Node, v Atom) []Alt {
	if g == F {
		return r
	}
	if len(r) > 64 {
		return append(r, Alt{g, v})
	}
	return in.addAlt(r, g, v)
}

func (in *Interp) slice(fr *frame, i *ssa.Slice) bool {
	B := in.B
	x := in.val(fr, i.X)
	get := func(v ssa.Value) *BV {
		if v == nil {
			return nil
		}
		return in.toInt64(in.val(fr, v).(*BV), v.Type())
	}
	lo, hi, max := get(i.Low), get(i.High), get(i.Max)
	if isString(i.X.Type()) {
		return in.strSlice(fr, i, in.alts(x), lo, hi)
	}
	if lo == nil {
		lo = in.Int(64, 0)
	}
	okAll := F
	var r []Alt
	for _, a := range in.prune(in.alts(x), fr.st.PC) {
		var s SliceA
		switch v := a.V.(type) {
		case SliceA:
			s = v
		case PtrA:
			if v.Obj == 0 {
				continue
			}
			at := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			s = SliceA{Arr: v, Len: in.Int(64, at.Len()), Cap: in.Int(64, at.Len())}
		default:
			in.undecided(i, "slicing an unknown value")
			okAll = B.Or(okAll, a.G)
			r = append(r, Alt{a.G, Opaque{"slice of " + v.Key(), i.Type()}})
			continue
		}
		h := hi
		if h == nil {
			h = s.Len
		}
		m := s.Cap
		if max != nil {
			m = max
		}
		// The capacity of an input is only known to be at least its length; reading beyond
		// the length is reported as a failure.
		lim := s.Cap
		if in.Objs[s.Arr.Obj] != nil && !isConst(s.Cap) {
			lim = s.Len
		}
		c := B.AndN(
			B.Not(in.bvLt(lim, h, false)),
			B.Not(in.bvLt(h, lo, false)))
		if max != nil {
			c = B.AndN(c, B.Not(in.bvLt(s.Cap, m, false)), B.Not(in.bvLt(m, h, false)))
		}
		g := B.And(a.G, c)
		okAll = B.Or(okAll, g)
		if g == F {
			continue
		}
		vals, gs, ok := in.feasible(lo, g, 64)
		if !ok {
			panic(Abort{"slice with too many lower bounds in " + fr.fn.String()})
		}
		for k, v := range vals {
			lv := in.Int(64, v)
			r = in.addAlt(r, gs[k], SliceA{Arr: s.Arr, Off: s.Off + int(v), Len: in.underBV(in.bvSub(h, lv), gs[k]), Cap: in.bvSub(m, lv)})
		}
	}
	in.obl("slice", i, fr.st.PC, okAll, "slice bounds out of range")
	fr.st.PC = B.And(fr.st.PC, okAll)
	if fr.st.PC == F {
		return false
	}
	fr.env[i] = &Alts{r}
	return true
}

// underBV replaces the bits that are constant under g.
func (in *Interp) underBV(v *BV, g Node) *BV {
	if isConst(v) {
		return v
	}
	r := make([]Node, len(v.Bits))
	for k, b := range v.Bits {
		switch in.B.Under(b, g) {
		case 0:
			r[k] = F
		case 1:
			r[k] = T
		default:
			r[k] = b
		}
	}
	return &BV{r}
}

// ---- type assertions ----

func (in *Interp) typeAssert(fr *frame, i *ssa.TypeAssert) bool {
	B := in.B
	toIface := types.IsInterface(i.AssertedType)
	ok := F
	var gs []Node
	var vs []Value
	for _, a := range in.prune(in.alts(in.val(fr, i.X)), fr.st.PC) {
		switch x := a.V.(type) {
		case IfaceA:
			if x.Typ == nil {
				continue
			}
			if toIface {
				if types.Implements(x.Typ, i.AssertedType.Underlying().(*types.Interface)) {
					ok = B.Or(ok, a.G)
					gs = append(gs, a.G)
					vs = append(vs, single(x))
				}
			} else if types.Identical(x.Typ, i.AssertedType) {
				ok = B.Or(ok, a.G)
				gs = append(gs, a.G)
				vs = append(vs, x.V)
			}
		default:
			k := in.keyed("is(" + x.Key() + "," + i.AssertedType.String() + ")")
			g := B.And(a.G, k)
			ok = B.Or(ok, g)
			gs = append(gs, g)
			if toIface {
				vs = append(vs, single(x))
			} else {
				vs = append(vs, in.Fresh(i.AssertedType, x.Key()+".("+i.AssertedType.String()+")", fr.st, true))
			}
		}
	}
	if i.CommaOk {
		no := B.Diff(fr.st.PC, ok)
		if no != F {
			gs = append(gs, no)
			vs = append(vs, in.Zero(i.AssertedType))
		}
		fr.env[i] = &Agg{[]Value{in.mux(gs, vs), boolV(ok)}}
		return true
	}
	in.obl("type-assert", i, fr.st.PC, ok, "type assertion to "+i.AssertedType.String())
	fr.st.PC = B.And(fr.st.PC, ok)
	if fr.st.PC == F {
		return false
	}
	fr.env[i] = in.mux(gs, vs)
	return true
}

// ---- maps ----

func (in *Interp) keyEq(a, b Value) Node { return in.equal(nil, a, b, T) }

func (in *Interp) mapGet(fr *frame, instr ssa.Instruction, m *MapObj, k Value) (v Value, present Node) {
	v = in.Zero(m.VT)
	present = F
	if m.Sym != "" {
		key := ValKey(in.symKey(m.Sym, k, fr.st.PC))
		present = in.keyed(fmt.Sprintf("has(%s,%s)", m.Sym, key))
		v = in.Merge(present, in.Fresh(m.VT, fmt.Sprintf("%s[%s]", m.Sym, key), fr.st, false), v)
	}
	for _, e := range m.Ents {
		g := in.B.And(e.G, in.keyEq(e.K, k))
		if g == F {
			continue
		}
		if e.Del {
			v = in.Merge(g, in.Zero(m.VT), v)
			present = in.B.Diff(present, g)
			continue
		}
		v = in.Merge(g, e.V, v)
		present = in.B.Or(present, g)
	}
	return
}

// symKey is a key already used with the same unknown map, if it is equal to k under pc.
func (in *Interp) symKey(sym string, k Value, pc Node) Value {
	for _, o := range in.symKeys[sym] {
		if ValKey(o) == ValKey(k) || in.B.Diff(pc, in.keyEq(o, k)) == F {
			return o
		}
	}
	in.symKeys[sym] = append(in.symKeys[sym], k)
	return k
}

func (in *Interp) lookup(fr *frame, i *ssa.Lookup) bool {
	x := in.val(fr, i.X)
	if isString(i.X.Type()) {
		idx := in.toInt64(in.val(fr, i.Index).(*BV), i.Index.Type())
		return in.strIndex(fr, i, i, in.alts(x), idx)
	}
	k := in.val(fr, i.Index)
	var gs []Node
	var vs []Value
	pr := F
	mt := i.X.Type().Underlying().(*types.Map)
	for _, a := range in.prune(in.alts(x), fr.st.PC) {
		m, ok := a.V.(MapA)
		gs = append(gs, a.G)
		switch {
		case ok && m.Obj == 0:
			vs = append(vs, in.Zero(mt.Elem()))
		case ok:
			v, p := in.mapGet(fr, i, fr.st.Heap[m.Obj].(*MapObj), k)
			vs = append(vs, v)
			pr = in.B.Or(pr, in.B.And(a.G, p))
		default:
			in.undecided(i, "lookup in an unknown map")
			vs = append(vs, in.freshAt(fr, i, mt.Elem()))
			pr = in.B.Or(pr, in.B.And(a.G, in.keyed("has "+a.V.Key())))
		}
	}
	v := in.mux(gs, vs)
	if i.CommaOk {
		fr.env[i] = &Agg{[]Value{v, boolV(pr)}}
	} else {
		fr.env[i] = v
	}
	return true
}

func (in *Interp) mapUpdate(fr *frame, i *ssa.MapUpdate) {
	k, v := in.val(fr, i.Key), in.val(fr, i.Value)
	ok := F
	for _, a := range in.prune(in.alts(in.val(fr, i.Map)), fr.st.PC) {
		m, is := a.V.(MapA)
		if !is {
			in.undecided(i, "update of an unknown map")
			ok = in.B.Or(ok, a.G)
			continue
		}
		if m.Obj == 0 {
			continue
		}
		ok = in.B.Or(ok, a.G)
		in.noteWrite(i, m.Obj, a.G)
		o := fr.st.Heap[m.Obj].(*MapObj)
		g := a.G
		if len(in.alts(in.val(fr, i.Map)).A) == 1 {
			g = T
		}
		n := &MapObj{Sym: o.Sym, KT: o.KT, VT: o.VT, Ents: append(o.Ents[:len(o.Ents):len(o.Ents)], MapEnt{G: g, K: k, V: v})}
		fr.st.Heap[m.Obj] = n
	}
	in.obl("nil-map", i, fr.st.PC, ok, "write to a nil map")
	fr.st.PC = in.B.And(fr.st.PC, ok)
}

// ---- range over strings and maps ----

type iterA struct {
	str *Alts
	m   MapA
	pos int
	id  int
}

func (it iterA) Key() string { return fmt.Sprintf("it%d@%d", it.id, it.pos) }

func (in *Interp) rangeStart(fr *frame, i *ssa.Range) Value {
	in.fresh++
	id := in.newObj("local", "iterator", i.X.Type())
	it := iterA{id: in.fresh}
	if isString(i.X.Type()) {
		it.str = in.alts(in.val(fr, i.X))
	} else {
		a := in.alts(in.val(fr, i.X))
		in.effect("map-iteration", i, fr.st.PC, "iteration over a map", nil)
		if len(a.A) == 1 {
			if m, ok := a.A[0].V.(MapA); ok {
				it.m = m
			} else {
				in.undecided(i, "range over an unknown map")
			}
		} else {
			in.undecided(i, "range over several maps")
		}
	}
	fr.st.Heap[id] = single(it)
	return single(PtrA{Obj: id})
}

func (in *Interp) rangeNext(fr *frame, i *ssa.Next) Value {
	p := in.alts(in.val(fr, i.Iter)).A[0].V.(PtrA)
	// the cursor may have several guarded positions
	cur := fr.st.Heap[p.Obj].(*Alts)
	tt := i.Type().(*types.Tuple)
	var gs []Node
	var vs []Value
	var next []Alt
	for _, a := range in.prune(cur, fr.st.PC) {
		it := a.V.(iterA)
		if it.str != nil {
			for _, s := range in.prune(it.str, a.G) {
				lit, ok := in.litOf(s.V)
				if !ok {
					// unknown text: bytes known one by one
					n, chars, ok2 := in.charsOf(s.V)
					if !ok2 {
						panic(Abort{"iteration over unknown text in " + fr.fn.String()})
					}
					if it.pos < n {
						gs = append(gs, s.G)
						vs = append(vs, &Agg{[]Value{boolV(T), in.Int(64, int64(it.pos)), in.bvResize(chars[it.pos], 32, false)}})
						n2 := it
						n2.pos++
						next = in.addAlt(next, s.G, n2)
					} else {
						gs = append(gs, s.G)
						vs = append(vs, &Agg{[]Value{boolV(F), in.Int(64, 0), in.Int(32, 0)}})
						next = in.addAlt(next, s.G, it)
					}
					continue
				}
				n2 := it
				if it.pos < len(lit) {
					var r rune
					var w int
					for k, c := range lit[it.pos:] {
						if k == 0 {
							r = c
							w = len(lit[it.pos:])
						} else {
							w = k
							break
						}
					}
					n2.pos += w
					gs = append(gs, s.G)
					vs = append(vs, &Agg{[]Value{boolV(T), in.Int(64, int64(it.pos)), in.Int(32, int64(r))}})
				} else {
					gs = append(gs, s.G)
					vs = append(vs, &Agg{[]Value{boolV(F), in.Int(64, 0), in.Int(32, 0)}})
				}
				next = in.addAlt(next, s.G, n2)
			}
			continue
		}
		zero := func(k int) Value {
			if b, ok := tt.At(k).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
				return in.Int(64, 0)
			}
			return in.Zero(tt.At(k).Type())
		}
		var ents []MapEnt
		if it.m.Obj != 0 {
			mo := fr.st.Heap[it.m.Obj].(*MapObj)
			if mo.Sym != "" {
				panic(Abort{"iteration over an unknown map in " + fr.fn.String()})
			}
			ents = mo.Ents
		}
		if it.pos < len(ents) {
			e := ents[it.pos]
			if in.Backwards {
				e = ents[len(ents)-1-it.pos]
			}
			if e.G != T || e.Del {
				in.undecided(i, "iteration over a map updated under a condition")
			}
			gs = append(gs, a.G)
			vs = append(vs, &Agg{[]Value{boolV(T), e.K, e.V}})
			n2 := it
			n2.pos++
			next = in.addAlt(next, a.G, n2)
		} else {
			gs = append(gs, a.G)
			vs = append(vs, &Agg{[]Value{boolV(F), zero(1), zero(2)}})
			next = in.addAlt(next, a.G, it)
		}
	}
	fr.st.Heap[p.Obj] = &Alts{next}
	return in.mux(gs, vs)
}
