package checks

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

// inst is one struct value reachable from a result.
type inst struct {
	G ai.Node
	T *types.Named
	V ai.Value
}

// run is the evaluation of one entry.
type run struct {
	c     *Ctx
	in    *ai.Interp
	st    *ai.State
	fn    *ssa.Function
	name  string
	n     int // bytes of input
	ok    ai.Node
	bad   ai.Node
	insts []inst
	env   *env
	res   ai.Value
}

func isErr(t types.Type) bool { return types.TypeString(t, nil) == "error" }

// nilGuard is the condition under which an interface or pointer value is nil.
func nilGuard(in *ai.Interp, v ai.Value, g ai.Node) ai.Node {
	r := ai.F
	a, ok := v.(*ai.Alts)
	if !ok {
		return ai.F
	}
	for _, x := range in.Prune(a, g) {
		switch y := x.V.(type) {
		case ai.IfaceA:
			if y.Typ == nil {
				r = in.B.Or(r, x.G)
			}
		case ai.PtrA:
			if y.Obj == 0 {
				r = in.B.Or(r, x.G)
			}
		case ai.SliceA:
			if y.Arr.Obj == 0 {
				r = in.B.Or(r, x.G)
			}
		case ai.MapA:
			if y.Obj == 0 {
				r = in.B.Or(r, x.G)
			}
		}
	}
	return in.B.And(r, g)
}

// typeName resolves a type by the end of its path.
func (c *Ctx) typeName(q string) *types.Named {
	i := strings.LastIndex(q, ".")
	var found *types.Named
	for _, sp := range c.P.SP {
		p := sp.Pkg.Path()
		if p == q[:i] || strings.HasSuffix(p, "/"+q[:i]) {
			if o, ok := sp.Pkg.Scope().Lookup(q[i+1:]).(*types.TypeName); ok {
				if n, ok := o.Type().(*types.Named); ok {
					if found != nil {
						panic(fmt.Errorf("ambiguous type %s", q))
					}
					found = n
				}
			}
		}
	}
	return found
}

// funcName resolves a function by the end of its path.
func (c *Ctx) funcName(q string) *ssa.Function {
	i := strings.LastIndex(q, ".")
	var found *ssa.Function
	for _, sp := range c.P.SP {
		p := sp.Pkg.Path()
		if p == q[:i] || strings.HasSuffix(p, "/"+q[:i]) {
			if f := sp.Func(q[i+1:]); f != nil {
				if found != nil {
					panic(fmt.Errorf("ambiguous function %s", q))
				}
				found = f
			}
		}
	}
	return found
}

// call evaluates an entry function on unknown inputs.
func (c *Ctx) call(e *Entry, strictLen bool) (*run, bool) {
	fn := c.funcName(e.Func)
	if fn == nil {
		c.R.Bad(Viol{Key: "anchor|" + e.Func, Rule: "anchor", Where: e.Func, Detail: "function not found"})
		return nil, false
	}
	r := &run{c: c, in: c.P.NewInterp(), fn: fn, name: e.Func}
	in := r.in
	r.st = in.NewState()
	if len(fn.Params) != len(e.Args) {
		c.R.Bad(Viol{Key: "anchor|" + e.Func, Rule: "anchor", Where: e.Func, Detail: fmt.Sprintf("the function takes %d parameters, %d are known", len(fn.Params), len(e.Args))})
		return nil, false
	}
	var args []ai.Value
	ev := &env{in: in, names: map[string]val{}, defs: e.defs, memo: map[string]val{}, busy: map[string]bool{}, specs: c.Specs}
	var bytes func(i int) *ai.BV
	for k, p := range fn.Params {
		a := e.Args[k]
		if a.Len >= 0 {
			s, ok := p.Type().Underlying().(*types.Slice)
			if !ok {
				c.R.Bad(Viol{Key: "anchor|" + e.Func, Rule: "anchor", Where: e.Func, Detail: "parameter " + a.Name + " is not a slice"})
				return nil, false
			}
			r.n = a.Len
			if strictLen && a.Strict {
				v := in.FreshSlice(s.Elem(), "in", r.st, -1, "input")
				sl := v.A[0].V.(ai.SliceA)
				r.st.PC = in.B.And(r.st.PC, in.B.Not(in.Eq(sl.Len, in.Int(len(sl.Len.Bits), int64(a.Len)))))
				args = append(args, v)
				continue
			}
			v := in.FreshSlice(s.Elem(), "in", r.st, a.Len, "input")
			args = append(args, v)
			bytes = func(i int) *ai.BV { return in.Fresh(s.Elem(), fmt.Sprintf("in[%d]", i), nil, false).(*ai.BV) }
			continue
		}
		v := in.Fresh(p.Type(), a.Name, r.st, true)
		args = append(args, v)
		if b, ok := v.(*ai.BV); ok {
			_, sg, _ := ai.IntInfo(p.Type())
			if len(b.Bits) == 1 {
				ev.names[a.Name] = val{kind: 'b', b: b.Bits[0]}
			} else {
				ev.names[a.Name] = val{kind: 'i', i: in.Resize(b, W, sg), w: len(b.Bits)}
			}
		}
	}
	ev.bit = func(n int) ai.Node {
		k := n - 1 - e.Shift
		if bytes == nil || k < 0 || k/8 >= r.n {
			panic(fmt.Errorf("spec: bit %d is outside the input of %s", n, e.Func))
		}
		return bytes(k / 8).Bits[7-k%8]
	}
	r.env = ev
	if e.Assume != nil && !strictLen {
		r.st.PC = in.B.And(r.st.PC, ev.asBool(ev.eval(e.Assume)))
	}
	start := r.st.PC
	var v ai.Value
	var st *ai.State
	if err := ai.Guard(func() { v, st = in.CallFn(fn, args, r.st) }); err != nil {
		c.R.Bad(Viol{Key: "undecided|" + e.Func, Rule: "undecided", Where: e.Func, Detail: "the analysis stopped: " + err.Error()})
		return nil, false
	}
	c.undecided(in, e.Func)
	c.R.Seen(c, in)
	r.bad = start
	r.ok = ai.F
	if st == nil {
		r.st.PC = ai.F
		return r, true
	}
	r.st = st
	r.res = v
	res := fn.Signature.Results()
	g := st.PC
	if n := res.Len(); n > 0 && isErr(res.At(n-1).Type()) {
		ev := v
		if n > 1 {
			ev = v.(*ai.Agg).Elems[n-1]
		}
		g = in.B.And(g, nilGuard(in, ev, g))
		for k := 0; k < n-1; k++ {
			r.walk(v.(*ai.Agg).Elems[k], res.At(k).Type(), g, 0)
		}
	} else if res.Len() == 1 {
		r.walk(v, res.At(0).Type(), g, 0)
	}
	r.ok = g
	r.bad = in.B.Diff(start, g)
	return r, true
}

// walk lists the struct values inside a value.
func (r *run) walk(v ai.Value, t types.Type, g ai.Node, depth int) {
	if g == ai.F || depth > 12 || v == nil {
		return
	}
	in := r.in
	if n, ok := t.(*types.Named); ok {
		if s, ok := n.Underlying().(*types.Struct); ok {
			a, ok := v.(*ai.Agg)
			if !ok {
				return
			}
			r.insts = append(r.insts, inst{g, n, v})
			for i := 0; i < s.NumFields(); i++ {
				r.walk(a.Elems[i], s.Field(i).Type(), g, depth+1)
			}
			return
		}
		if n.Obj().Pkg() != nil {
			r.insts = append(r.insts, inst{g, n, v})
		}
	}
	al, ok := v.(*ai.Alts)
	if !ok {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		for _, a := range in.Prune(al, g) {
			if p, ok := a.V.(ai.PtrA); ok && p.Obj != 0 {
				r.walk(in.Deref(r.st, p), u.Elem(), in.B.And(g, a.G), depth+1)
			}
		}
	case *types.Interface:
		for _, a := range in.Prune(al, g) {
			if i, ok := a.V.(ai.IfaceA); ok && i.Typ != nil {
				r.walk(i.V, i.Typ, in.B.And(g, a.G), depth+1)
			}
		}
	case *types.Slice:
		if _, _, isInt := ai.IntInfo(u.Elem()); isInt {
			return
		}
		for _, a := range in.Prune(al, g) {
			s, ok := a.V.(ai.SliceA)
			if !ok || s.Arr.Obj == 0 {
				continue
			}
			for k, e := range r.elems(s, in.B.And(g, a.G)) {
				r.walk(e.v, u.Elem(), e.g, depth+1)
				_ = k
			}
		}
	}
}

type gval struct {
	g ai.Node
	v ai.Value
	t types.Type
}

// elems lists the elements of a slice, each with the condition that it exists.
func (r *run) elems(s ai.SliceA, g ai.Node) []gval {
	in := r.in
	var out []gval
	for k := 0; k < 64; k++ {
		gg := in.B.And(g, in.Lt(in.Int(len(s.Len.Bits), int64(k)), s.Len, false))
		if gg == ai.F {
			break
		}
		one := ai.SliceA{Arr: s.Arr, Off: s.Off + k, Len: in.Int(64, 1), Cap: s.Cap}
		es, ok := in.SliceElems(r.st, one)
		if !ok || len(es) != 1 {
			r.c.R.Bad(Viol{Key: "undecided|slice|" + r.name, Rule: "undecided", Where: r.name, Detail: "the elements of a slice are not known"})
			break
		}
		out = append(out, gval{gg, es[0], nil})
	}
	return out
}

// at follows a path from a value: fields, methods and result numbers.
func (r *run) at(g ai.Node, v ai.Value, t types.Type, path string) []gval {
	in := r.in
	cur := []gval{{g, v, t}}
	steps := strings.Split(path, ".")
	for _, s := range steps {
		var next []gval
		for _, x := range cur {
			next = append(next, r.step(x, s)...)
		}
		cur = next
	}
	// drop impossible ones
	var out []gval
	for _, x := range cur {
		if in.B.And(x.g, g) != ai.F {
			out = append(out, x)
		}
	}
	return out
}

type anchorErr string

func (r *run) step(x gval, s string) []gval {
	in := r.in
	if s == "self" {
		if _, ok := x.t.Underlying().(*types.Interface); ok {
			var out []gval
			for _, a := range in.Prune(x.v.(*ai.Alts), x.g) {
				if f, ok := a.V.(ai.IfaceA); ok && f.Typ != nil {
					out = append(out, gval{in.B.And(x.g, a.G), f.V, f.Typ})
				}
			}
			return out
		}
		return []gval{x}
	}
	// result number
	if k, err := strconv.Atoi(s); err == nil {
		tu, ok := x.t.(*types.Tuple)
		if !ok || k >= tu.Len() {
			panic(anchorErr("no result " + s))
		}
		return []gval{{x.g, x.v.(*ai.Agg).Elems[k], tu.At(k).Type()}}
	}
	if strings.HasSuffix(s, "()") {
		name := strings.TrimSuffix(s, "()")
		if i, ok := x.t.Underlying().(*types.Interface); ok && i != nil {
			var out []gval
			for _, a := range in.Prune(x.v.(*ai.Alts), x.g) {
				if f, ok := a.V.(ai.IfaceA); ok && f.Typ != nil {
					out = append(out, r.step(gval{in.B.And(x.g, a.G), f.V, f.Typ}, s)...)
				}
			}
			return out
		}
		recv, rt := x.v, x.t
		if _, isp := rt.Underlying().(*types.Pointer); isp { // where there is a value
			some := ai.F
			for _, a := range in.Prune(recv.(*ai.Alts), x.g) {
				if p, ok := a.V.(ai.PtrA); ok && p.Obj != 0 {
					some = in.B.Or(some, in.B.And(x.g, a.G))
				}
			}
			if some == ai.F {
				return nil
			}
			x.g = some
		}
		fn := in.Method(rt, name)
		if fn == nil {
			if _, isp := rt.Underlying().(*types.Pointer); !isp {
				id := in.NewObject(r.st, "local", "receiver", rt, recv)
				recv = ai.Single(ai.PtrA{Obj: id})
				rt = types.NewPointer(rt)
				fn = in.Method(rt, name)
			}
		}
		if fn == nil {
			panic(anchorErr(fmt.Sprintf("type %s has no method %s", x.t, name)))
		}
		st := &ai.State{PC: x.g, Heap: r.st.Heap}
		v, st2 := in.CallFn(fn, []ai.Value{recv}, st)
		if st2 == nil {
			return nil
		}
		var rtyp types.Type = fn.Signature.Results()
		if fn.Signature.Results().Len() == 1 {
			rtyp = fn.Signature.Results().At(0).Type()
		}
		// objects made by the call
		for k, o := range st2.Heap {
			if _, ok := r.st.Heap[k]; !ok {
				r.st.Heap[k] = o
			}
		}
		return []gval{{in.B.And(x.g, st2.PC), v, rtyp}}
	}
	switch u := x.t.Underlying().(type) {
	case *types.Pointer:
		var out []gval
		for _, a := range in.Prune(x.v.(*ai.Alts), x.g) {
			if p, ok := a.V.(ai.PtrA); ok && p.Obj != 0 {
				out = append(out, r.step(gval{in.B.And(x.g, a.G), in.Deref(r.st, p), u.Elem()}, s)...)
			}
		}
		return out
	case *types.Interface:
		var out []gval
		for _, a := range in.Prune(x.v.(*ai.Alts), x.g) {
			if f, ok := a.V.(ai.IfaceA); ok && f.Typ != nil {
				out = append(out, r.step(gval{in.B.And(x.g, a.G), f.V, f.Typ}, s)...)
			}
		}
		return out
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == s {
				return []gval{{x.g, x.v.(*ai.Agg).Elems[i], u.Field(i).Type()}}
			}
		}
		for i := 0; i < u.NumFields(); i++ { // promoted
			if u.Field(i).Embedded() {
				if o, _, _ := types.LookupFieldOrMethod(u.Field(i).Type(), true, nil, s); o != nil {
					return r.step(gval{x.g, x.v.(*ai.Agg).Elems[i], u.Field(i).Type()}, s)
				}
			}
		}
	}
	panic(anchorErr(fmt.Sprintf("type %s has no field %s", x.t, s)))
}

// differ is the condition, within g, under which a value is not the specified one.
func (r *run) differ(g ai.Node, v ai.Value, t types.Type, want val) (ai.Node, string) {
	in := r.in
	if g == ai.F {
		return ai.F, ""
	}
	switch x := v.(type) {
	case *ai.BV:
		w, sg, _ := ai.IntInfo(t)
		if w == 1 {
			n := r.env.asBool(want)
			return in.B.And(g, in.B.Xor(n, x.Bits[0])), ""
		}
		if want.kind == 'b' || want.kind == 'i' {
			return in.B.And(g, in.B.Not(in.Eq(in.Resize(x, 72, sg), in.Resize(r.env.asInt(want), 72, true)))), ""
		}
		if want.kind != 'n' {
			return g, "a number where text is specified"
		}
		p := in.BVToPoly(x, sg)
		bad := ai.F
		for _, a := range want.n {
			d, _ := in.PolyDiffer(p, a.p, in.B.And(g, a.g))
			bad = in.B.Or(bad, d)
		}
		return bad, ""
	case *ai.Alts:
		if want.kind == 's' {
			return textDiffer(in, x, want.s, g)
		}
		if want.kind == 'y' {
			return r.bytesDiffer(g, x, want.bytes)
		}
		bad, why := ai.F, ""
		for _, a := range in.Prune(x, g) {
			gg := in.B.And(g, a.G)
			p, ok := a.V.(*ai.Poly)
			if !ok {
				bad = in.B.Or(bad, gg)
				why = "not a number: " + clip(in.DescribeAtom(a.V, gg))
				continue
			}
			for _, b := range r.env.asNum(want) {
				h := in.B.And(gg, b.g)
				if h == ai.F {
					continue
				}
				d, exact := in.PolyDiffer(p, b.p, h)
				if d != ai.F {
					bad = in.B.Or(bad, d)
					if !exact {
						why = "value " + clip(in.DescribeAtom(p, h)) + " is not " + clip(in.DescribeAtom(b.p, h))
					}
				}
			}
		}
		return bad, why
	}
	return g, fmt.Sprintf("value of kind %T", v)
}

func (r *run) bytesDiffer(g ai.Node, v *ai.Alts, want []*ai.BV) (ai.Node, string) {
	in := r.in
	bad, why := ai.F, ""
	for _, a := range in.Prune(v, g) {
		gg := in.B.And(g, a.G)
		s, ok := a.V.(ai.SliceA)
		if !ok {
			return gg, "not a slice of bytes"
		}
		if s.Arr.Obj == 0 {
			bad, why = in.B.Or(bad, gg), "nil where bytes are specified"
			continue
		}
		d := in.B.And(gg, in.B.Not(in.Eq(s.Len, in.Int(len(s.Len.Bits), int64(len(want))))))
		if d != ai.F {
			bad, why = in.B.Or(bad, d), "another length"
			continue
		}
		es, ok := in.SliceElems(r.st, ai.SliceA{Arr: s.Arr, Off: s.Off, Len: in.Int(64, int64(len(want))), Cap: s.Cap})
		if !ok {
			return gg, "bytes are not known"
		}
		for k := range want {
			d := in.B.And(gg, in.B.Not(in.Eq(es[k].(*ai.BV), want[k])))
			if d != ai.F {
				bad, why = in.B.Or(bad, d), fmt.Sprintf("byte %d differs", k)
			}
		}
	}
	return bad, why
}

// report records the verdict of one obligation.
func (r *run) report(rule, what string, bad ai.Node, detail string) {
	c := r.c
	c.R.Obligation(rule, r.name+" "+what, bad == ai.F)
	if bad == ai.F {
		return
	}
	c.R.Bad(Viol{Key: rule + "|" + r.name + "|" + what, Rule: rule, Where: r.name + " (" + c.rel(r.in.Prog.Fset.Position(r.fn.Pos()).String()) + ")",
		Detail: strings.TrimSpace(what + ". " + detail), Witness: witness(r.in, bad, r.n)})
}

// Tables decides the layouts and entries of a specification.
func (c *Ctx) Tables(s *Spec) {
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, e := range s.Entries {
		e := e
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			c.guard(e.Func, func() { c.entry(s, e) })
		}()
	}
	wg.Wait()
	for _, l := range s.Layouts {
		ok := c.hit[l.Type]
		c.R.Obligation("reached", l.Type, ok)
		if !ok {
			c.R.Bad(Viol{Key: "reached|" + l.Type, Rule: "reached", Where: l.Type, Detail: "no analysed entry gives a value of this type"})
		}
	}
}

func (c *Ctx) entry(s *Spec, e *Entry) {
	c.R.Count("entries", 1)
	strict := false
	for _, a := range e.Args {
		strict = strict || a.Strict
	}
	if strict {
		if r, ok := c.call(e, true); ok {
			r.n = 0
			r.report("length", "every other length is an error", r.ok, "")
		}
	}
	r, ok := c.call(e, false)
	if !ok {
		return
	}
	in := r.in
	all := ai.F
	start := in.B.Or(r.ok, r.bad)
	for _, o := range e.Outs {
		t := c.typeName(o.Type)
		if t == nil {
			c.R.Bad(Viol{Key: "anchor|" + o.Type, Rule: "anchor", Where: e.Func, Detail: "type " + o.Type + " not found"})
			continue
		}
		want := in.B.And(start, r.env.asBool(r.env.eval(o.Cond)))
		all = in.B.Or(all, want)
		got := ai.F
		for _, i := range r.insts {
			if types.Identical(i.T, t) {
				got = in.B.Or(got, i.G)
			}
		}
		r.report("accept", "gives "+o.Text, in.B.Diff(want, got), "an input that must be accepted as "+o.Type+" is not")
		r.report("reject", "gives "+o.Type+" only as specified", in.B.Diff(got, want), "an input is accepted as "+o.Type+" that must not be")
	}
	if e.ErrOth {
		r.report("error", "error otherwise", in.B.Diff(r.ok, all), "an input that must be rejected is accepted")
	}
	c.layouts(s, r, e)
	c.undecided(in, e.Func)
	c.R.Seen(c, in)
}

// layouts checks the fields of every known struct in the result.
func (c *Ctx) layouts(s *Spec, r *run, e *Entry) {
	lays := map[*types.TypeName]*Layout{}
	for _, l := range s.Layouts {
		t := c.typeName(l.Type)
		if t == nil {
			c.R.Bad(Viol{Key: "anchor|" + l.Type, Rule: "anchor", Where: e.Func, Detail: "type " + l.Type + " not found"})
			continue
		}
		lays[t.Obj()] = l
	}
	seen := map[string]bool{}
	for _, i := range r.insts {
		l := lays[i.T.Obj()]
		if l == nil {
			continue
		}
		ins := i
		c.mu.Lock()
		if c.hit == nil {
			c.hit = map[string]bool{}
		}
		c.hit[l.Type] = true
		c.mu.Unlock()
		c.layout(s, r, l, ins, seen)
	}
}

func (c *Ctx) layout(s *Spec, r *run, l *Layout, i inst, seen map[string]bool) {
	in := r.in
	ev := r.env
	ev.memo = map[string]val{}
	ev.lets = map[string]*Expr{}
	for _, imp := range s.Imports {
		if q := c.Specs[imp]; q != nil {
			for _, m := range q.Layouts {
				if m.Type == l.Type {
					addLets(ev.lets, m)
				}
			}
		}
	}
	addLets(ev.lets, l)
	for _, f := range l.Fields {
		f := f
		func() {
			defer func() {
				if x := recover(); x != nil {
					if a, ok := x.(anchorErr); ok {
						if f.Optional {
							return
						}
						c.R.Bad(Viol{Key: "anchor|" + l.Type + "." + f.Path, Rule: "anchor", Where: r.name, Detail: string(a)})
						return
					}
					panic(x)
				}
			}()
			what := l.Type + "." + f.Text
			switch f.Kind {
			case "coherent":
				vs := r.at(i.G, i.V, i.T, "CheckCoherency()")
				want := ev.asBool(ev.eval(f.E))
				got, tot := ai.F, ai.F
				for _, x := range vs {
					got = in.B.Or(got, nilGuard(in, x.v, x.g))
					tot = in.B.Or(tot, x.g)
				}
				r.report("coherency", l.Type+" accepts every coherent message", in.B.AndN(i.G, want, in.B.Not(got)), "")
				r.report("coherency", l.Type+" rejects every incoherent message", in.B.AndN(i.G, got, in.B.Not(want)), "")
			case "is":
				t := c.typeName(f.Type)
				if t == nil {
					panic(anchorErr("type " + f.Type + " not found"))
				}
				got := ai.F
				for _, x := range r.at(i.G, i.V, i.T, f.Path) {
					for _, a := range in.Prune(x.v.(*ai.Alts), x.g) {
						if y, ok := a.V.(ai.IfaceA); ok && y.Typ != nil {
							yt := y.Typ
							if p, ok := yt.(*types.Pointer); ok {
								yt = p.Elem()
							}
							if types.Identical(yt, t) {
								got = in.B.OrN(got, in.B.And(x.g, a.G))
							}
						}
					}
				}
				want := in.B.And(i.G, ev.asBool(ev.eval(f.Cond)))
				r.report("kind", what, in.B.Or(in.B.Diff(want, got), in.B.Diff(got, want)), "")
			case "opt":
				want := in.B.And(i.G, ev.asBool(ev.eval(f.Cond)))
				for _, x := range r.at(i.G, i.V, i.T, f.Path) {
					nl := nilGuard(in, x.v, x.g)
					r.report("presence", what, in.B.Or(in.B.And(want, nl), in.B.AndN(x.g, in.B.Not(nl), in.B.Not(want))), "")
					if f.E.Op == "name" && f.E.Text == "_" {
						continue
					}
					w := ev.eval(f.E)
					for _, a := range in.Prune(x.v.(*ai.Alts), x.g) {
						if p, ok := a.V.(ai.PtrA); ok && p.Obj != 0 {
							pt := x.t.Underlying().(*types.Pointer).Elem()
							d, why := r.differ(in.B.AndN(x.g, a.G, want), in.Deref(r.st, p), pt, w)
							r.report("field", what, d, why)
						}
					}
				}
			default:
				w := ev.eval(f.E)
				tot := ai.F
				for _, x := range r.at(i.G, i.V, i.T, f.Path) {
					tot = in.B.Or(tot, x.g)
					d, why := r.differ(in.B.And(x.g, i.G), x.v, x.t, w)
					if d != ai.F && c.isKnown(r, l, f, x, in.B.And(x.g, i.G)) {
						d = ai.F
					}
					r.report("field", what, d, why)
				}
				if !strings.Contains(f.Path, "()") {
					r.report("field", what+" is present", in.B.Diff(i.G, tot), "")
				} else {
					r.report("field", what+" returns", in.B.Diff(i.G, tot), "the method does not return")
				}
			}
		}()
	}
}

// isKnown says whether a wrong value is exactly the recorded wrong value.
func (c *Ctx) isKnown(r *run, l *Layout, f FieldSpec, x gval, g ai.Node) bool {
	for _, k := range c.known {
		if k.typ != l.Type || k.path != f.Path {
			continue
		}
		if d, _ := r.differ(g, x.v, x.t, r.env.eval(k.e)); d == ai.F {
			c.R.AddKnown(k.text)
			return true
		}
	}
	return false
}

func addLets(m map[string]*Expr, l *Layout) {
	for k, e := range l.lets {
		m[k] = e
	}
	for _, f := range l.Fields {
		if f.Kind == "eq" && !strings.ContainsAny(f.Path, ".(") {
			if _, ok := m[f.Path]; !ok {
				m[f.Path] = f.E
			}
		}
	}
}

var _ = big.NewRat
