package checks

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() {
	goChecks["P01"] = func(c *Ctx) {
		c.total(&totality{panics: true})
		c.commandLine(&totality{panics: true})
	}
	goChecks["P39"] = func(c *Ctx) {
		c.total(&totality{ends: true})
		c.commandLine(&totality{ends: true})
	}
	goChecks["P02"] = func(c *Ctx) { c.total(&totality{results: true}) }
	goChecks["P03"] = func(c *Ctx) {
		c.total(&totality{effects: true})
		c.guard("state", func() { packageState(c) })
	}
}

// totality says which rules a pass over all entry points decides.
type totality struct {
	panics, results, effects, ends bool
}

func byteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// exported lists the exported functions of the packages that are not field packages.
func (c *Ctx) exported() []*ssa.Function {
	var out []*ssa.Function
	for _, sp := range c.P.SP {
		if sp.Pkg.Name() == "main" || strings.HasSuffix(sp.Pkg.Path(), "/fields") {
			continue
		}
		for _, m := range sp.Members {
			if f, ok := m.(*ssa.Function); ok && f.Object() != nil && f.Object().Exported() && f.TypeParams().Len() == 0 {
				out = append(out, f)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// readers lists the functions that read a message out of bytes.
func (c *Ctx) readers() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.exported() {
		n := f.Signature.Results().Len()
		if n < 2 || !isErr(f.Signature.Results().At(n-1).Type()) || !strings.HasPrefix(f.Name(), "Read") {
			continue
		}
		bytes := 0
		for i := 0; i < f.Signature.Params().Len(); i++ {
			if byteSlice(f.Signature.Params().At(i).Type()) {
				bytes++
			}
		}
		if bytes == 1 {
			out = append(out, f)
		}
	}
	return out
}

// computations lists the functions of numbers only.
func (c *Ctx) computations() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.exported() {
		ok := f.Signature.Params().Len() > 0
		for i := 0; i < f.Signature.Params().Len(); i++ {
			b, isb := f.Signature.Params().At(i).Type().Underlying().(*types.Basic)
			ok = ok && isb && b.Info()&(types.IsNumeric|types.IsBoolean) != 0
		}
		if ok {
			out = append(out, f)
		}
	}
	return out
}

// start calls a function on inputs of which nothing is known.
func (c *Ctx) start(fn *ssa.Function) (*run, ai.Node, bool) {
	r := &run{c: c, in: c.P.NewInterp(), fn: fn, name: c.fname(fn)}
	in := r.in
	r.st = in.NewState()
	var args []ai.Value
	for _, p := range fn.Params {
		if byteSlice(p.Type()) {
			args = append(args, in.FreshSlice(types.Typ[types.Uint8], "in", r.st, -1, "input"))
		} else {
			args = append(args, in.Fresh(p.Type(), p.Name(), r.st, true))
		}
	}
	r.env = &env{in: in, names: map[string]val{}}
	var v ai.Value
	var st *ai.State
	if err := ai.Guard(func() { v, st = in.CallFn(fn, args, r.st) }); err != nil {
		c.R.Bad(Viol{Key: "undecided|" + r.name, Rule: "undecided", Where: r.name, Detail: "the analysis stopped: " + err.Error()})
		return r, ai.F, false
	}
	if st == nil {
		return r, ai.F, false
	}
	r.res, r.st = v, st
	return r, st.PC, true
}

// total decides the rules that hold for every entry point.
func (c *Ctx) total(o *totality) {
	readers := c.readers()
	has := map[string]bool{}
	for _, f := range readers {
		has[f.String()] = true
	}
	for _, e := range c.allEntries() {
		f := c.funcName(e.Func)
		if f == nil || !has[f.String()] {
			c.R.Bad(Viol{Key: "anchor|" + e.Func, Rule: "anchor", Where: e.Func, Detail: "not found among the exported readers"})
		}
	}
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	do := func(name string, f func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			c.guard(name, f)
		}()
	}
	for _, fn := range readers {
		fn := fn
		do(c.fname(fn), func() { c.totalReader(o, fn) })
	}
	c.R.Count("readers", len(readers))
	if o.panics || o.effects || o.ends {
		for _, n := range []int{7, 14} {
			n := n
			do(fmt.Sprintf("CheckCRC on %d bytes", n), func() { c.totalCRC(o, n) })
		}
		comps := c.computations()
		for _, fn := range comps {
			fn := fn
			do(c.fname(fn), func() {
				r, _, _ := c.start(fn)
				c.ended(o, r, map[string]bool{})
			})
		}
		c.R.Count("computations", len(comps))
	}
	wg.Wait()
}

// niladic lists the exported methods without parameters of a type.
func niladic(t *types.Named) []string {
	var out []string
	ms := types.NewMethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		f, ok := ms.At(i).Obj().(*types.Func)
		if ok && f.Exported() && f.Type().(*types.Signature).Params().Len() == 0 {
			out = append(out, f.Name())
		}
	}
	return out
}

func (c *Ctx) totalReader(o *totality, fn *ssa.Function) {
	r, pc, ok := c.start(fn)
	in := r.in
	if !ok {
		c.ended(o, r, nil)
		return
	}
	tu := r.res.(*ai.Agg)
	res := fn.Signature.Results()
	n := res.Len()
	nl := nilGuard(in, tu.Elems[n-1], pc)
	good, bad := in.B.And(pc, nl), in.B.Diff(pc, nl)
	for k := 0; k < n-1; k++ {
		r.walk(tu.Elems[k], res.At(k).Type(), good, 0)
	}
	if good == ai.F {
		c.R.Bad(Viol{Key: "reached|" + r.name, Rule: "reached", Where: r.name, Detail: "no input is accepted"})
	}
	if o.results {
		for k := 0; k < n-1; k++ {
			r.report("message", "success comes with a message", r.absent(tu.Elems[k], res.At(k).Type(), good), "")
			r.report("error", "an error comes without a message", r.present(tu.Elems[k], res.At(k).Type(), bad), "")
		}
	}
	if o.effects {
		r.own(tu, good)
		in.Freeze(r.st)
	}
	// every method of everything that was read
	done := map[string]bool{}
	for _, i := range append([]inst{}, r.insts...) {
		for _, m := range niladic(i.T) {
			if !o.panics && !o.effects && !o.ends && i.T.Obj().Pkg() != nil && !r.top(i, tu) {
				continue
			}
			got := ai.F
			if err := ai.Guard(func() {
				for _, x := range r.at(i.G, i.V, i.T, m+"()") {
					got = in.B.Or(got, x.g)
					if o.effects && done[i.T.String()+m] == false {
						done[i.T.String()+m] = true
						r.again(i, m, x)
					}
				}
			}); err != nil {
				c.R.Bad(Viol{Key: "undecided|" + r.name + "|" + m, Rule: "undecided", Where: r.name, Detail: err.Error()})
				continue
			}
			c.R.Count("method calls", 1)
			if o.results {
				r.report("usable", c.shortType(i.T)+"."+m+" returns", in.B.Diff(i.G, got), "")
			}
		}
	}
	c.ended(o, r, nil)
}

func (c *Ctx) shortType(t types.Type) string {
	return strings.ReplaceAll(t.String(), c.P.Mod+"/", "")
}

// top says whether an instance is a message itself, not a part of one.
func (r *run) top(i inst, tu *ai.Agg) bool {
	_, ok := i.T.Underlying().(*types.Struct)
	return ok
}

// absent is the condition, within g, under which a result is nil, holds a nil pointer, or is a
// list with such an element.
func (r *run) absent(v ai.Value, t types.Type, g ai.Node) ai.Node {
	in := r.in
	out := ai.F
	al, ok := v.(*ai.Alts)
	if !ok {
		return ai.F
	}
	for _, a := range in.Prune(al, g) {
		switch x := a.V.(type) {
		case ai.IfaceA:
			if x.Typ == nil {
				out = in.B.Or(out, a.G)
			} else {
				out = in.B.Or(out, r.absent(x.V, x.Typ, a.G))
			}
		case ai.PtrA:
			if x.Obj == 0 {
				out = in.B.Or(out, a.G)
			}
		case ai.SliceA:
			if x.Arr.Obj != 0 {
				for _, e := range r.elems(x, a.G) {
					out = in.B.Or(out, r.absent(e.v, nil, e.g))
				}
			}
		case ai.MapA, *ai.Str, *ai.Poly:
		default:
			out = in.B.Or(out, a.G)
		}
	}
	return out
}

// present is the condition, within g, under which a result holds something.
func (r *run) present(v ai.Value, t types.Type, g ai.Node) ai.Node {
	in := r.in
	out := ai.F
	al, ok := v.(*ai.Alts)
	if !ok {
		return ai.F
	}
	for _, a := range in.Prune(al, g) {
		switch x := a.V.(type) {
		case ai.IfaceA:
			if x.Typ != nil {
				out = in.B.Or(out, r.present(x.V, x.Typ, a.G))
			}
		case ai.PtrA:
			if x.Obj != 0 {
				out = in.B.Or(out, a.G)
			}
		case ai.SliceA:
			if x.Arr.Obj != 0 {
				out = in.B.OrN(out, in.B.And(a.G, in.B.Not(in.Eq(x.Len, in.Int(len(x.Len.Bits), 0)))))
			}
		default:
			out = in.B.Or(out, a.G)
		}
	}
	return out
}

// own reports every part of a result that is shared with the caller's bytes or with a package
// variable.
func (r *run) own(tu *ai.Agg, g ai.Node) {
	in := r.in
	seen := map[string]bool{}
	bad := map[string]ai.Node{}
	var visit func(v ai.Value, t types.Type, g ai.Node)
	obj := func(o ai.ObjID, v ai.Value, t types.Type, g ai.Node) {
		if o == 0 || g == ai.F {
			return
		}
		if oi := in.Objs[o]; oi != nil && oi.Kind != "local" {
			bad[oi.Kind+" "+oi.Name] = in.B.Or(bad[oi.Kind+" "+oi.Name], g)
			return
		}
		if k := fmt.Sprintf("%d %v", o, t); !seen[k] {
			seen[k] = true
			visit(v, t, g)
		}
	}
	visit = func(v ai.Value, t types.Type, g ai.Node) {
		switch x := v.(type) {
		case *ai.Agg:
			if s, ok := t.Underlying().(*types.Struct); ok {
				for k, e := range x.Elems {
					// the raw payload and parity of a Mode S message are views of the input
					if n := s.Field(k).Name(); n != "Payload" && n != "Parity" {
						visit(e, s.Field(k).Type(), g)
					}
				}
			} else if a, ok := t.Underlying().(*types.Array); ok {
				for _, e := range x.Elems {
					visit(e, a.Elem(), g)
				}
			}
		case *ai.Alts:
			for _, a := range in.Prune(x, g) {
				switch y := a.V.(type) {
				case ai.PtrA:
					if p, ok := t.Underlying().(*types.Pointer); ok && y.Obj != 0 {
						obj(y.Obj, in.Deref(r.st, y), p.Elem(), a.G)
					}
				case ai.SliceA:
					if s, ok := t.Underlying().(*types.Slice); ok && y.Arr.Obj != 0 {
						obj(y.Arr.Obj, nil, s.Elem(), a.G)
						for _, e := range r.elems(y, a.G) {
							visit(e.v, s.Elem(), e.g)
						}
					}
				case ai.MapA:
					obj(y.Obj, nil, t, a.G)
				case ai.IfaceA:
					if y.Typ != nil {
						visit(y.V, y.Typ, a.G)
					}
				}
			}
		}
	}
	res := r.fn.Signature.Results()
	for k, e := range tu.Elems[:len(tu.Elems)-1] {
		visit(e, res.At(k).Type(), g)
	}
	r.c.R.Obligation("own", r.name+": the message shares nothing with its input or a package variable", len(bad) == 0)
	for k, n := range bad {
		r.c.R.Bad(Viol{Key: "own|" + r.name + "|" + k, Rule: "own", Where: r.name, Detail: "the message shares memory with the " + k, Witness: witness(in, n, r.n)})
	}
}

// again calls a method a second time, with maps iterated in the opposite order, if it iterates
// over a map: the result may not depend on the order.
func (r *run) again(i inst, m string, first gval) {
	in := r.in
	n := 0
	for _, e := range in.Effects {
		if e.Kind == "map-iteration" {
			n++
		}
	}
	if n == 0 {
		return
	}
	in.Backwards = true
	defer func() { in.Backwards = false }()
	bad, why := ai.F, ""
	for _, x := range r.at(i.G, i.V, i.T, m+"()") {
		d, w := r.same(in.B.And(x.g, first.g), first.v, x.v, 0)
		if d != ai.F {
			bad, why = in.B.Or(bad, d), w
		}
	}
	r.report("order", r.c.shortType(i.T)+"."+m+" does not depend on the order of a map", bad, why)
}

// totalCRC reads a message and checks its parity, with arbitrary lists.
func (c *Ctx) totalCRC(o *totality, n int) {
	read, crc := c.funcName("modes/reader.ReadMessage"), c.funcName("modes/reader.CheckCRC")
	if read == nil || crc == nil || len(crc.Params) != 4 {
		c.R.Bad(Viol{Key: "anchor|CheckCRC", Rule: "anchor", Detail: "function modes/reader.ReadMessage or modes/reader.CheckCRC not found"})
		return
	}
	in := c.P.NewInterp()
	st := in.NewState()
	bs, _ := crcBytes(in, n, "")
	data := in.NewBytes(st, "input", "input", bs)
	r := &run{c: c, in: in, st: st, fn: crc, name: c.fname(crc)}
	v, st := in.CallFn(read, []ai.Value{data}, st)
	t := v.(*ai.Agg)
	st.PC = in.B.And(st.PC, nilGuard(in, t.Elems[1], st.PC))
	in.Freeze(st)
	args := []ai.Value{t.Elems[0], data}
	for k := 2; k < 4; k++ {
		m, ok := crc.Params[k].Type().Underlying().(*types.Map)
		if !ok {
			c.R.Bad(Viol{Key: "anchor|CheckCRC", Rule: "anchor", Where: r.name, Detail: "another signature"})
			return
		}
		args = append(args, in.SymMap(st, crc.Params[k].Name(), m))
	}
	if err := ai.Guard(func() { in.CallFn(crc, args, st) }); err != nil {
		c.R.Bad(Viol{Key: "undecided|CheckCRC", Rule: "undecided", Where: r.name, Detail: err.Error()})
	}
	c.ended(o, r, nil)
}

// ended turns what the analysis of one entry point recorded into verdicts.
func (c *Ctx) ended(o *totality, r *run, _ map[string]bool) {
	in := r.in
	if o.panics {
		c.panics(r, "")
	}
	if o.effects {
		c.effects(r)
	}
	if o.ends {
		c.ends(r)
	}
	c.undecided(in, r.name)
	c.R.Analysed(c, in)
}

// ends records the loops and the recursive functions that the analysis followed to their end,
// and reports everything that can wait: goroutines, and operations outside the modelled library.
func (c *Ctx) ends(r *run) {
	in := r.in
	most := 0
	for b, n := range in.Loops {
		c.R.Obligation("loop", fmt.Sprintf("%s: the loop of %s at %s ends", r.name, c.fname(b.Parent()), c.rel(in.Place(b))), true)
		if n > most {
			most = n
		}
	}
	c.R.Most("largest number of iterations", most)
	for f, n := range in.Nested {
		if n > 1 {
			c.R.Obligation("recursion", fmt.Sprintf("%s: the recursion of %s ends", r.name, c.fname(f)), true)
		}
	}
	c.R.Obligation("ends", r.name+": every path was followed to its end", true)
	n := 0
	for _, e := range in.Effects {
		if e.G == ai.F || e.Kind != "goroutine" && e.Kind != "unknown-call" {
			continue
		}
		n++
		fn := strings.ReplaceAll(e.Fn, c.P.Mod+"/", "")
		c.R.Bad(Viol{Key: "wait|" + e.Kind + "|" + fn + "|" + e.What, Rule: "wait/" + e.Kind, Where: fn + " at " + c.rel(e.Pos.String()),
			Detail: e.What + " is not known to end, reached from " + r.name, Witness: witness(in, e.G, r.n)})
	}
	c.R.Obligation("wait", r.name+": waits for nothing", n == 0)
}

// panics reports every operation that can panic.
func (c *Ctx) panics(r *run, what string) {
	in := r.in
	for _, k := range ai.SortedObls(in.Obls) {
		ob := in.Obls[k]
		c.R.Obligation("panic/"+ob.Kind, r.name+": "+c.rel(ob.Pos.String())+" "+ob.Kind, ob.Failed == ai.F)
		if ob.Failed == ai.F {
			continue
		}
		fn := strings.ReplaceAll(ob.Fn, c.P.Mod+"/", "")
		c.R.Bad(Viol{Key: "panic|" + ob.Kind + "|" + fn + "|" + ob.Detail, Rule: "panic/" + ob.Kind, Where: fn + " at " + c.rel(ob.Pos.String()),
			Detail: ob.Detail + ", reached from " + r.name + " by " + strings.ReplaceAll(ob.Stack, c.P.Mod+"/", ""), Witness: witness(in, ob.Failed, r.n)})
	}
}

// effects reports everything done besides computing a result.
func (c *Ctx) effects(r *run) {
	in := r.in
	n := 0
	for _, e := range in.Effects {
		if e.Kind == "map-iteration" || e.G == ai.F {
			continue
		}
		n++
		fn := strings.ReplaceAll(e.Fn, c.P.Mod+"/", "")
		c.R.Bad(Viol{Key: "effect|" + e.Kind + "|" + fn + "|" + e.What, Rule: "effect/" + e.Kind, Where: fn + " at " + c.rel(e.Pos.String()),
			Detail: e.Kind + ": " + e.What + ", reached from " + r.name, Witness: witness(in, e.G, r.n)})
	}
	c.R.Obligation("effect", r.name+": no write, output or outside call", n == 0)
}
