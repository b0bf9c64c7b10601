package checks

import (
	_ "embed"
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

//go:embed oracle/geo.go.txt
var oracleSrc string

func init() {
	goChecks["P16"] = checkVelocity
	goChecks["P32"] = func(c *Ctx) {
		c.positions([]position{{"pkg/geo.GetCPRAirborneGlobalPosition", "AirborneGlobal", true}})
	}
	goChecks["P33"] = func(c *Ctx) {
		c.positions([]position{{"pkg/geo.GetCPRSurfaceGlobalPosition", "SurfaceGlobal", true}})
	}
	goChecks["P34"] = func(c *Ctx) {
		c.positions([]position{
			{"pkg/geo.GetCPRAirborneLocalPosition", "AirborneLocal", false},
			{"pkg/geo.GetCPRSurfaceLocalPosition", "SurfaceLocal", false},
		})
	}
	goChecks["P35"] = checkDistance
}

// position is a function of the repository, its reference, and whether both may fail.
type position struct {
	fn, ref string
	fails   bool
}

func (c *Ctx) oracle() *ssa.Package {
	sp, err := c.P.AddOracle("oracle/geo.go", oracleSrc)
	if err != nil {
		panic(fmt.Errorf("the reference does not type-check: %w", err))
	}
	return sp
}

// prepare makes unknown arguments for a function: coordinates of 17 bits, Booleans, numbers.
func (c *Ctx) prepare(q string) (*run, []ai.Value) {
	fn := c.funcName(q)
	if fn == nil {
		c.R.Bad(Viol{Key: "anchor|" + q, Rule: "anchor", Where: q, Detail: "function not found"})
		return nil, nil
	}
	r := &run{c: c, in: c.P.NewInterp(), fn: fn, name: q}
	r.st = r.in.NewState()
	var args []ai.Value
	for k, p := range fn.Params {
		name := fmt.Sprintf("%s#%d", p.Name(), k)
		if ai.IsFloat(p.Type()) {
			args = append(args, ai.Single(r.in.FloatInput(name)))
			continue
		}
		v, ok := r.in.Fresh(p.Type(), name, r.st, false).(*ai.BV)
		if !ok {
			c.R.Bad(Viol{Key: "anchor|" + q, Rule: "anchor", Where: q, Detail: "parameter " + p.Name() + " is not a number"})
			return nil, nil
		}
		if len(v.Bits) > 17 {
			v = r.in.Resize(&ai.BV{Bits: v.Bits[:17]}, len(v.Bits), false)
		}
		args = append(args, v)
	}
	return r, args
}

// eval runs a function on a copy of the state.
func (r *run) eval(fn *ssa.Function, args []ai.Value) ([]ai.Value, ai.Node) {
	start := r.st.PC
	var v ai.Value
	var st *ai.State
	if err := ai.Guard(func() { v, st = r.in.CallFn(fn, args, r.st) }); err != nil {
		panic(fmt.Errorf("the analysis of %s stopped: %w", fn.Name(), err))
	}
	if st == nil {
		r.st.PC = start
		return nil, ai.F
	}
	g := st.PC
	r.st = st
	r.st.PC = start
	if fn.Signature.Results().Len() == 1 {
		return []ai.Value{v}, g
	}
	return v.(*ai.Agg).Elems, g
}

func sameSignature(fn, ref *ssa.Function, fails bool) bool {
	a, b := fn.Signature, ref.Signature
	if !types.Identical(a.Params(), b.Params()) && a.Params().Len() != b.Params().Len() || a.Results().Len() != b.Results().Len() {
		return false
	}
	for k := 0; k < a.Params().Len(); k++ {
		if !types.Identical(a.Params().At(k).Type(), b.Params().At(k).Type()) {
			return false
		}
	}
	n := a.Results().Len()
	for k := 0; k < n; k++ {
		if fails && k == n-1 {
			if !isErr(a.Results().At(k).Type()) {
				return false
			}
		} else if !types.Identical(a.Results().At(k).Type(), b.Results().At(k).Type()) {
			return false
		}
	}
	return true
}

// positions compares position functions with their references, as equations over real numbers.
func (c *Ctx) positions(ps []position) {
	o := c.oracle()
	c.each(len(ps), func(k int) string { return ps[k].fn }, func(k int) {
		p := ps[k]
		ref := o.Func(p.ref)
		r, args := c.prepare(p.fn)
		if r == nil {
			return
		}
		in := r.in
		if !sameSignature(r.fn, ref, p.fails) {
			c.R.Bad(Viol{Key: "anchor|" + p.fn, Rule: "anchor", Where: p.fn, Detail: "the parameters or results are not the known ones"})
			return
		}
		got, g := r.eval(r.fn, args)
		c.undecided(in, p.fn)
		c.precise(in)
		c.R.Seen(c, in)
		c.R.Count("sign tests and unknowns of the function", in.Unknowns())
		want, h := r.eval(ref, args)
		c.undecided(in, p.fn)
		c.R.Count("sign tests and unknowns with the reference", in.Unknowns())
		dom := in.B.And(r.st.PC, in.Consistent())
		r.report("returns", "gives a result for every input", in.B.AndN(dom, h, in.B.Not(g)), "")
		dom = in.B.AndN(dom, g, h)
		n := len(got)
		if p.fails {
			n--
			ok := want[n].(*ai.BV).Bits[0]
			fine := nilGuard(in, got[n], dom)
			r.report("error", "gives an error exactly when there is no position", in.Settle(in.B.AndN(dom, in.B.Xor(ok, fine))), "")
			dom = in.B.AndN(dom, ok, fine)
		}
		names := []string{"the latitude", "the longitude"}
		for i := 0; i < n; i++ {
			bad, why := r.sameNumber(got[i], want[i], dom)
			r.report("equation", names[i]+" follows the equations", bad, why)
		}
	})
}

// precise reports single precision in the functions analysed: 24 bits hold neither a coordinate to
// the resolution of its encoding nor a distance to the metre.
func (c *Ctx) precise(in *ai.Interp) {
	single := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && (b.Kind() == types.Float32 || b.Kind() == types.Complex64)
	}
	for fn := range in.FuncsSeen {
		if fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path()+"/", c.P.Mod+"/") || fn.Name() == "init" {
			continue
		}
		n := 0
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				v, ok := i.(ssa.Value)
				if !ok || !single(v.Type()) {
					continue
				}
				n++
				c.R.Bad(Viol{Key: "precision|" + c.fname(fn), Rule: "precision", Where: c.fname(fn) + " at " + c.rel(c.P.SSA.Fset.Position(i.Pos()).String()), Detail: "a number of single precision"})
			}
		}
		c.R.Obligation("precision", c.fname(fn)+": double precision only", n == 0)
	}
}

// sameNumber is a condition under which two numbers differ, found pair of cases by pair of cases.
func (r *run) sameNumber(a, b ai.Value, g ai.Node) (ai.Node, string) {
	in := r.in
	cases := 0
	defer func() { r.c.R.Count("pairs of cases compared", cases) }()
	for _, x := range in.Prune(a.(*ai.Alts), g) {
		for _, y := range in.Prune(b.(*ai.Alts), in.B.And(g, x.G)) {
			h := in.B.AndN(g, x.G, y.G)
			if h == ai.F {
				continue
			}
			cases++
			p, ok1 := x.V.(*ai.Poly)
			q, ok2 := y.V.(*ai.Poly)
			if !ok1 || !ok2 {
				if h = in.Settle(h); h != ai.F {
					return h, "not a number"
				}
				continue
			}
			d, _ := in.PolyDiffer(p, q, h)
			if d = in.Settle(d); d != ai.F {
				return d, fmt.Sprintf("gives %s, expected %s", in.DescribeAtom(p, d), in.DescribeAtom(q, d))
			}
		}
	}
	return ai.F, ""
}

func checkDistance(c *Ctx) {
	o := c.oracle()
	q := "pkg/geo.ComputeGroundDistance"
	r, args := c.prepare(q)
	if r == nil {
		return
	}
	in := r.in
	if len(args) != 4 || r.fn.Signature.Results().Len() != 1 {
		c.R.Bad(Viol{Key: "anchor|" + q, Rule: "anchor", Where: q, Detail: "the parameters or results are not the known ones"})
		return
	}
	for k, a := range args {
		al, ok := a.(*ai.Alts)
		if !ok {
			c.R.Bad(Viol{Key: "anchor|" + q, Rule: "anchor", Where: q, Detail: "a parameter is not a real number"})
			return
		}
		lim := []float64{90, 360}[k%2]
		in.SetRange(al.A[0].V.(*ai.Poly), -lim, lim)
	}
	got, g := r.eval(r.fn, args)
	c.undecided(in, q)
	c.precise(in)
	c.R.Seen(c, in)
	calls := append([]ai.MathCall{}, in.MathCalls...)
	want, h := r.eval(o.Func("Distance"), args)
	dom := in.B.And(r.st.PC, in.Consistent())
	r.report("returns", "gives a result for every input", in.B.AndN(dom, h, in.B.Not(g)), "")
	// the haversine of two points is at most 1: above it there is only rounding
	below := ai.F
	for _, x := range in.Prune(want[1].(*ai.Alts), h) {
		_, _, gt := in.Tri(in.PAdd(x.V.(*ai.Poly), in.PolyInt(-1)))
		below = in.B.Or(below, in.B.Diff(x.G, gt))
	}
	bad, why := r.sameNumber(got[0], want[0], in.B.AndN(dom, g, h, below))
	r.report("equation", "the distance follows the haversine formula", bad, why)
	r.domains(calls, dom)
}

// domains decides that partial functions are applied inside their domain, also when rounding has
// carried a number to the edge.
func (r *run) domains(calls []ai.MathCall, dom ai.Node) {
	in := r.in
	for _, m := range calls {
		out := in.B.AndN(dom, in.Outside(m))
		out = in.Settle(out)
		r.report("domain", m.Op+" is applied inside its domain", out, "at "+r.c.rel(m.Pos)+" to "+in.DescribeAtom(m.Arg, out))
	}
	r.c.R.Count("applications of partial functions", len(calls))
}

// checkVelocity decides the derived speed and track of the ground speed messages.
func checkVelocity(c *Ctx) {
	o := c.oracle()
	reader := map[string]string{"AirborneVelocityGroundSpeedNormal": "bds09.ReadAirborneVelocityGroundSpeedNormal", "AirborneVelocityGroundSpeedSupersonic": "bds09.ReadAirborneVelocityGroundSpeedSupersonic"}
	names := []string{"AirborneVelocityGroundSpeedNormal", "AirborneVelocityGroundSpeedSupersonic"}
	c.each(len(names), func(k int) string { return names[k] }, func(k int) {
		r, ok := c.call(&Entry{Func: reader[names[k]], Args: []Arg{{Name: "data", Len: 7}}}, false)
		if !ok {
			return
		}
		n := 0
		for _, i := range r.insts {
			if i.T.Obj().Name() == names[k] {
				n++
				c.velocity(r, i, o)
			}
		}
		if n == 0 {
			c.R.Bad(Viol{Key: "reached|" + names[k], Rule: "reached", Where: reader[names[k]], Detail: "gives no " + names[k]})
		}
		c.R.Seen(c, r.in)
	})
}

func (c *Ctx) velocity(r *run, i inst, o *ssa.Package) {
	in := r.in
	one := func(path string) gval {
		vs := r.at(i.G, i.V, i.T, path)
		if len(vs) != 1 {
			panic(fmt.Errorf("%s has %d values", path, len(vs)))
		}
		return vs[0]
	}
	bv := func(path string) *ai.BV {
		v, ok := one(path).v.(*ai.BV)
		if !ok {
			panic(fmt.Errorf("%s is not a whole number", path))
		}
		return v
	}
	code := func(path string, n int64) ai.Node { v := bv(path); return in.Eq(v, in.Int(len(v.Bits), n)) }
	const regular, west, south = 1, 1, 1
	ok := in.B.And(code("VelocityEWStatus", regular), code("VelocityNSStatus", regular))
	flag := func(n ai.Node) *ai.BV { return &ai.BV{Bits: []ai.Node{n}} }
	r.st.PC = i.G
	want, h := r.eval(o.Func("Velocity"), []ai.Value{in.Resize(bv("VelocityEW"), 16, false), in.Resize(bv("VelocityNS"), 16, false), flag(code("DirectionEastWest", west)), flag(code("DirectionNorthSouth", south))})
	for k, m := range []string{"GetSpeed()", "GetTrack()"} {
		x := one(m)
		tu, isT := x.t.(*types.Tuple)
		if !isT || tu.Len() != 2 || !isErr(tu.At(1).Type()) {
			panic(fmt.Errorf("%s does not give a value and an error", m))
		}
		a := x.v.(*ai.Agg)
		fine := nilGuard(in, a.Elems[1], x.g)
		r.report("returns", i.T.Obj().Name()+"."+m+" returns", in.B.Diff(i.G, x.g), "")
		r.report("error", i.T.Obj().Name()+"."+m+" is an error exactly when a component is not regular", in.B.And(x.g, in.B.Xor(fine, ok)), "")
		dom := in.B.AndN(x.g, h, ok, fine)
		bad, why := ai.F, ""
		if k == 0 {
			bad, why = r.same(dom, a.Elems[0], want[0], 0)
		} else {
			bad, why = r.sameNumber(a.Elems[0], want[1], dom)
		}
		r.report("equation", i.T.Obj().Name()+"."+m+" follows from the components", bad, why)
	}
	c.velocityReport(r, i)
}

// velocityReport decides the lines of the report that show the derived values.
func (c *Ctx) velocityReport(r *run, i inst) {
	ts, err := loadReports()
	if err != nil {
		panic(err)
	}
	in := r.in
	const first = "Computed Speed:"
	for k := range ts {
		t := &ts[k]
		if c.typeName(t.name) == nil || c.typeName(t.name).Obj() != i.T.Obj() {
			continue
		}
		var want []ai.Seg
		for _, l := range t.lines {
			if want == nil && !strings.HasPrefix(l.text, first) {
				continue
			}
			if want != nil {
				want = append(want, ai.Lit("\n"))
			}
			want = append(want, r.reportText(i, l.text)...)
		}
		for _, x := range r.at(i.G, i.V, i.T, "ToString()") {
			a, ok := x.v.(*ai.Alts)
			if !ok {
				panic(fmt.Errorf("the report is not text"))
			}
			tail, ok := textFrom(in.Prune(a, x.g), first)
			if !ok { // the lines are put together in another way: the report as a whole
				c.report31(r, nil, t, i)
				continue
			}
			bad, why := textDiffer(in, tail, ai.Single(&ai.Str{Segs: want}), x.g)
			r.report("report", i.T.Obj().Name()+" shows the derived values", bad, why)
		}
		return
	}
	c.R.Bad(Viol{Key: "spec|" + i.T.Obj().Name(), Rule: "spec", Detail: "no report is known"})
}

// textFrom cuts each text before the first appearance of a word.
func textFrom(as []ai.Alt, word string) (*ai.Alts, bool) {
	out := &ai.Alts{}
	for _, a := range as {
		s, ok := a.V.(*ai.Str)
		if !ok {
			return nil, false
		}
		k, at := -1, 0
		for n, q := range s.Segs {
			if l, ok := q.(ai.Lit); ok {
				if at = strings.Index(string(l), word); at >= 0 {
					k = n
					break
				}
			}
		}
		if k < 0 {
			return nil, false
		}
		segs := append([]ai.Seg{s.Segs[k].(ai.Lit)[at:]}, s.Segs[k+1:]...)
		out.A = append(out.A, ai.Alt{G: a.G, V: &ai.Str{Segs: segs}})
	}
	return out, true
}
