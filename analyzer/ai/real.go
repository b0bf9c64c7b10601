package ai

import (
	"math"
	"math/big"
	"sort"
	"strings"
)

// Normal forms of real-number expressions over uninterpreted functions.

var unaryF = map[string]func(float64) float64{
	"floor": math.Floor, "cos": math.Cos, "sin": math.Sin, "tan": math.Tan, "acos": math.Acos, "asin": math.Asin,
	"atan": math.Atan, "sqrt": math.Sqrt, "exp": math.Exp, "log": math.Log,
}
var binaryF = map[string]func(x, y float64) float64{"atan2": math.Atan2, "pow": math.Pow}

func near(r *big.Rat) (*big.Rat, bool) {
	f, _ := r.Float64()
	n := math.Round(f)
	if math.Abs(f-n) > 1e-9*math.Max(1, math.Abs(f)) || math.Abs(n) > 1e15 {
		return r, false
	}
	return new(big.Rat).SetFloat64(n), true
}

// intAtom says whether an atom stands for a whole number.
func (in *Interp) intAtom(id int) bool {
	return in.atoms[id].bit > 1 || in.atoms[id].op == "floor"
}

// intTerm says whether a term is a whole number.
func (in *Interp) intTerm(t Term) bool {
	for _, id := range t.M {
		if !in.intAtom(id) {
			return false
		}
	}
	_, ok := near(t.C)
	return ok
}

func neg(p *Poly, in *Interp) *Poly { return in.polyScale(p, big.NewRat(-1, 1)) }

func leadNegative(p *Poly) bool { return len(p.Ts) > 0 && p.Ts[len(p.Ts)-1].C.Sign() < 0 }

// op applies a function to numbers.
func (in *Interp) op(name string, a ...*Poly) *Poly {
	if len(a) == 1 {
		if c, ok := a[0].constant(); ok && unaryF[name] != nil {
			x, _ := c.Float64()
			if y := unaryF[name](x); !math.IsNaN(y) && !math.IsInf(y, 0) {
				return in.PolyConst(new(big.Rat).SetFloat64(y))
			}
		}
	}
	if len(a) == 2 && binaryF[name] != nil {
		c, ok1 := a[0].constant()
		d, ok2 := a[1].constant()
		if ok1 && ok2 {
			x, _ := c.Float64()
			y, _ := d.Float64()
			if z := binaryF[name](x, y); !math.IsNaN(z) && !math.IsInf(z, 0) {
				return in.PolyConst(new(big.Rat).SetFloat64(z))
			}
		}
	}
	switch name {
	case "sqrt":
		a = []*Poly{in.sameInteger(a[0])}
	case "inv":
		return in.polyInv(a[0])
	case "mul":
		return in.polyMul(a[0], a[1])
	case "floor":
		// whole parts come out
		var out, rest []Term
		for _, t := range a[0].Ts {
			if len(t.M) == 0 {
				f, _ := t.C.Float64()
				if n, ok := near(t.C); ok {
					out = append(out, Term{n, nil})
				} else {
					fl := new(big.Rat).SetFloat64(math.Floor(f))
					out = append(out, Term{fl, nil})
					rest = append(rest, Term{new(big.Rat).Sub(t.C, fl), nil})
				}
			} else if in.intTerm(t) {
				n, _ := near(t.C)
				out = append(out, Term{n, t.M})
			} else {
				rest = append(rest, t)
			}
		}
		r := in.polyBuild(out)
		if len(rest) == 0 || len(rest) == 1 && len(rest[0].M) == 0 {
			return r
		}
		q := in.polyBuild(rest)
		if lo, hi, _, hiOpen, ok := in.limits(q); ok && math.Abs(lo) < 1e9 && math.Abs(hi) < 1e9 {
			l, h := math.Floor(lo), math.Floor(hi)
			if hiOpen && h == hi {
				h--
			}
			// one or two possible values
			if h <= l {
				return in.polyAdd(r, in.PolyConst(new(big.Rat).SetFloat64(l)))
			}
			if h == l+1 {
				lt, eq, gt := in.tri(in.polySub(q, in.PolyConst(new(big.Rat).SetFloat64(h))))
				if ge := in.B.Or(eq, gt); in.B.Not(lt) == ge {
					return in.polyAdd(r, in.polyAdd(in.PolyConst(new(big.Rat).SetFloat64(l)), in.bvToPoly(&BV{[]Node{ge}}, false)))
				}
			}
		}
		return in.polyAdd(r, in.polyAtom(in.opAtom("floor", q)))
	case "ceil":
		return neg(in.op("floor", neg(a[0], in)), in)
	case "cos", "sin":
		a[0] = in.turn(a[0])
		if name == "sin" && leadNegative(a[0]) {
			return neg(in.op(name, neg(a[0], in)), in)
		}
		if name == "cos" && leadNegative(a[0]) {
			a[0] = neg(a[0], in)
		}
	case "tan", "asin", "atan":
		if leadNegative(a[0]) {
			return neg(in.op(name, neg(a[0], in)), in)
		}
	case "hypot":
		return in.op("sqrt", in.polyAdd(in.polyMul(a[0], a[0]), in.polyMul(a[1], a[1])))
	case "atan2":
		if leadNegative(a[0]) {
			return neg(in.op(name, neg(a[0], in), a[1]), in)
		}
		// atan2(sqrt p, sqrt(1-p)) is asin(sqrt p)
		if p, ok := in.sqrtOf(a[0]); ok {
			if q, ok := in.sqrtOf(a[1]); ok {
				one := in.PolyConst(big.NewRat(1, 1))
				if in.close(in.polyAdd(p, q), one) {
					return in.op("asin", a[0])
				}
			}
		}
	case "pow":
		if c, ok := a[1].constant(); ok && c.Cmp(big.NewRat(1, 2)) == 0 {
			return in.op("sqrt", a[0])
		}
	}
	return in.polyAtom(in.opAtom(name, a...))
}

// sameInteger returns the first of the square root arguments seen so far which is the
// same integer, under another expression of its bits. A signature, of values at a few
// points, chooses the arguments worth comparing.
func (in *Interp) sameInteger(p *Poly) *Poly {
	if len(p.Ts) == 0 || len(p.Ts) >= 1000 {
		return p
	}
	for _, t := range p.Ts {
		if !t.C.IsInt() {
			return p
		}
		for _, id := range t.M {
			if in.atoms[id].bit <= 1 {
				return p
			}
		}
	}
	sig, key := in.signature(p), p.Key()
	for _, q := range in.sqrtArg[sig] {
		if q.Key() == key {
			return q
		}
	}
	if len(in.sqrtArg[sig]) > 0 {
		v, _, ok := in.polyToBV(p, 72)
		for _, q := range in.sqrtArg[sig] {
			if w, _, okq := in.polyToBV(q, 72); ok && okq && bvKey(v) == bvKey(w) {
				return q
			}
		}
	}
	in.sqrtArg[sig] = append(in.sqrtArg[sig], p)
	return p
}

// signature holds the values of a polynomial of bits at a few arbitrary points: equal
// polynomials have equal signatures.
func (in *Interp) signature(p *Poly) string {
	var sig strings.Builder
	for i := 1; i <= 6; i++ {
		sum := new(big.Int)
		for _, t := range p.Ts {
			one := true
			for _, id := range t.M {
				one = one && in.B.At(in.atoms[id].bit, func(v int) bool {
					h := uint32(v*31+i) * 2654435761
					return h>>(16+uint(i))&1 == 1
				})
			}
			if one {
				sum.Add(sum, t.C.Num())
			}
		}
		sig.WriteString(sum.String() + ",")
	}
	return sig.String()
}

// sqrtShift recognises c*(sqrt(q) + d).
func (in *Interp) sqrtShift(p *Poly) (q *Poly, d float64, sign int, ok bool) {
	if len(p.Ts) == 0 || len(p.Ts) > 2 {
		return
	}
	id, c := -1, 0.0
	for _, t := range p.Ts {
		f, _ := t.C.Float64()
		switch {
		case len(t.M) == 0:
			d = f
		case len(t.M) == 1 && in.atoms[t.M[0]].op == "sqrt":
			id, c = t.M[0], f
		default:
			return
		}
	}
	if id < 0 {
		return
	}
	sign = 1
	if c < 0 {
		sign = -1
	}
	return in.atoms[id].args[0], d / c, sign, true
}

// turn drops whole turns from an angle.
func (in *Interp) turn(p *Poly) *Poly {
	for _, t := range p.Ts {
		if len(t.M) == 0 {
			f, _ := t.C.Float64()
			if k := math.Round(f / (2 * math.Pi)); k != 0 && math.Abs(f-k*2*math.Pi) < 1e-12*math.Abs(f) {
				return in.polySub(p, in.PolyConst(t.C))
			}
		}
	}
	return p
}

// sqrtOf gives p when the number is exactly sqrt(p).
func (in *Interp) sqrtOf(p *Poly) (*Poly, bool) {
	if len(p.Ts) != 1 || len(p.Ts[0].M) != 1 || p.Ts[0].C.Cmp(big.NewRat(1, 1)) != 0 {
		return nil, false
	}
	d := in.atoms[p.Ts[0].M[0]]
	if d.op != "sqrt" {
		return nil, false
	}
	return d.args[0], true
}

// close: the same number up to rounding of coefficients.
func (in *Interp) close(p, q *Poly) bool { return len(in.noise(p, q).Ts) == 0 }

// truncAlts rounds towards zero.
func (in *Interp) truncAlts(p *Poly) []Alt {
	fl := in.op("floor", p)
	lt, _, _ := in.tri(p)
	_, isInt, _ := in.tri(in.polySub(p, fl))
	up := in.polyAdd(fl, in.PolyConst(big.NewRat(1, 1)))
	g := in.B.Diff(lt, isInt)
	return []Alt{{in.B.Not(g), fl}, {g, up}}
}

// roundAlts rounds to the nearest whole number, halves away from zero.
func (in *Interp) roundAlts(p *Poly) []Alt {
	half := in.PolyConst(big.NewRat(1, 2))
	lt, _, _ := in.tri(p)
	return []Alt{{in.B.Not(lt), in.op("floor", in.polyAdd(p, half))}, {lt, in.op("ceil", in.polySub(p, half))}}
}

// bounds gives an interval that certainly contains a number, when one is known.
func (in *Interp) bounds(p *Poly) (lo, hi float64, ok bool) {
	lo, hi, _, _, ok = in.limits(p)
	return
}

// limits gives also whether an end of the interval is never reached.
func (in *Interp) limits(p *Poly) (lo, hi float64, loOpen, hiOpen, ok bool) {
	lo, hi, ok = in.interval(p)
	// B*(q - floor q) + D lies in [D, D+B)
	for _, f := range in.floors(p) {
		A, D, linear := in.around(p, f)
		if !linear {
			continue
		}
		al, ah, k := in.interval(A)
		if !k || al < 0 && ah > 0 {
			continue
		}
		E := in.clean(in.polySub(D, A), p)
		if ah <= 0 { // B >= 0
			if l, _, k := in.interval(D); k && (!ok || l > lo) {
				lo, loOpen = l, false
			}
			if _, h, k := in.interval(E); k && (!ok || h < hi || h == hi && ah < 0) {
				hi, hiOpen = h, ah < 0
			}
		} else {
			if l, _, k := in.interval(E); k && (!ok || l > lo || l == lo && al > 0) {
				lo, loOpen = l, al > 0
			}
			if _, h, k := in.interval(D); k && (!ok || h < hi) {
				hi, hiOpen = h, false
			}
		}
		_, _, k1 := in.interval(D)
		_, _, k2 := in.interval(E)
		ok = ok || k1 && k2
	}
	return
}

// around writes a number as A*floor(q) + rest and gives A and D = rest + A*q.
func (in *Interp) around(p *Poly, f int) (A, D *Poly, linear bool) {
	var a, rest []Term
	for _, t := range p.Ts {
		var m []int
		n := 0
		for _, id := range t.M {
			if id == f {
				n++
			} else {
				m = append(m, id)
			}
		}
		if n > 1 {
			return nil, nil, false
		}
		if n == 0 {
			rest = append(rest, t)
		} else {
			a = append(a, Term{t.C, m})
		}
	}
	A = in.polyBuild(a)
	return A, in.clean(in.polyAdd(in.polyBuild(rest), in.polyMul(A, in.atoms[f].args[0])), p), true
}

// floors lists the rounded parts of a number.
func (in *Interp) floors(p *Poly) []int {
	var r []int
	seen := map[int]bool{}
	for _, t := range p.Ts {
		for _, id := range t.M {
			if in.atoms[id].op == "floor" && !seen[id] {
				seen[id] = true
				r = append(r, id)
			}
		}
	}
	return r
}

// clean drops terms that are rounding noise next to the coefficients of ref.
func (in *Interp) clean(p, ref *Poly) *Poly {
	s := 0.0
	for _, t := range ref.Ts {
		f, _ := t.C.Float64()
		s = math.Max(s, math.Abs(f))
	}
	q := &Poly{}
	for _, t := range p.Ts {
		f, _ := t.C.Float64()
		if math.Abs(f) > 1e-12*s {
			q.Ts = append(q.Ts, t)
		}
	}
	return q
}

// interval is interval arithmetic over the terms.
func (in *Interp) interval(p *Poly) (lo, hi float64, ok bool) {
	for _, t := range p.Ts {
		f, _ := t.C.Float64()
		a, b := f, f
		for k := 0; k < len(t.M); {
			id := t.M[k]
			n := 1
			for k+n < len(t.M) && t.M[k+n] == id {
				n++
			}
			l, h, known := in.atomRange(id)
			if n%2 == 0 { // an even power
				if !known {
					l, h = math.Inf(-1), math.Inf(1)
				}
				m := math.Max(math.Abs(l), math.Abs(h))
				if l > 0 {
					l = math.Pow(l, float64(n))
				} else if h < 0 {
					l = math.Pow(h, float64(n))
				} else {
					l = 0
				}
				h = math.Pow(m, float64(n))
			} else if n > 1 {
				l, h = math.Pow(l, float64(n)), math.Pow(h, float64(n))
			}
			if !known && n%2 == 1 {
				return 0, 0, false
			}
			a, b = product(a, b, l, h)
			k += n
		}
		lo, hi = lo+a, hi+b
	}
	return lo, hi, !math.IsNaN(lo) && !math.IsNaN(hi)
}

func product(a, b, c, d float64) (float64, float64) {
	m := func(x, y float64) float64 {
		if x == 0 || y == 0 {
			return 0
		}
		return x * y
	}
	v := []float64{m(a, c), m(a, d), m(b, c), m(b, d)}
	sort.Float64s(v)
	return v[0], v[3]
}

// atomRange is what is known about one atom.
func (in *Interp) atomRange(id int) (lo, hi float64, ok bool) {
	d := in.atoms[id]
	if d.bit > 1 {
		return 0, 1, true
	}
	if d.rng != nil {
		return d.rng[0], d.rng[1], true
	}
	const tiny = 1e-9
	switch d.op {
	case "cos":
		if l, h, k := in.bounds(d.args[0]); k && l >= -math.Pi/2-tiny && h <= math.Pi/2+tiny {
			return 0, 1, true
		}
		return -1, 1, true
	case "sin":
		return -1, 1, true
	case "acos":
		return 0, math.Pi, true
	case "asin", "atan":
		return -math.Pi / 2, math.Pi / 2, true
	case "atan2":
		if l, _, k := in.bounds(d.args[0]); k && l >= 0 {
			return 0, math.Pi, true
		}
		return -math.Pi, math.Pi, true
	case "sqrt":
		if _, h, k := in.bounds(d.args[0]); k && h >= 0 {
			return 0, math.Sqrt(h), true
		}
		return 0, math.Inf(1), true
	case "floor":
		if l, h, k := in.bounds(d.args[0]); k {
			return math.Floor(l), math.Floor(h), true
		}
	case "inv":
		if l, h, k := in.bounds(d.args[0]); k && l >= 0 {
			return 1 / h, 1 / l, true
		}
	}
	return 0, 0, false
}

// SetRange states what is known about an input number.
func (in *Interp) SetRange(p *Poly, lo, hi float64) {
	if len(p.Ts) == 1 && len(p.Ts[0].M) == 1 {
		in.atoms[p.Ts[0].M[0]].rng = &[2]float64{lo, hi}
	}
}

// reduceInv applies P * (1/P) = 1.
func (in *Interp) reduceInv(p *Poly) *Poly {
	for steps := 0; steps < 200; steps++ {
		done := true
		for k, t := range p.Ts {
			for i, id := range t.M {
				q := in.atoms[id].inv
				if q == nil || len(q.Ts) == 0 {
					continue
				}
				lead := q.Ts[len(q.Ts)-1]
				if len(lead.M) != 1 {
					continue
				}
				j := -1
				for n, x := range t.M {
					if x == lead.M[0] {
						j = n
					}
				}
				if j < 0 {
					continue
				}
				// t = c*lead*inv*rest, lead = (1/inv - others)/coefficient
				var rest []int
				for n, x := range t.M {
					if n != i && n != j {
						rest = append(rest, x)
					}
				}
				c := new(big.Rat).Quo(t.C, lead.C)
				ts := append(append([]Term{}, p.Ts[:k]...), p.Ts[k+1:]...)
				ts = append(ts, Term{c, rest})
				for _, o := range q.Ts[:len(q.Ts)-1] {
					m := append(append([]int{id}, rest...), o.M...)
					sort.Ints(m)
					ts = append(ts, Term{new(big.Rat).Neg(new(big.Rat).Mul(c, o.C)), in.idem(m)})
				}
				p = in.polyBuild(ts)
				done = false
				break
			}
			if !done {
				break
			}
		}
		if done {
			return p
		}
	}
	return p
}

// idem drops repeated bits of a sorted monomial.
func (in *Interp) idem(m []int) []int {
	var mm []int
	for _, id := range m {
		if in.atoms[id].bit > 1 && len(mm) > 0 && mm[len(mm)-1] == id {
			continue
		}
		mm = append(mm, id)
	}
	return mm
}

// noise is the difference of two numbers without what is rounding of coefficients.
func (in *Interp) noise(a, b *Poly) *Poly {
	d := in.polySub(a, b)
	scale := 0.0
	for _, t := range append(append([]Term{}, a.Ts...), b.Ts...) {
		f, _ := t.C.Float64()
		scale = math.Max(scale, math.Abs(f))
	}
	q := &Poly{}
	for _, t := range d.Ts {
		f, _ := t.C.Float64()
		if math.Abs(f) > 1e-6*in.coefOf(a, b, t.M) && math.Abs(f) > 1e-12*scale {
			q.Ts = append(q.Ts, t)
		}
	}
	return q
}

// signTest is a recorded unknown: the sign of shape + C.
type signTest struct {
	c    float64
	lt   Node
	zero Node
}

// recordSign keeps the tests of the same shape together.
func (in *Interp) recordSign(monic *Poly, l, e Node) {
	shape := &Poly{}
	c := 0.0
	for _, t := range monic.Ts {
		if len(t.M) == 0 {
			c, _ = t.C.Float64()
		} else {
			shape.Ts = append(shape.Ts, t)
		}
	}
	k := shape.Key()
	for _, s := range in.signs[k] {
		if s.lt == l {
			return
		}
	}
	if in.signs == nil {
		in.signs = map[string][]signTest{}
	}
	in.signs[k] = append(in.signs[k], signTest{c, l, e})
}

// sumTest is a recorded unknown: the sign of a number.
type sumTest struct {
	p          *Poly
	lt, eq, gt Node
}

func (in *Interp) recordSum(p *Poly, lt, eq, gt Node) {
	k := p.Key()
	if in.sumIx[k] {
		return
	}
	if in.sumIx == nil {
		in.sumIx = map[string]bool{}
	}
	in.sumIx[k] = true
	in.sums = append(in.sums, sumTest{p, lt, eq, gt})
}

// transitive drops from a condition what no input can meet: the sign of a sum agrees with the
// signs of its terms, among the unknown sign tests that the condition g depends on. The work is
// bounded: less is then dropped.
func (in *Interp) transitive(g Node) Node {
	size := in.B.Size()
	vs := in.B.Support(g)
	var use []sumTest
	byKey := map[string]sumTest{}
	for _, s := range in.sums {
		on := false
		for v := range in.B.Support(s.lt, s.eq) {
			on = on || vs[v]
		}
		if on {
			n := sumTest{neg(s.p, in), s.gt, s.eq, s.lt}
			use = append(use, s, n)
			byKey[s.p.Key()], byKey[n.p.Key()] = s, n
		}
	}
	for i, a := range use {
		for _, b := range use[i+1:] {
			c, ok := byKey[in.polyAdd(a.p, b.p).Key()]
			if !ok {
				continue
			}
			if g == F || in.B.Size() > size+1000000 {
				return g
			}
			up := in.B.AndN(in.B.Or(a.gt, a.eq), in.B.Or(b.gt, b.eq))
			down := in.B.AndN(in.B.Or(a.lt, a.eq), in.B.Or(b.lt, b.eq))
			g = in.B.And(g, in.B.Or(in.B.Not(up), in.B.Or(in.B.And(c.gt, in.B.Or(a.gt, b.gt)), in.B.AndN(c.eq, a.eq, b.eq))))
			g = in.B.And(g, in.B.Or(in.B.Not(down), in.B.Or(in.B.And(c.lt, in.B.Or(a.lt, b.lt)), in.B.AndN(c.eq, a.eq, b.eq))))
		}
	}
	return g
}

// Settle drops from a condition what no input can meet.
func (in *Interp) Settle(g Node) Node {
	if g != F {
		g = in.B.And(g, in.Consistent())
	}
	if g != F {
		g = in.transitive(g)
	}
	if g != F {
		g = in.substituted(g)
	}
	return g
}

// substituted drops from a condition what no input can meet: where a test settles an atom, the
// sign of a number is the sign of what it becomes. The work is bounded: less is then dropped.
func (in *Interp) substituted(g Node) Node {
	size := in.B.Size()
	n := len(in.sums)
	defer func() { // the tests made on the way are of no use later
		for _, s := range in.sums[n:] {
			delete(in.sumIx, s.p.Key())
		}
		in.sums = in.sums[:n]
	}()
	es := in.equalities(g)
	sort.SliceStable(es, func(i, j int) bool { return in.B.Implies(g, es[i].eq) && !in.B.Implies(g, es[j].eq) })
	for _, e := range es {
		vs := in.B.Support(g)
		for _, s := range in.sums[:n] {
			if in.B.And(g, e.eq) == F || in.B.Size() > size+200000 {
				break
			}
			on := false
			for v := range in.B.Support(s.lt, s.eq) {
				on = on || vs[v]
			}
			if !on || s.eq == e.eq {
				continue
			}
			q := in.polySubst(s.p, e.id, e.by)
			if q.Key() == s.p.Key() {
				continue
			}
			lt, eq, gt := in.tri(q)
			if in.B.Implies(g, e.eq) {
				g = in.retest(g, s, lt, eq, gt)
				continue
			}
			for _, w := range [][2]Node{{s.lt, lt}, {s.eq, eq}, {s.gt, gt}} {
				g = in.B.Diff(g, in.B.And(e.eq, in.B.Xor(w[0], w[1])))
			}
		}
	}
	return g
}

// retest replaces the unknowns of a sign test in g by what they are now known to be.
func (in *Interp) retest(g Node, s sumTest, lt, eq, gt Node) Node {
	vars := func(n Node) []int {
		var r []int
		for v := range in.B.Support(n) {
			if !strings.HasPrefix(in.B.Name(v), "nan:") {
				r = append(r, v)
			}
		}
		return r
	}
	put := func(v int, by Node) {
		g = in.B.Ite(by, in.B.Restrict(g, map[int]bool{v: true}), in.B.Restrict(g, map[int]bool{v: false}))
	}
	side := -1
	if l, h := vars(s.lt), vars(s.gt); len(l) == 1 && len(h) != 1 {
		side = l[0]
		put(side, lt)
	} else if len(h) == 1 && len(l) != 1 && len(l) > 0 {
		side = h[0]
		put(side, gt)
	}
	for _, v := range vars(s.eq) {
		if v != side {
			put(v, eq)
		}
	}
	return g
}

// Consistent is a condition that holds whatever the inputs are: unknown sign tests of numbers
// that differ by a constant agree with each other, and no input is NaN.
func (in *Interp) Consistent() Node {
	r := T
	for _, ss := range in.signs {
		sort.Slice(ss, func(i, j int) bool { return ss[i].c < ss[j].c })
		for i := 0; i+1 < len(ss); i++ {
			a, b := ss[i], ss[i+1] // a is the smaller number
			if b.c-a.c < 1e-12*math.Max(1, math.Abs(a.c)) {
				continue
			}
			// b <= 0 implies a < 0
			r = in.B.And(r, in.B.Or(a.lt, in.B.Not(in.B.Or(b.lt, b.zero))))
		}
	}
	for k, n := range in.keyVars {
		if len(k) > 4 && k[:4] == "nan:" {
			r = in.B.Diff(r, n)
		}
	}
	return r
}

// MathCall is one application of a partial function.
type MathCall struct {
	Op  string
	Arg *Poly
	G   Node
	Pos string
}

// mathCall records an application of a partial function.
func (in *Interp) mathCall(op string, a *Poly, g Node, pos string) {
	if g != F {
		in.MathCalls = append(in.MathCalls, MathCall{op, a, g, pos})
	}
}

// Outside is the condition under which a partial function is applied outside its domain.
func (in *Interp) Outside(m MathCall) Node {
	one := in.PolyConst(big.NewRat(1, 1))
	switch m.Op {
	case "sqrt":
		lt, _, _ := in.tri(m.Arg)
		return in.B.And(m.G, lt)
	case "asin", "acos":
		lo, _, _ := in.tri(in.polyAdd(m.Arg, one))
		_, _, hi := in.tri(in.polySub(m.Arg, one))
		return in.B.And(m.G, in.B.Or(lo, hi))
	}
	return F
}

// NonNegative says whether a number is certainly not negative.
func (in *Interp) NonNegative(p *Poly) bool {
	lo, _, ok := in.bounds(p)
	return ok && lo >= -1e-12
}

// Bounds gives an interval containing the number, when one is known.
func (in *Interp) Bounds(p *Poly) (float64, float64, bool) { return in.bounds(p) }
