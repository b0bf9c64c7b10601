package ai

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Poly is a real number: a polynomial over atoms (bits and uninterpreted terms).
type Poly struct {
	Ts  []Term
	key string
}

// Term is one monomial. M is sorted.
type Term struct {
	C *big.Rat
	M []int
}

type atomDef struct {
	key  string
	bit  Node // >1 for a bit
	op   string
	args []*Poly
	inv  *Poly
	nan  []int // float input atoms that may make it NaN
	rng  *[2]float64
}

func ratStr(r *big.Rat) string {
	f, _ := r.Float64()
	return fmt.Sprintf("%.9g", f)
}

func (p *Poly) Key() string {
	if p.key == "" {
		var b strings.Builder
		b.WriteString("r")
		for _, t := range p.Ts {
			s := ratStr(t.C)
			if s == "0" {
				continue
			}
			b.WriteString("+")
			b.WriteString(s)
			for _, m := range t.M {
				fmt.Fprintf(&b, "*a%d", m)
			}
		}
		p.key = b.String()
	}
	return p.key
}

func (in *Interp) atom(key string, mk func() atomDef) int {
	if id, ok := in.atomIx[key]; ok {
		return id
	}
	d := mk()
	d.key = key
	in.atoms = append(in.atoms, d)
	id := len(in.atoms) - 1
	in.atomIx[key] = id
	return id
}

func (in *Interp) bitAtom(n Node) int {
	return in.atom(fmt.Sprintf("b%d", n), func() atomDef { return atomDef{bit: n} })
}

func (in *Interp) PolyConst(r *big.Rat) *Poly {
	if r.Sign() == 0 {
		return &Poly{}
	}
	return &Poly{Ts: []Term{{r, nil}}}
}

func (in *Interp) polyAtom(id int) *Poly {
	return &Poly{Ts: []Term{{big.NewRat(1, 1), []int{id}}}}
}

// FloatInput is an unknown float parameter (possibly NaN).
func (in *Interp) FloatInput(name string) *Poly {
	id := in.atom("in:"+name, func() atomDef { return atomDef{} })
	in.atoms[id].nan = []int{id}
	return in.polyAtom(id)
}

func monoKey(m []int) string {
	var b strings.Builder
	for _, x := range m {
		fmt.Fprintf(&b, "%08x.", x)
	}
	return b.String()
}

func (in *Interp) polyBuild(ts []Term) *Poly {
	m := map[string]*Term{}
	for _, t := range ts {
		k := monoKey(t.M)
		if e, ok := m[k]; ok {
			e.C = new(big.Rat).Add(e.C, t.C)
		} else {
			c := t
			m[k] = &c
		}
	}
	ks := make([]string, 0, len(m))
	for k, t := range m {
		if t.C.Sign() != 0 {
			// cancellation noise of constants folded in floating point
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	p := &Poly{}
	for _, k := range ks {
		p.Ts = append(p.Ts, *m[k])
	}
	return p
}

func (in *Interp) polyAdd(a, b *Poly) *Poly {
	return in.polyBuild(append(append([]Term{}, a.Ts...), b.Ts...))
}

func (in *Interp) polyScale(a *Poly, c *big.Rat) *Poly {
	if c.Sign() == 0 {
		return &Poly{}
	}
	p := &Poly{}
	for _, t := range a.Ts {
		p.Ts = append(p.Ts, Term{new(big.Rat).Mul(t.C, c), t.M})
	}
	return p
}

func (in *Interp) polySub(a, b *Poly) *Poly { return in.polyAdd(a, in.polyScale(b, big.NewRat(-1, 1))) }

func (in *Interp) polyMul(a, b *Poly) *Poly {
	if len(a.Ts)*len(b.Ts) > 20000 {
		return in.polyAtom(in.opAtom("mul", a, b))
	}
	var ts []Term
	for _, x := range a.Ts {
		for _, y := range b.Ts {
			m := append(append([]int{}, x.M...), y.M...)
			sort.Ints(m)
			ts = append(ts, Term{new(big.Rat).Mul(x.C, y.C), in.idem(m)})
		}
	}
	return in.reduce(in.polyBuild(ts))
}

func (p *Poly) constant() (*big.Rat, bool) {
	if len(p.Ts) == 0 {
		return new(big.Rat), true
	}
	if len(p.Ts) == 1 && len(p.Ts[0].M) == 0 {
		return p.Ts[0].C, true
	}
	return nil, false
}

func (in *Interp) polyInv(a *Poly) *Poly {
	if c, ok := a.constant(); ok {
		if c.Sign() == 0 {
			return in.polyAtom(in.atom("inv0", func() atomDef { return atomDef{} }))
		}
		return in.PolyConst(new(big.Rat).Inv(c))
	}
	if len(a.Ts) == 1 {
		r := in.PolyConst(new(big.Rat).Inv(a.Ts[0].C))
		for _, id := range a.Ts[0].M {
			if in.atoms[id].inv != nil {
				r = in.polyMul(r, in.atoms[id].inv)
			} else {
				base := in.polyAtom(id)
				r = in.polyMul(r, in.invAtom(base))
			}
		}
		return r
	}
	lead := a.Ts[len(a.Ts)-1].C
	mon := in.polyScale(a, new(big.Rat).Inv(lead))
	return in.polyScale(in.invAtom(mon), new(big.Rat).Inv(lead))
}

func (in *Interp) invAtom(p *Poly) *Poly {
	id := in.opAtom("inv", p)
	in.atoms[id].inv = p
	return in.polyAtom(id)
}

// opAtom is an uninterpreted function application.
func (in *Interp) opAtom(op string, args ...*Poly) int {
	ks := make([]string, len(args))
	for i, a := range args {
		ks[i] = a.Key()
	}
	if op == "mul" {
		sort.Strings(ks)
	}
	key := op + "(" + strings.Join(ks, ",") + ")"
	return in.atom(key, func() atomDef {
		d := atomDef{op: op, args: args}
		for _, a := range args {
			d.nan = append(d.nan, in.nanAtoms(a)...)
		}
		return d
	})
}

func (in *Interp) nanAtoms(p *Poly) []int {
	m := map[int]bool{}
	for _, t := range p.Ts {
		for _, id := range t.M {
			for _, n := range in.atoms[id].nan {
				m[n] = true
			}
		}
	}
	var r []int
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

// bvToPoly is the numeric value of an integer.
func (in *Interp) bvToPoly(v *BV, signed bool) *Poly {
	if isConst(v) {
		return in.PolyConst(new(big.Rat).SetInt(constVal(v, signed)))
	}
	var ts []Term
	w := len(v.Bits)
	for i, b := range v.Bits {
		if b == F {
			continue
		}
		c := new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(i)))
		if signed && i == w-1 {
			c.Neg(c)
		}
		if b == T {
			ts = append(ts, Term{c, nil})
		} else if neg := in.B.Not(b); neg < b {
			// keep one polarity per function
			ts = append(ts, Term{c, nil}, Term{new(big.Rat).Neg(c), []int{in.bitAtom(neg)}})
		} else {
			ts = append(ts, Term{c, []int{in.bitAtom(b)}})
		}
	}
	return in.polyBuild(ts)
}

// polyUnder simplifies the bits that are constant under g.
func (in *Interp) polyUnder(p *Poly, g Node) *Poly {
	if g == T {
		return p
	}
	var ts []Term
	changed := false
	for _, t := range p.Ts {
		var m []int
		var subst []*Poly
		dead := false
		for _, id := range t.M {
			if b := in.atoms[id].bit; b > 1 {
				switch in.B.Under(b, g) {
				case 0:
					dead = true
				case -1:
					m = append(m, id)
				}
			} else if q := in.atomUnder(id, g); q != nil {
				subst = append(subst, q)
			} else {
				m = append(m, id)
			}
		}
		if dead || len(m) != len(t.M) {
			changed = true
		}
		if !dead && len(subst) > 0 {
			q := &Poly{Ts: []Term{{t.C, m}}}
			for _, f := range subst {
				q = in.polyMul(q, f)
			}
			ts = append(ts, q.Ts...)
		} else if !dead {
			ts = append(ts, Term{t.C, m})
		}
	}
	if !changed {
		return p
	}
	return in.polyBuild(ts)
}

// atomUnder is what a function application becomes under g; nil when it stays the same.
func (in *Interp) atomUnder(id int, g Node) *Poly {
	d := in.atoms[id]
	if len(d.args) == 0 {
		return nil
	}
	k := [2]int{id, int(g)}
	if p, ok := in.underMemo[k]; ok {
		return p
	}
	if in.underMemo == nil {
		in.underMemo = map[[2]int]*Poly{}
	}
	as := make([]*Poly, len(d.args))
	same := true
	for i, a := range d.args {
		as[i] = in.polyUnder(a, g)
		same = same && as[i].Key() == a.Key()
	}
	var r *Poly
	if !same {
		r = in.op(d.op, as...)
	}
	in.underMemo[k] = r
	return r
}

// reduce simplifies products: a number times its inverse, the square of a square root.
func (in *Interp) reduce(p *Poly) *Poly {
	for _, t := range p.Ts {
		for i, id := range t.M {
			if d := in.atoms[id]; d.op == "sqrt" && i > 0 && t.M[i-1] == id {
				rest := append(append([]int{}, t.M[:i-1]...), t.M[i+1:]...)
				var ts []Term
				for _, o := range p.Ts {
					if monoKey(o.M) != monoKey(t.M) {
						ts = append(ts, o)
					}
				}
				q := in.polyMul(&Poly{Ts: []Term{{t.C, rest}}}, d.args[0])
				return in.reduce(in.polyBuild(append(ts, q.Ts...)))
			}
		}
	}
	return in.reduceInv(p)
}

// polyToBV is the exact integer num/den of a polynomial linear in bits.
func (in *Interp) polyToBV(p *Poly, maxBits int) (*BV, *big.Int, bool) {
	den := big.NewInt(1)
	for _, t := range p.Ts {
		for _, id := range t.M {
			if in.atoms[id].bit <= 1 {
				return nil, nil, false
			}
		}
		d := t.C.Denom()
		g := new(big.Int).GCD(nil, nil, den, d)
		den = new(big.Int).Mul(den, new(big.Int).Div(d, g))
		if den.BitLen() > 70 {
			return nil, nil, false
		}
	}
	w := maxBits
	acc := in.Int(w, 0)
	sum := new(big.Int)
	for _, t := range p.Ts {
		c := new(big.Int).Mul(t.C.Num(), new(big.Int).Div(den, t.C.Denom()))
		sum.Add(sum, new(big.Int).Abs(c))
		if sum.BitLen() > w-2 {
			return nil, nil, false
		}
		b := T
		for _, id := range t.M {
			b = in.B.And(b, in.atoms[id].bit)
		}
		cv := in.constBV(w, c)
		r := make([]Node, w)
		for i := range r {
			r[i] = in.B.And(cv.Bits[i], b)
		}
		acc = in.bvAdd(acc, &BV{r}, F)
	}
	return acc, den, true
}

// infSign is the sign of a number that is infinite: a term with infinity and finite others.
func (in *Interp) infSign(d *Poly) int {
	r := 0
	for _, t := range d.Ts {
		for _, m := range t.M {
			if in.atoms[m].key != "inf" {
				continue
			}
			if len(t.M) > 1 {
				return 0
			}
			r = t.C.Sign()
		}
	}
	return r
}

// tri is the trichotomy of a polynomial: negative, zero, positive; and NaN for the rest.
func (in *Interp) tri(d *Poly) (lt, eq, gt Node) {
	if c, ok := d.constant(); ok {
		switch c.Sign() {
		case -1:
			return T, F, F
		case 0:
			return F, T, F
		}
		return F, F, T
	}
	if s := in.infSign(d); s != 0 {
		nan := F
		for _, a := range in.nanAtoms(d) {
			nan = in.B.Or(nan, in.keyed("nan:"+in.atoms[a].key))
		}
		if s < 0 {
			return in.B.Not(nan), F, F
		}
		return F, F, in.B.Not(nan)
	}
	if v, _, ok := in.polyToBV(d, 130); ok {
		neg := v.Bits[len(v.Bits)-1]
		z := in.bvEq(v, in.Int(len(v.Bits), 0))
		return neg, z, in.B.And(in.B.Not(neg), in.B.Not(z))
	}
	if x, y, s, ok := in.atan2Of(d); ok {
		// the sign of an angle
		l, e, g := in.tri(y)
		xl, xe, xg := in.tri(x)
		lt, eq, gt = in.B.And(l, in.B.OrN(xl, xe, xg)), in.B.And(e, in.B.Or(xe, xg)), in.B.Or(in.B.And(g, in.B.OrN(xl, xe, xg)), in.B.And(e, xl))
		if s < 0 {
			lt, gt = gt, lt
		}
		return
	}
	if q, c, s, ok := in.sqrtShift(d); ok && c <= 0 {
		lt, eq, gt = in.tri(in.polySub(q, in.PolyConst(new(big.Rat).SetFloat64(c*c))))
		if s < 0 {
			lt, gt = gt, lt
		}
		return
	}
	if l, e, g, ok := in.triCases(d); ok {
		return l, e, g
	}
	lead := d.Ts[len(d.Ts)-1].C
	flip := lead.Sign() < 0
	n := d
	if flip {
		n = in.polyScale(d, big.NewRat(-1, 1))
	}
	// scale to a monic polynomial
	n = in.polyScale(n, new(big.Rat).Inv(n.Ts[len(n.Ts)-1].C))
	k := n.Key()
	nan := F
	for _, a := range in.nanAtoms(n) {
		nan = in.B.Or(nan, in.keyed("nan:"+in.atoms[a].key))
	}
	l := in.keyed("lt0:" + k)
	e := in.keyed("eq0:" + k)
	num := in.B.Not(nan)
	lt = in.B.And(num, l)
	eq = in.B.AndN(num, in.B.Not(l), e)
	gt = in.B.AndN(num, in.B.Not(l), in.B.Not(e))
	if lo, hi, lo1, hi1, ok := in.limits(n); ok {
		const tiny = 1e-12
		switch {
		case lo > tiny || lo >= -tiny && lo1:
			lt, eq, gt = F, F, num
		case hi < -tiny || hi <= tiny && hi1:
			lt, eq, gt = num, F, F
		case lo >= -tiny:
			lt, eq, gt = F, in.B.And(num, e), in.B.Diff(num, e)
		case hi <= tiny:
			lt, eq, gt = in.B.Diff(num, e), in.B.And(num, e), F
		}
	}
	in.recordSign(n, lt, eq)
	if flip {
		lt, gt = gt, lt
	}
	in.recordSum(d, lt, eq, gt)
	return
}

// keyed is a Boolean unknown with a canonical name.
func (in *Interp) keyed(k string) Node {
	if n, ok := in.keyVars[k]; ok {
		return n
	}
	n := in.B.Var(k)
	in.keyVars[k] = n
	in.tests[in.B.Level(n)] = true
	return n
}

// polyDiffer reports the condition, within g, under which two numbers differ (up to the
// rounding of coefficients). exact=false: the two are not comparable in the domain.
func (in *Interp) polyDiffer(a, b *Poly, g Node) (Node, bool) {
	if g == F {
		return F, true
	}
	if a.Key() == b.Key() {
		return F, true
	}
	a, b = in.polyUnder(a, g), in.polyUnder(b, g)
	if a.Key() == b.Key() {
		return F, true
	}
	d := in.noise(a, b)
	keep := d.Ts
	if len(keep) == 0 {
		return F, true
	}
	// exact comparison through integers: coefficients rounded to a fine grid
	v, _, ok := in.polyToBV(in.gridded(d), 130)
	if !ok {
		if n, ok := in.argsDiffer(a, b, g); ok {
			return n, true
		}
		// the two agree at least where their difference is zero
		_, eq, _ := in.tri(d)
		g = in.B.Diff(g, eq)
		for _, e := range in.equalities(g) {
			if h := in.B.And(g, e.eq); h != F && in.close(in.polyUnder(in.polySubst(a, e.id, e.by), h), in.polyUnder(in.polySubst(b, e.id, e.by), h)) {
				g = in.B.Diff(g, h)
			}
		}
		return g, false
	}
	nz := in.B.Not(in.bvEq(v, in.Int(len(v.Bits), 0)))
	return in.B.And(g, nz), true
}

// argsDiffer is a condition under which two numbers may differ that are both the same function,
// scaled and shifted alike, of other numbers.
func (in *Interp) argsDiffer(a, b *Poly, g Node) (Node, bool) {
	if len(a.Ts) != len(b.Ts) {
		return F, false
	}
	r := F
	for k, x := range a.Ts {
		y := b.Ts[k]
		if x.C.Cmp(y.C) != 0 || len(x.M) != len(y.M) {
			return F, false
		}
		for l, i := range x.M {
			p, q := in.atoms[i], in.atoms[y.M[l]]
			if i == y.M[l] {
				continue
			}
			if p.op == "" || p.op != q.op || len(p.args) != len(q.args) {
				return F, false
			}
			for m := range p.args {
				n, ok := in.polyDiffer(p.args[m], q.args[m], g)
				if !ok {
					return F, false
				}
				r = in.B.Or(r, n)
			}
		}
	}
	return r, true
}

// equality is a test under which an atom is a constant or another atom.
type equality struct {
	id int
	by *Poly
	eq Node
}

// equalities lists the tests that g depends on and that settle an atom.
func (in *Interp) equalities(g Node) []equality {
	vs := in.B.Support(g)
	var r []equality
	for _, s := range in.sums {
		on := s.eq != F && len(s.p.Ts) <= 2
		for _, t := range s.p.Ts {
			on = on && len(t.M) <= 1 && (len(t.M) == 0 || in.atoms[t.M[0]].bit <= 1)
		}
		if !on {
			continue
		}
		on = false
		for v := range in.B.Support(s.lt, s.eq) {
			on = on || vs[v]
		}
		last := s.p.Ts[len(s.p.Ts)-1]
		if !on || len(last.M) == 0 {
			continue
		}
		rest := in.polyBuild(append([]Term{}, s.p.Ts[:len(s.p.Ts)-1]...))
		by := in.polyScale(rest, new(big.Rat).Neg(new(big.Rat).Inv(last.C)))
		r = append(r, equality{last.M[0], by, s.eq})
	}
	return r
}

// polySubst replaces an atom, also inside function applications.
func (in *Interp) polySubst(p *Poly, id int, by *Poly) *Poly {
	if !in.dependsOn(p, id) {
		return p
	}
	k := p.Key() + "|" + strconv.Itoa(id) + "|" + by.Key()
	if r, ok := in.substMemo[k]; ok {
		return r
	}
	if in.substMemo == nil {
		in.substMemo = map[string]*Poly{}
	}
	var keep []Term
	r := in.polyBuild(nil)
	for _, t := range p.Ts {
		if !in.dependsOn(&Poly{Ts: []Term{t}}, id) {
			keep = append(keep, t)
			continue
		}
		q := in.PolyConst(t.C)
		for _, m := range t.M {
			f := in.polyAtom(m)
			if m == id {
				f = by
			} else if d := in.atoms[m]; len(d.args) > 0 {
				as := make([]*Poly, len(d.args))
				same := true
				for i, a := range d.args {
					as[i] = in.polySubst(a, id, by)
					same = same && as[i].Key() == a.Key()
				}
				if !same {
					f = in.op(d.op, as...)
				}
			}
			q = in.polyMul(q, f)
		}
		r = in.polyAdd(r, q)
	}
	r = in.polyAdd(r, &Poly{Ts: keep})
	in.substMemo[k] = r
	return r
}

// dependsOn says whether an atom is part of a number.
func (in *Interp) dependsOn(p *Poly, id int) bool {
	for _, t := range p.Ts {
		for _, m := range t.M {
			if m == id {
				return true
			}
			d := in.atoms[m]
			if len(d.args) == 0 {
				continue
			}
			k := [2]int{m, id}
			r, ok := in.dependMemo[k]
			if !ok {
				for _, a := range d.args {
					r = r || in.dependsOn(a, id)
				}
				if in.dependMemo == nil {
					in.dependMemo = map[[2]int]bool{}
				}
				in.dependMemo[k] = r
			}
			if r {
				return true
			}
		}
	}
	return false
}

func (in *Interp) coefOf(a, b *Poly, m []int) float64 {
	k := monoKey(m)
	r := 0.0
	for _, p := range []*Poly{a, b} {
		for _, t := range p.Ts {
			if monoKey(t.M) == k {
				f, _ := t.C.Float64()
				r = math.Max(r, math.Abs(f))
			}
		}
	}
	return r
}

func (in *Interp) gridded(p *Poly) *Poly {
	q := &Poly{}
	for _, t := range p.Ts {
		f, _ := t.C.Float64()
		n := new(big.Rat)
		n.SetString(fmt.Sprintf("%.6g", f))
		q.Ts = append(q.Ts, Term{n, t.M})
	}
	return q
}

// atan2Of recognises a multiple of one angle atan2(y, x).
func (in *Interp) atan2Of(p *Poly) (x, y *Poly, sign int, ok bool) {
	if len(p.Ts) != 1 || len(p.Ts[0].M) != 1 {
		return
	}
	d := in.atoms[p.Ts[0].M[0]]
	if d.op != "atan2" {
		return
	}
	return d.args[1], d.args[0], p.Ts[0].C.Sign(), true
}

// triCases decides the sign of an inverse, of a multiple of the fraction of a number, and of a
// number that depends on an earlier test.
func (in *Interp) triCases(d *Poly) (lt, eq, gt Node, ok bool) {
	if len(d.Ts) == 1 && len(d.Ts[0].M) == 1 {
		if q := in.atoms[d.Ts[0].M[0]].inv; q != nil {
			l, e, g := in.tri(q)
			if d.Ts[0].C.Sign() < 0 {
				l, g = g, l
			}
			return l, F, in.B.Or(g, e), true
		}
	}
	// one test among the terms, the others not bits
	test, others := -1, false
	for _, t := range d.Ts {
		for _, id := range t.M {
			if in.atoms[id].bit <= 1 {
				others = true
			} else if test >= 0 && test != id {
				return
			} else {
				test = id
			}
		}
	}
	if test >= 0 && others && in.onTests(in.atoms[test].bit) {
		b := in.atoms[test].bit
		nb := in.B.Not(b)
		l1, e1, g1 := in.tri(in.polyUnder(d, b))
		l0, e0, g0 := in.tri(in.polyUnder(d, nb))
		ite := func(x, y Node) Node { return in.B.Or(in.B.And(b, x), in.B.And(nb, y)) }
		return ite(l1, l0), ite(e1, e0), ite(g1, g0), true
	}
	// A*floor(q) + rest = -A*(q - floor q) + D
	for _, f := range in.floors(d) {
		A, D, linear := in.around(d, f)
		if !linear || len(D.Ts) > 0 && !in.close(D, A) {
			continue
		}
		if _, _, k := in.interval(A); k {
			continue // limits decides
		}
		l, e, g := in.tri(A)
		if len(D.Ts) > 0 { // A*(1 - fraction)
			return l, e, g, true
		}
		_, whole, _ := in.tri(in.polySub(in.atoms[f].args[0], in.polyAtom(f)))
		return in.B.Diff(g, whole), in.B.Or(e, whole), in.B.Diff(l, whole), true
	}
	return
}

// onTests says whether a condition is made of at most three sign tests.
func (in *Interp) onTests(n Node) bool {
	vs := in.B.Support(n)
	for v := range vs {
		if !in.tests[v] {
			return false
		}
	}
	return len(vs) <= 3
}
