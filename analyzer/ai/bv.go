package ai

import "math/big"

// Bit vector arithmetic over canonical Boolean functions.

func (in *Interp) constBV(w int, x *big.Int) *BV {
	m := new(big.Int).Set(x)
	if m.Sign() < 0 {
		m.Add(m, new(big.Int).Lsh(big.NewInt(1), uint(w)))
	}
	bits := make([]Node, w)
	for i := range bits {
		if m.Bit(i) == 1 {
			bits[i] = T
		}
	}
	return &BV{bits}
}

// Int builds a constant.
func (in *Interp) Int(w int, x int64) *BV { return in.constBV(w, big.NewInt(x)) }

func isConst(v *BV) bool {
	for _, b := range v.Bits {
		if b > 1 {
			return false
		}
	}
	return true
}

func constVal(v *BV, signed bool) *big.Int {
	r := new(big.Int)
	for i, b := range v.Bits {
		if b == T {
			r.SetBit(r, i, 1)
		}
	}
	if signed && v.Bits[len(v.Bits)-1] == T {
		r.Sub(r, new(big.Int).Lsh(big.NewInt(1), uint(len(v.Bits))))
	}
	return r
}

func asInt(v *BV) (int64, bool) {
	if !isConst(v) {
		return 0, false
	}
	return constVal(v, true).Int64(), true
}

func (in *Interp) bvIte(g Node, a, b *BV) *BV {
	if g == T {
		return a
	}
	if g == F {
		return b
	}
	if a == b {
		return a
	}
	r := make([]Node, len(a.Bits))
	for i := range r {
		r[i] = in.B.Ite(g, a.Bits[i], b.Bits[i])
	}
	return &BV{r}
}

func (in *Interp) bvMap2(a, b *BV, f func(x, y Node) Node) *BV {
	r := make([]Node, len(a.Bits))
	for i := range r {
		r[i] = f(a.Bits[i], b.Bits[i])
	}
	return &BV{r}
}

func (in *Interp) bvNot(a *BV) *BV {
	r := make([]Node, len(a.Bits))
	for i := range r {
		r[i] = in.B.Not(a.Bits[i])
	}
	return &BV{r}
}

func (in *Interp) bvAdd(a, b *BV, c Node) *BV {
	B := in.B
	r := make([]Node, len(a.Bits))
	for i := range r {
		x, y := a.Bits[i], b.Bits[i]
		xy := B.Xor(x, y)
		r[i] = B.Xor(xy, c)
		c = B.Or(B.And(x, y), B.And(c, xy))
	}
	return &BV{r}
}

func (in *Interp) bvSub(a, b *BV) *BV { return in.bvAdd(a, in.bvNot(b), T) }
func (in *Interp) bvNeg(a *BV) *BV    { return in.bvAdd(in.Int(len(a.Bits), 0), in.bvNot(a), T) }

func (in *Interp) bvMul(a, b *BV) *BV {
	w := len(a.Bits)
	// multiply by the more constant one
	na, nb := 0, 0
	for i := range a.Bits {
		if a.Bits[i] != F {
			na++
		}
		if b.Bits[i] != F {
			nb++
		}
	}
	if isConst(a) && !isConst(b) || (isConst(a) == isConst(b) && na < nb) {
		a, b = b, a
	}
	acc := in.Int(w, 0)
	if isConst(b) && constVal(b, true).Sign() < 0 && !lowestInt(b) {
		return in.bvNeg(in.bvMul(a, in.bvNeg(b)))
	}
	for i := 0; i < w; i++ {
		if b.Bits[i] == F {
			continue
		}
		sh := make([]Node, w)
		for j := i; j < w; j++ {
			sh[j] = in.B.And(a.Bits[j-i], b.Bits[i])
		}
		acc = in.bvAdd(acc, &BV{sh}, F)
	}
	return acc
}

// lowestInt tells the constant whose negation is itself.
func lowestInt(b *BV) bool {
	for _, x := range b.Bits[:len(b.Bits)-1] {
		if x != F {
			return false
		}
	}
	return b.Bits[len(b.Bits)-1] == T
}

func (in *Interp) bvEq(a, b *BV) Node {
	r := T
	for i := len(a.Bits) - 1; i >= 0; i-- {
		r = in.B.And(r, in.B.Eqv(a.Bits[i], b.Bits[i]))
		if r == F {
			return F
		}
	}
	return r
}

// bvLt is a < b.
func (in *Interp) bvLt(a, b *BV, signed bool) Node {
	B := in.B
	lt := F
	w := len(a.Bits)
	for i := 0; i < w; i++ {
		x, y := a.Bits[i], b.Bits[i]
		if signed && i == w-1 {
			x, y = y, x
		}
		// x<y at this bit, or equal and lt so far
		lt = B.Ite(B.Xor(x, y), y, lt)
	}
	return lt
}

func (in *Interp) bvResize(a *BV, w int, signed bool) *BV {
	n := len(a.Bits)
	if n == w {
		return a
	}
	r := make([]Node, w)
	for i := range r {
		switch {
		case i < n:
			r[i] = a.Bits[i]
		case signed:
			r[i] = a.Bits[n-1]
		}
	}
	return &BV{r}
}

func (in *Interp) bvShlC(a *BV, k int) *BV {
	w := len(a.Bits)
	r := make([]Node, w)
	for i := k; i < w; i++ {
		r[i] = a.Bits[i-k]
	}
	return &BV{r}
}

func (in *Interp) bvShrC(a *BV, k int, signed bool) *BV {
	w := len(a.Bits)
	r := make([]Node, w)
	fill := F
	if signed {
		fill = a.Bits[w-1]
	}
	for i := range r {
		if i+k < w {
			r[i] = a.Bits[i+k]
		} else {
			r[i] = fill
		}
	}
	return &BV{r}
}

func (in *Interp) bvShift(a, n *BV, left, signed bool) *BV {
	w := len(a.Bits)
	res := a
	over := F
	for i, b := range n.Bits {
		if b == F {
			continue
		}
		if i >= 7 || (1<<uint(i)) >= w {
			over = in.B.Or(over, b)
			continue
		}
		var s *BV
		if left {
			s = in.bvShlC(res, 1<<uint(i))
		} else {
			s = in.bvShrC(res, 1<<uint(i), signed)
		}
		res = in.bvIte(b, s, res)
	}
	if over != F {
		var s *BV
		if left || !signed {
			s = in.Int(w, 0)
		} else {
			s = in.bvShrC(a, w, true)
		}
		res = in.bvIte(over, s, res)
	}
	return res
}

func (in *Interp) bvUDivRem(a, b *BV) (*BV, *BV) {
	w := len(a.Bits)
	if isConst(b) {
		c := constVal(b, false)
		if c.Sign() > 0 && c.BitLen()-1 == int(c.TrailingZeroBits()) {
			k := c.BitLen() - 1
			q := in.bvShrC(a, k, false)
			r := make([]Node, w)
			copy(r, a.Bits[:k])
			return q, &BV{r}
		}
	}
	// restoring division, one more bit for the partial remainder
	rem := in.Int(w+1, 0)
	bb := in.bvResize(b, w+1, false)
	q := make([]Node, w)
	for i := w - 1; i >= 0; i-- {
		rem = in.bvShlC(rem, 1)
		nb := append([]Node{}, rem.Bits...)
		nb[0] = a.Bits[i]
		rem = &BV{nb}
		ge := in.B.Not(in.bvLt(rem, bb, false))
		q[i] = ge
		if ge != F {
			rem = in.bvIte(ge, in.bvSub(rem, bb), rem)
		}
	}
	return &BV{q}, in.bvResize(rem, w, false)
}

func (in *Interp) bvDivRem(a, b *BV, signed bool) (*BV, *BV) {
	if !signed {
		return in.bvUDivRem(a, b)
	}
	w := len(a.Bits)
	sa, sb := a.Bits[w-1], b.Bits[w-1]
	ua := in.bvIte(sa, in.bvNeg(a), a)
	ub := in.bvIte(sb, in.bvNeg(b), b)
	q, r := in.bvUDivRem(ua, ub)
	q = in.bvIte(in.B.Xor(sa, sb), in.bvNeg(q), q)
	r = in.bvIte(sa, in.bvNeg(r), r)
	return q, r
}

// feasible lists the values v may take under g (unsigned), or ok=false when more than max.
func (in *Interp) feasible(v *BV, g Node, max int) (vals []int64, gs []Node, ok bool) {
	type ent struct {
		x int64
		g Node
	}
	cur := []ent{{0, g}}
	if g == F {
		return nil, nil, true
	}
	w := len(v.Bits)
	for i := w - 1; i >= 0; i-- {
		var next []ent
		for _, e := range cur {
			g1 := in.B.And(e.g, v.Bits[i])
			g0 := in.B.Diff(e.g, v.Bits[i])
			if g0 != F {
				next = append(next, ent{e.x << 1, g0})
			}
			if g1 != F {
				next = append(next, ent{e.x<<1 | 1, g1})
			}
		}
		if len(next) > max {
			return nil, nil, false
		}
		cur = next
	}
	for _, e := range cur {
		vals = append(vals, e.x)
		gs = append(gs, e.g)
	}
	return vals, gs, true
}
