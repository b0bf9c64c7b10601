package checks

import (
	"container/heap"
	"fmt"
	"go/types"
	"math/big"

	"verif/analyzer/ai"
)

// cell is a hash-consed list of text pieces.
type cell struct {
	seg  ai.Seg
	next *cell
	id   int
	w    int
}

type tcmp struct {
	in   *ai.Interp
	tab  map[string]*cell
	n    int
	fail ai.Node
	why  string
	err  string
	idx  map[[2]int]*titem
	q    tqueue
}

type titem struct {
	a, b *cell
	g    ai.Node
	pos  int
}

type tqueue []*titem

func (q tqueue) Len() int            { return len(q) }
func (q tqueue) Less(i, j int) bool  { return wt(q[i].a)+wt(q[i].b) > wt(q[j].a)+wt(q[j].b) }
func (q tqueue) Swap(i, j int)       { q[i], q[j] = q[j], q[i] }
func (q *tqueue) Push(x interface{}) { *q = append(*q, x.(*titem)) }
func (q *tqueue) Pop() interface{} {
	o := *q
	x := o[len(o)-1]
	*q = o[:len(o)-1]
	return x
}

func wt(c *cell) int {
	if c == nil {
		return 0
	}
	return c.w
}

func id(c *cell) int {
	if c == nil {
		return 0
	}
	return c.id
}

func segWeight(s ai.Seg) int {
	switch x := s.(type) {
	case ai.Lit:
		return len(x)
	case ai.Nest:
		m := 0
		for _, a := range x.A.A {
			w := 0
			if st, ok := a.V.(*ai.Str); ok {
				for _, q := range st.Segs {
					w += segWeight(q)
				}
			}
			if w > m {
				m = w
			}
		}
		return m + 1
	case ai.Fmt:
		return 40
	}
	return 2
}

func (t *tcmp) cons(s ai.Seg, next *cell) *cell {
	if l, ok := s.(ai.Lit); ok {
		if l == "" {
			return next
		}
		if next != nil {
			if m, ok := next.seg.(ai.Lit); ok {
				return t.cons(l+m, next.next)
			}
		}
	}
	k := fmt.Sprintf("%d|%s", id(next), s.Key())
	if c, ok := t.tab[k]; ok {
		return c
	}
	t.n++
	c := &cell{s, next, t.n, segWeight(s) + wt(next)}
	t.tab[k] = c
	return c
}

func (t *tcmp) list(segs []ai.Seg, next *cell) *cell {
	for i := len(segs) - 1; i >= 0; i-- {
		next = t.cons(segs[i], next)
	}
	return next
}

func (t *tcmp) push(a, b *cell, g ai.Node) {
	if g == ai.F {
		return
	}
	k := [2]int{id(a), id(b)}
	if it, ok := t.idx[k]; ok {
		it.g = t.in.B.Or(it.g, g)
		return
	}
	it := &titem{a: a, b: b, g: g}
	t.idx[k] = it
	heap.Push(&t.q, it)
}

func (t *tcmp) bad(g ai.Node, f string, a ...interface{}) {
	if g == ai.F {
		return
	}
	if t.why == "" {
		t.why = fmt.Sprintf(f, a...)
	}
	t.fail = t.in.B.Or(t.fail, g)
}

func head(c *cell) string {
	s := ""
	for k := 0; c != nil && k < 4; k++ {
		switch x := c.seg.(type) {
		case ai.Lit:
			s += string(x)
		case ai.Fmt:
			s += "{" + x.Verb + "}"
		case ai.Nest:
			s += "{choice}"
		case ai.Char:
			s += "{char}"
		default:
			s += "{?}"
		}
		c = c.next
	}
	if len(s) > 100 {
		s = s[:100] + "..."
	}
	return fmt.Sprintf("%q", s)
}

// textDiffer is the condition, within g, under which two texts differ.
func textDiffer(in *ai.Interp, a, b *ai.Alts, g ai.Node) (ai.Node, string) {
	t := &tcmp{in: in, tab: map[string]*cell{}, idx: map[[2]int]*titem{}}
	t.push(t.cons(ai.Nest{A: a}, nil), t.cons(ai.Nest{A: b}, nil), g)
	for steps := 0; t.q.Len() > 0; steps++ {
		if steps > 400000 {
			t.bad(g, "texts too different to align")
			break
		}
		it := heap.Pop(&t.q).(*titem)
		delete(t.idx, [2]int{id(it.a), id(it.b)})
		t.step(it)
	}
	return t.fail, t.why
}

func (t *tcmp) expand(x ai.Nest, next *cell, g ai.Node, f func(c *cell, g ai.Node)) {
	rest := g
	for _, a := range x.A.A {
		gg := t.in.B.And(g, a.G)
		if gg == ai.F {
			continue
		}
		rest = t.in.B.Diff(rest, a.G)
		if s, ok := a.V.(*ai.Str); ok {
			f(t.list(s.Segs, next), gg)
		} else {
			f(t.cons(ai.OpaqueSeg(a.V.Key()), next), gg)
		}
	}
	t.bad(rest, "text is undefined")
}

func (t *tcmp) step(it *titem) {
	a, b, g := it.a, it.b, it.g
	B := t.in.B
	if a == b {
		return
	}
	if a != nil && b != nil && a.seg.Key() == b.seg.Key() {
		t.push(a.next, b.next, g)
		return
	}
	if a != nil {
		if n, ok := a.seg.(ai.Nest); ok {
			t.expand(n, a.next, g, func(c *cell, g ai.Node) { t.push(c, b, g) })
			return
		}
	}
	if b != nil {
		if n, ok := b.seg.(ai.Nest); ok {
			t.expand(n, b.next, g, func(c *cell, g ai.Node) { t.push(a, c, g) })
			return
		}
	}
	if a == nil || b == nil {
		t.bad(g, "text %s where %s is expected", head(a), head(b))
		return
	}
	la, okA := a.seg.(ai.Lit)
	lb, okB := b.seg.(ai.Lit)
	if okA && okB {
		n := 0
		for n < len(la) && n < len(lb) && la[n] == lb[n] {
			n++
		}
		if n < len(la) && n < len(lb) {
			for n > 0 && la[n]&0xC0 == 0x80 {
				n--
			}
			lo := n - 40
			if lo < 0 {
				lo = 0
			}
			t.bad(g, "text %q where %q is expected", clip(string(la[lo:])), clip(string(lb[lo:])))
			return
		}
		t.push(t.cons(la[n:], a.next), t.cons(lb[n:], b.next), g)
		return
	}
	ca, isCA := a.seg.(ai.Char)
	cb, isCB := b.seg.(ai.Char)
	if isCA && isCB && ca.Rune == cb.Rune && len(ca.V.Bits) == len(cb.V.Bits) {
		eq := t.in.Eq(ca.V, cb.V)
		t.bad(B.Diff(g, eq), "another character")
		t.push(a.next, b.next, B.And(g, eq))
		return
	}
	if isCA && okB && lb[0] < 0x80 {
		eq := t.in.Eq(ca.V, t.in.Int(len(ca.V.Bits), int64(lb[0])))
		t.bad(B.Diff(g, eq), "another character where %q is expected", clip(string(lb)))
		t.push(a.next, t.cons(lb[1:], b.next), B.And(g, eq))
		return
	}
	if isCB && okA && la[0] < 0x80 {
		eq := t.in.Eq(cb.V, t.in.Int(len(cb.V.Bits), int64(la[0])))
		t.bad(B.Diff(g, eq), "%q where another character is expected", clip(string(la)))
		t.push(t.cons(la[1:], a.next), b.next, B.And(g, eq))
		return
	}
	fa, isFA := a.seg.(ai.Fmt)
	fb, isFB := b.seg.(ai.Fmt)
	if isFA && isFB && (fa.Verb == fb.Verb || plain(fa.Verb) && plain(fb.Verb)) {
		d, ok := t.fmtDiffer(fa, fb, g)
		if ok {
			t.bad(d, "another value before %s", head(b.next))
			t.push(a.next, b.next, B.Diff(g, d))
			return
		}
	}
	if c := t.digits(fa, a.next); isFA && c != nil {
		t.push(c, b, g)
		return
	}
	if c := t.digits(fb, b.next); isFB && c != nil {
		t.push(a, c, g)
		return
	}
	if isFA {
		if t.enum(fa, a.next, g, func(c *cell, g ai.Node) { t.push(c, b, g) }) {
			return
		}
	}
	if isFB {
		if t.enum(fb, b.next, g, func(c *cell, g ai.Node) { t.push(a, c, g) }) {
			return
		}
	}
	if isCA || isCB {
		c, n, o, sw := ca, a.next, b, false
		if !isCA {
			c, n, o, sw = cb, b.next, a, true
		}
		vs, gs, ok := t.in.Feasible(c.V, g, 300)
		if ok {
			for k, v := range vs {
				x := t.cons(ai.Lit(string(rune(v))), n)
				if sw {
					t.push(o, x, B.And(g, gs[k]))
				} else {
					t.push(x, o, B.And(g, gs[k]))
				}
			}
			return
		}
	}
	t.bad(g, "text %s where %s is expected", head(a), head(b))
}

func clip(s string) string {
	if len(s) > 90 {
		return s[:90] + "..."
	}
	return s
}

func plain(v string) bool { return v == "%v" || v == "%d" || v == "%t" }

// digits replaces a formatted integer of a known number of digits by its characters.
func (t *tcmp) digits(f ai.Fmt, next *cell) *cell {
	if len(f.Verb) < 4 {
		return nil
	}
	_, cs, ok := t.in.CharsOf(&ai.Str{Segs: []ai.Seg{f}})
	if !ok {
		return nil
	}
	for k := len(cs) - 1; k >= 0; k-- {
		next = t.cons(ai.Char{V: cs[k]}, next)
	}
	return next
}

// enum splits a formatted integer into its possible values.
func (t *tcmp) enum(f ai.Fmt, next *cell, g ai.Node, k func(c *cell, g ai.Node)) bool {
	if l, ok := f.V.(*ai.Alts); ok && ai.IsFloat(f.Typ) {
		return t.enumFloat(f, l, next, g, k)
	}
	v, ok := f.V.(*ai.BV)
	if !ok {
		return false
	}
	w, signed, ok := ai.IntInfo(f.Typ)
	if !ok || len(v.Bits) != w {
		return false
	}
	vs, gs, ok := t.in.Feasible(v, g, 1100)
	if !ok {
		return false
	}
	for j, x := range vs {
		var s string
		if w == 1 {
			s = fmt.Sprintf(f.Verb, x&1 == 1)
		} else {
			y := x
			if !signed && w < 64 {
				y = x & (1<<uint(w) - 1)
			}
			s = fmt.Sprintf(f.Verb, y)
		}
		k(t.cons(ai.Lit(s), next), t.in.B.And(g, gs[j]))
	}
	return true
}

// enumFloat splits a formatted number into its possible values.
func (t *tcmp) enumFloat(f ai.Fmt, l *ai.Alts, next *cell, g ai.Node, k func(c *cell, g ai.Node)) bool {
	type alt struct {
		s string
		g ai.Node
	}
	var out []alt
	for _, a := range t.in.Prune(l, g) {
		p, ok := a.V.(*ai.Poly)
		if !ok {
			return false
		}
		vs, gs, ok := t.in.FloatValues(p, t.in.B.And(g, a.G), 1100)
		if !ok {
			return false
		}
		for j, x := range vs {
			y, _ := x.Float64()
			s := fmt.Sprintf(f.Verb, y)
			if b, ok := f.Typ.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
				s = fmt.Sprintf(f.Verb, float32(y))
			}
			out = append(out, alt{s, gs[j]})
		}
	}
	for _, o := range out {
		k(t.cons(ai.Lit(o.s), next), t.in.B.And(g, o.g))
	}
	return true
}

// asFloat takes an integer of few digits as a float, which prints alike.
func asFloat(in *ai.Interp, x ai.Fmt, typ types.Type) ai.Fmt {
	v, ok := x.V.(*ai.BV)
	if !ok {
		return x
	}
	w, signed, ok := ai.IntInfo(x.Typ)
	if !ok || w == 1 {
		return x
	}
	p := in.BVToPoly(v, signed)
	if !in.FewDigits(p) {
		return x
	}
	return ai.Fmt{Verb: x.Verb, V: ai.Single(p), Typ: typ}
}

func (t *tcmp) fmtDiffer(x, y ai.Fmt, g ai.Node) (ai.Node, bool) {
	in := t.in
	if x.Verb == "%v" && y.Verb == "%v" {
		if ai.IsFloat(y.Typ) {
			x = asFloat(in, x, y.Typ)
		} else if ai.IsFloat(x.Typ) {
			y = asFloat(in, y, x.Typ)
		}
	}
	if p, ok := x.V.(*ai.BV); ok {
		q, ok := y.V.(*ai.BV)
		if !ok {
			return g, false
		}
		w1, s1, _ := ai.IntInfo(x.Typ)
		w2, s2, _ := ai.IntInfo(y.Typ)
		if (w1 == 1) != (w2 == 1) {
			return g, false
		}
		if w1 == 1 {
			s1, s2 = false, false
		}
		d := in.B.And(g, in.B.Not(in.Eq(in.Resize(p, 72, s1), in.Resize(q, 72, s2))))
		return d, true
	}
	p, ok1 := x.V.(*ai.Alts)
	q, ok2 := y.V.(*ai.Alts)
	if ok1 && ok2 && ai.IsFloat(x.Typ) && ai.IsFloat(y.Typ) {
		w1, w2 := types.TypeString(x.Typ.Underlying(), nil), types.TypeString(y.Typ.Underlying(), nil)
		d := ai.F
		for _, a := range in.Prune(p, g) {
			for _, b := range in.Prune(q, g) {
				gg := in.B.AndN(g, a.G, b.G)
				if gg == ai.F {
					continue
				}
				pa, ok1 := a.V.(*ai.Poly)
				pb, ok2 := b.V.(*ai.Poly)
				if !ok1 || !ok2 {
					if a.V.Key() != b.V.Key() {
						d = in.B.Or(d, gg)
					}
					continue
				}
				dd, _ := in.PolyDiffer(pa, pb, gg)
				if w1 != w2 && !(in.FewDigits(pa) && in.FewDigits(pb)) {
					dd = gg // printed with another precision
				}
				d = in.B.Or(d, dd)
			}
		}
		return d, true
	}
	if ai.ValKey(x.V) == ai.ValKey(y.V) {
		return ai.F, true
	}
	if ok1 && ok2 {
		d := ai.F
		for _, a := range in.Prune(p, g) {
			for _, b := range in.Prune(q, g) {
				if a.V.Key() != b.V.Key() {
					d = in.B.Or(d, in.B.AndN(g, a.G, b.G))
				}
			}
		}
		return d, true
	}
	return g, true
}

var _ = big.NewRat
