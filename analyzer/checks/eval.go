package checks

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"verif/analyzer/ai"
)

// W is the width of the integers of the specification.
const W = 64

// val is a value of the specification.
type val struct {
	kind  byte // 'i' integer, 'n' number, 's' text, 'y' bytes, 'b' Boolean
	b     ai.Node
	i     *ai.BV
	w     int // width of a raw field, for s()
	n     []galt
	s     *ai.Alts
	bytes []*ai.BV
}

type galt struct {
	g ai.Node
	p *ai.Poly
}

// env evaluates expressions for one entry.
type env struct {
	in     *ai.Interp
	bit    func(n int) ai.Node
	names  map[string]val
	defs   map[string]*Def
	lets   map[string]*Expr
	memo   map[string]val
	busy   map[string]bool
	params []map[string]val
	specs  map[string]*Spec
	others map[string]*env
}

func (e *env) fail(f string, a ...interface{}) val { panic(fmt.Errorf("spec: "+f, a...)) }

func (e *env) boolean(n ai.Node) val { return val{kind: 'b', b: n} }

func (e *env) intv(b *ai.BV, raw int) val { return val{kind: 'i', i: b, w: raw} }

// asBool is the truth of a value.
func (e *env) asBool(v val) ai.Node {
	switch v.kind {
	case 'b':
		return v.b
	case 'i':
		return e.in.B.Not(e.in.Eq(v.i, e.in.Int(W, 0)))
	}
	panic(fmt.Errorf("spec: not a condition"))
}

func (e *env) asInt(v val) *ai.BV {
	switch v.kind {
	case 'i':
		return v.i
	case 'b':
		bits := make([]ai.Node, W)
		bits[0] = v.b
		return &ai.BV{Bits: bits}
	}
	panic(fmt.Errorf("spec: not an integer"))
}

func (e *env) asNum(v val) []galt {
	if v.kind == 'n' {
		return v.n
	}
	return []galt{{ai.T, e.in.BVToPoly(e.asInt(v), true)}}
}

func (e *env) eval(x *Expr) val {
	in := e.in
	switch x.Op {
	case "num":
		if x.Num.IsInt() && !strings.Contains(x.Text, ".") {
			return e.intv(in.Int(W, x.Num.Num().Int64()), 0)
		}
		return val{kind: 'n', n: []galt{{ai.T, in.PolyConst(x.Num)}}}
	case "str":
		return val{kind: 's', s: ai.Single(&ai.Str{Segs: []ai.Seg{ai.Lit(x.Text)}})}
	case "bits":
		w := x.Hi - x.Lo + 1
		bits := make([]ai.Node, W)
		for k := 0; k < w; k++ {
			bits[k] = e.bit(x.Hi - k)
		}
		return e.intv(&ai.BV{Bits: bits}, w)
	case "cat":
		var all []ai.Node // most significant first
		for _, a := range x.Args {
			v := e.eval(a)
			if v.kind == 'b' {
				all = append(all, v.b)
				continue
			}
			w := v.w
			if w == 0 {
				return e.fail("concatenation of a value without width")
			}
			for k := w - 1; k >= 0; k-- {
				all = append(all, v.i.Bits[k])
			}
		}
		bits := make([]ai.Node, W)
		for k := range all {
			bits[len(all)-1-k] = all[k]
		}
		return e.intv(&ai.BV{Bits: bits}, len(all))
	case "name":
		for k := len(e.params) - 1; k >= 0; k-- {
			if v, ok := e.params[k][x.Text]; ok {
				return v
			}
			break
		}
		if x.Text == "true" || x.Text == "false" {
			if x.Text == "true" {
				return e.boolean(ai.T)
			}
			return e.boolean(ai.F)
		}
		if v, ok := e.names[x.Text]; ok {
			return v
		}
		if v, ok := e.memo[x.Text]; ok {
			return v
		}
		if l, ok := e.lets[x.Text]; ok {
			if e.busy[x.Text] {
				return e.fail("circular definition of %s", x.Text)
			}
			e.busy[x.Text] = true
			sp := e.params
			e.params = nil
			v := e.eval(l)
			e.params = sp
			e.busy[x.Text] = false
			e.memo[x.Text] = v
			return v
		}
		if d, ok := e.defs[x.Text]; ok && len(d.Params) == 0 {
			sp := e.params
			e.params = nil
			v := e.eval(d.E)
			e.params = sp
			e.memo[x.Text] = v
			return v
		}
		if o := e.other(x.Text); o != nil {
			v := o.eval(&Expr{Op: "name", Text: x.Text[4:]})
			e.memo[x.Text] = v
			return v
		}
		return e.fail("unknown name %s", x.Text)
	case "un":
		v := e.eval(x.Args[0])
		if x.Text == "!" {
			return e.boolean(in.B.Not(e.asBool(v)))
		}
		if v.kind == 'n' {
			var r []galt
			for _, a := range v.n {
				r = append(r, galt{a.g, in.PMul(a.p, in.PolyConst(big.NewRat(-1, 1)))})
			}
			return val{kind: 'n', n: r}
		}
		return e.intv(in.Neg(e.asInt(v)), 0)
	case "in":
		v := e.asInt(e.eval(x.Args[0]))
		r := ai.F
		for _, g := range x.Rng {
			c := in.B.And(in.B.Not(in.Lt(v, in.Int(W, g[0]), true)), in.B.Not(in.Lt(in.Int(W, g[1]), v, true)))
			r = in.B.Or(r, c)
		}
		return e.boolean(r)
	case "cond":
		c := e.asBool(e.eval(x.Args[0]))
		a, b := e.eval(x.Args[1]), e.eval(x.Args[2])
		return e.ite(c, a, b)
	case "bin":
		return e.binary(x)
	case "call":
		return e.callBuiltin(x)
	}
	return e.fail("bad expression %s", x.Op)
}

func (e *env) ite(c ai.Node, a, b val) val {
	in := e.in
	nc := in.B.Not(c)
	switch {
	case a.kind == 'b' && b.kind == 'b':
		return e.boolean(in.B.Ite(c, a.b, b.b))
	case a.kind == 's' || b.kind == 's':
		if a.kind != 's' || b.kind != 's' {
			return e.fail("text and number in a choice")
		}
		var r []ai.Alt
		for _, p := range a.s.A {
			r = append(r, ai.Alt{G: in.B.And(c, p.G), V: p.V})
		}
		for _, p := range b.s.A {
			r = append(r, ai.Alt{G: in.B.And(nc, p.G), V: p.V})
		}
		return val{kind: 's', s: &ai.Alts{A: r}}
	case a.kind == 'n' || b.kind == 'n':
		var r []galt
		for _, p := range e.asNum(a) {
			if g := in.B.And(c, p.g); g != ai.F {
				r = append(r, galt{g, p.p})
			}
		}
		for _, p := range e.asNum(b) {
			if g := in.B.And(nc, p.g); g != ai.F {
				r = append(r, galt{g, p.p})
			}
		}
		return val{kind: 'n', n: r}
	}
	return e.intv(in.IteBV(c, e.asInt(a), e.asInt(b)), 0)
}

func (e *env) binary(x *Expr) val {
	in := e.in
	a := e.eval(x.Args[0])
	switch x.Text {
	case "&&":
		l := e.asBool(a)
		return e.boolean(in.B.And(l, e.asBool(e.eval(x.Args[1]))))
	case "||":
		l := e.asBool(a)
		return e.boolean(in.B.Or(l, e.asBool(e.eval(x.Args[1]))))
	}
	b := e.eval(x.Args[1])
	num := a.kind == 'n' || b.kind == 'n'
	switch x.Text {
	case "+", "-", "*":
		if !num {
			p, q := e.asInt(a), e.asInt(b)
			switch x.Text {
			case "+":
				return e.intv(in.Add(p, q), 0)
			case "-":
				return e.intv(in.Sub(p, q), 0)
			}
			return e.intv(in.Mul(p, q), 0)
		}
		fallthrough
	case "/":
		var r []galt
		for _, p := range e.asNum(a) {
			for _, q := range e.asNum(b) {
				g := in.B.And(p.g, q.g)
				if g == ai.F {
					continue
				}
				var v *ai.Poly
				switch x.Text {
				case "+":
					v = in.PAdd(p.p, q.p)
				case "-":
					v = in.PAdd(p.p, in.PMul(q.p, in.PolyConst(big.NewRat(-1, 1))))
				case "*":
					v = in.PMul(p.p, q.p)
				default:
					c, ok := q.p.Const()
					if !ok || c.Sign() == 0 {
						return e.fail("division by something that is not a constant")
					}
					v = in.PMul(p.p, in.PolyConst(new(big.Rat).Inv(c)))
				}
				r = append(r, galt{g, v})
			}
		}
		return val{kind: 'n', n: r}
	case "==", "!=", "<", "<=", ">", ">=":
		if a.kind == 'b' || b.kind == 'b' {
			n := in.B.Eqv(e.asBool(a), e.asBool(b))
			if x.Text == "!=" {
				n = in.B.Not(n)
			}
			return e.boolean(n)
		}
		if num {
			r := ai.F
			for _, p := range e.asNum(a) {
				for _, q := range e.asNum(b) {
					g := in.B.And(p.g, q.g)
					if g == ai.F {
						continue
					}
					lt, eq, gt := in.Tri(in.PAdd(p.p, in.PMul(q.p, in.PolyConst(big.NewRat(-1, 1)))))
					r = in.B.Or(r, in.B.And(g, pick(in, x.Text, lt, eq, gt)))
				}
			}
			return e.boolean(r)
		}
		p, q := e.asInt(a), e.asInt(b)
		lt, eq := in.Lt(p, q, true), in.Eq(p, q)
		return e.boolean(pick(in, x.Text, lt, eq, in.B.Not(in.B.Or(lt, eq))))
	}
	return e.fail("bad operator %s", x.Text)
}

func pick(in *ai.Interp, op string, lt, eq, gt ai.Node) ai.Node {
	switch op {
	case "==":
		return eq
	case "!=":
		return in.B.Not(eq)
	case "<":
		return lt
	case "<=":
		return in.B.Or(lt, eq)
	case ">":
		return gt
	}
	return in.B.Or(gt, eq)
}

func (e *env) callBuiltin(x *Expr) val {
	in := e.in
	args := func() []val {
		var r []val
		for _, a := range x.Args {
			r = append(r, e.eval(a))
		}
		return r
	}
	switch x.Text {
	case "s": // two's complement
		v := e.eval(x.Args[0])
		if v.kind != 'i' || v.w == 0 {
			return e.fail("s() of a value without width")
		}
		return e.intv(in.Resize(&ai.BV{Bits: v.i.Bits[:v.w]}, W, true), 0)
	case "bytes": // bytes(first bit, last bit)
		lo, hi := int(x.Args[0].Num.Num().Int64()), int(x.Args[1].Num.Num().Int64())
		var r []*ai.BV
		for b := lo; b+7 <= hi; b += 8 {
			bits := make([]ai.Node, 8)
			for k := 0; k < 8; k++ {
				bits[k] = e.bit(b + 7 - k)
			}
			r = append(r, &ai.BV{Bits: bits})
		}
		return val{kind: 'y', bytes: r}
	case "digits":
		var segs []ai.Seg
		for _, a := range args() {
			c := in.Add(e.asInt(a), in.Int(W, '0'))
			segs = append(segs, ai.Char{V: in.Resize(c, 8, false)})
		}
		return val{kind: 's', s: ai.Single(&ai.Str{Segs: segs})}
	case "chars6": // 8 characters of 6 bits, from a first bit
		lo := int(x.Args[0].Num.Num().Int64())
		var segs []ai.Seg
		for k := 0; k < 8; k++ {
			segs = append(segs, ai.Char{V: e.char6(lo + 6*k)})
		}
		return val{kind: 's', s: ai.Single(&ai.Str{Segs: segs})}
	case "chars6ok":
		lo := int(x.Args[0].Num.Num().Int64())
		r := ai.T
		for k := 0; k < 8; k++ {
			c := e.char6(lo + 6*k)
			r = in.B.And(r, in.B.Not(in.Eq(c, in.Int(8, '#'))))
		}
		return e.boolean(r)
	case "gillham", "gillhamok":
		a := args()
		if len(a) != 12 {
			return e.fail("gillham takes 12 bits")
		}
		var b []ai.Node
		for _, v := range a {
			b = append(b, e.asBool(v))
		}
		h, ok := gillham(in, b)
		if x.Text == "gillhamok" {
			return e.boolean(ok)
		}
		return e.intv(h, 0)
	case "bool":
		return e.boolean(e.asBool(e.eval(x.Args[0])))
	case "abs":
		v := e.asInt(e.eval(x.Args[0]))
		return e.intv(in.IteBV(v.Bits[W-1], in.Neg(v), v), 0)
	case "lookup": // lookup(x, from, v0, v1, ...): v[x-from]; otherwise the last one
		a := args()
		k := e.asInt(a[0])
		from := x.Args[1].Num.Num().Int64()
		r := a[len(a)-1]
		for j := len(a) - 2; j >= 2; j-- {
			r = e.ite(in.Eq(k, in.Int(W, from+int64(j-2))), a[j], r)
		}
		return r
	}
	if d, ok := e.defs[x.Text]; ok {
		a := args()
		if len(a) != len(d.Params) {
			return e.fail("%s takes %d arguments", x.Text, len(d.Params))
		}
		m := map[string]val{}
		for k, n := range d.Params {
			m[n] = a[k]
		}
		e.params = append(e.params, m)
		v := e.eval(d.E)
		e.params = e.params[:len(e.params)-1]
		return v
	}
	return e.fail("unknown function %s", x.Text)
}

// other gives the definitions of another property, for a name like P11_alt.
func (e *env) other(name string) *env {
	if len(name) < 5 || name[0] != 'P' || name[3] != '_' {
		return nil
	}
	q := name[:3]
	if o := e.others[q]; o != nil {
		return o
	}
	s := e.specs[q]
	if s == nil {
		return nil
	}
	o := &env{in: e.in, bit: e.bit, names: e.names, defs: s.Defs, memo: map[string]val{}, busy: map[string]bool{}, specs: e.specs}
	if e.others == nil {
		e.others = map[string]*env{}
	}
	e.others[q] = o
	return o
}

// char6 is one character of an aircraft identification (Annex 10, table 3-9).
func (e *env) char6(lo int) *ai.BV {
	in := e.in
	code := &ai.BV{Bits: make([]ai.Node, 8)}
	for k := 0; k < 6; k++ {
		code.Bits[k] = e.bit(lo + 5 - k)
	}
	letter := in.B.And(in.B.Not(in.Lt(code, in.Int(8, 1), false)), in.Lt(code, in.Int(8, 27), false))
	digit := in.B.And(in.B.Not(in.Lt(code, in.Int(8, 48), false)), in.Lt(code, in.Int(8, 58), false))
	space := in.Eq(code, in.Int(8, 32))
	r := in.Int(8, '#')
	r = in.IteBV(space, in.Int(8, ' '), r)
	r = in.IteBV(digit, code, r)
	r = in.IteBV(letter, in.Add(code, in.Int(8, 64)), r)
	return r
}

// gillham is the altitude of a Mode C reply (D1 D2 D4 A1 A2 A4 B1 B2 B4 C1 C2 C4).
func gillham(in *ai.Interp, b []ai.Node) (*ai.BV, ai.Node) {
	B := in.B
	// 500 ft steps: a Gray code, most significant bit first
	bits := make([]ai.Node, W)
	acc := ai.F
	for k := 0; k < 9; k++ {
		acc = B.Xor(acc, b[k])
		bits[8-k] = acc
	}
	five := &ai.BV{Bits: bits}
	odd := acc
	// 100 ft steps: Gray code, 7 stands for 5, reversed on odd 500 ft steps
	c1 := b[9]
	c2 := B.Xor(c1, b[10])
	c4 := B.Xor(c2, b[11])
	cb := make([]ai.Node, W)
	cb[2], cb[1], cb[0] = c1, c2, c4
	c := &ai.BV{Bits: cb}
	bad := B.OrN(in.Eq(c, in.Int(W, 0)), in.Eq(c, in.Int(W, 5)), in.Eq(c, in.Int(W, 6)))
	c = in.IteBV(in.Eq(c, in.Int(W, 7)), in.Int(W, 5), c)
	c = in.IteBV(odd, in.Sub(in.Int(W, 6), c), c)
	h := in.Add(in.Mul(five, in.Int(W, 500)), in.Mul(c, in.Int(W, 100)))
	return in.Sub(h, in.Int(W, 1300)), B.Not(bad)
}

// witness is an input that satisfies n, written for a report.
func witness(in *ai.Interp, n ai.Node, dataLen int) string {
	if n == ai.F {
		return "-"
	}
	m := in.B.SatOne(n)
	data := make([]byte, dataLen)
	used := false
	var rest []string
	for v, b := range m {
		name := in.B.Name(v)
		var i, j int
		if k, _ := fmt.Sscanf(name, "in[%d].%d", &i, &j); k == 2 && i < dataLen {
			used = true
			if b {
				data[i] |= 1 << uint(j)
			}
			continue
		}
		if len(name) > 60 {
			name = name[:60] + "~"
		}
		if b {
			rest = append(rest, name)
		} else {
			rest = append(rest, "!"+name)
		}
	}
	sort.Strings(rest)
	if len(rest) > 40 {
		rest = append(rest[:40], "...")
	}
	s := ""
	if dataLen > 0 && (used || len(rest) == 0) {
		s = fmt.Sprintf("data %X", data)
	}
	if len(rest) > 0 {
		if s != "" {
			s += ", "
		}
		s += strings.Join(rest, " ")
	}
	if s == "" {
		s = "any input"
	}
	return s
}
