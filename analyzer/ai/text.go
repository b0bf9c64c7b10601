package ai

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func normSegs(segs []Seg) []Seg {
	var r []Seg
	for _, s := range segs {
		if l, ok := s.(Lit); ok {
			if l == "" {
				continue
			}
			if n := len(r); n > 0 {
				if p, ok := r[n-1].(Lit); ok {
					r[n-1] = p + l
					continue
				}
			}
		}
		if n, ok := s.(Nest); ok && len(n.A.A) == 1 {
			if st, ok := n.A.A[0].V.(*Str); ok {
				for _, x := range st.Segs {
					r = normSegs(append(r, x))
				}
				continue
			}
		}
		if c, ok := s.(Char); ok {
			if v, ok := asInt(in0resize(c.V)); ok {
				if c.Rune || v < 0x80 {
					r = normSegs(append(r, Lit(string(rune(v)))))
					continue
				}
			}
		}
		r = append(r, s)
	}
	return r
}

func in0resize(v *BV) *BV {
	if len(v.Bits) == 64 {
		return v
	}
	b := make([]Node, 64)
	copy(b, v.Bits)
	return &BV{b}
}

// strAlts lists the texts feasible under g; unknown atoms become unknown text.
func (in *Interp) strAlts(a *Alts, g Node) []Alt {
	r := in.prune(a, g)
	for k := range r {
		if _, ok := r[k].V.(*Str); !ok {
			r[k].V = &Str{Segs: []Seg{OpaqueSeg(r[k].V.Key())}}
		}
	}
	return r
}

// asSegs is a text as a list of pieces; a choice becomes one nested piece.
func (in *Interp) asSegs(a *Alts, g Node) []Seg {
	al := in.strAlts(a, g)
	if len(al) == 1 {
		return al[0].V.(*Str).Segs
	}
	// what all the choices begin with is not part of the choice
	n := 0
	first := al[0].V.(*Str).Segs
	for n < len(first) {
		k := first[n].Key()
		for _, x := range al[1:] {
			if s := x.V.(*Str).Segs; n >= len(s) || s[n].Key() != k {
				k = ""
				break
			}
		}
		if k == "" {
			break
		}
		n++
	}
	if n == 0 {
		return []Seg{Nest{&Alts{al}}}
	}
	var rest []Alt
	for _, x := range al {
		rest = in.addAlt(rest, x.G, &Str{Segs: x.V.(*Str).Segs[n:]})
	}
	return append(append([]Seg{}, first[:n]...), Nest{&Alts{rest}})
}

func (in *Interp) concat(a, b *Alts, g Node) *Alts {
	x, y := in.strAlts(a, g), in.strAlts(b, g)
	if len(x)*len(y) <= 1 || len(x) == 1 && len(y) == 1 {
		return single(&Str{Segs: normSegs(append(append([]Seg{}, in.asSegs(a, g)...), in.asSegs(b, g)...))})
	}
	// keep the choices apart when both are short and few
	if len(x)*len(y) <= 12 && shortTexts(x) && shortTexts(y) {
		var r []Alt
		for _, p := range x {
			for _, q := range y {
				gg := in.B.And(p.G, q.G)
				if gg == F {
					continue
				}
				r = in.addAlt(r, gg, &Str{Segs: normSegs(append(append([]Seg{}, p.V.(*Str).Segs...), q.V.(*Str).Segs...))})
			}
		}
		return &Alts{r}
	}
	return single(&Str{Segs: normSegs(append(append([]Seg{}, in.asSegs(a, g)...), in.asSegs(b, g)...))})
}

func shortTexts(l []Alt) bool {
	for _, a := range l {
		n := 0
		for _, g := range a.V.(*Str).Segs {
			switch x := g.(type) {
			case Lit:
				n += len(x)
			case Nest:
				n += 30
			default:
				n++
			}
		}
		if n > 40 {
			return false
		}
	}
	return true
}

func (in *Interp) litOf(a Atom) (string, bool) {
	s, ok := a.(*Str)
	if !ok {
		return "", false
	}
	r := ""
	for _, g := range s.Segs {
		l, ok := g.(Lit)
		if !ok {
			return "", false
		}
		r += string(l)
	}
	return r, true
}

func (in *Interp) constStr(a *Alts) (string, bool) {
	if len(a.A) != 1 {
		return "", false
	}
	return in.litOf(a.A[0].V)
}

// charsOf gives the bytes of a text whose length is known.
func (in *Interp) charsOf(a Atom) (int, []*BV, bool) {
	s, ok := a.(*Str)
	if !ok {
		return 0, nil, false
	}
	var r []*BV
	for _, g := range s.Segs {
		switch x := g.(type) {
		case Lit:
			for k := 0; k < len(x); k++ {
				r = append(r, in.Int(8, int64(x[k])))
			}
		case Char:
			if x.Rune {
				// one byte only when below 0x80
				hi := F
				for _, b := range x.V.Bits[7:] {
					hi = in.B.Or(hi, b)
				}
				if hi != F {
					return 0, nil, false
				}
			}
			r = append(r, &BV{x.V.Bits[:8]})
		case Fmt:
			if ds, ok := in.digits(x); ok {
				r = append(r, ds...)
				continue
			}
			// one decimal digit
			b, ok := x.V.(*BV)
			if !ok || x.Verb != "%v" || len(b.Bits) < 8 || in.bvLt(in.Int(len(b.Bits), 9), b, false) != F {
				return 0, nil, false
			}
			r = append(r, in.bvAdd(&BV{b.Bits[:8]}, in.Int(8, '0'), F))
		case Nest:
			// the same length in every alternative
			var gs []Node
			var cs [][]*BV
			for _, al := range x.A.A {
				n, c, ok := in.charsOf(al.V)
				if !ok || len(cs) > 0 && len(cs[0]) != n {
					return 0, nil, false
				}
				gs = append(gs, al.G)
				cs = append(cs, c)
			}
			if len(cs) == 0 {
				return 0, nil, false
			}
			for k := range cs[0] {
				var vs []Value
				for _, c := range cs {
					vs = append(vs, c[k])
				}
				r = append(r, in.mux(gs, vs).(*BV))
			}
		default:
			return 0, nil, false
		}
	}
	return len(r), r, true
}

// digits gives the characters of an integer that is padded with zeros to a width it never
// exceeds.
func (in *Interp) digits(x Fmt) ([]*BV, bool) {
	b, ok := x.V.(*BV)
	w, signed, isInt := intInfo(x.Typ)
	if !ok || !isInt || w == 1 || len(b.Bits) != w || len(x.Verb) < 4 || x.Verb[:2] != "%0" {
		return nil, false
	}
	n, err := strconv.Atoi(x.Verb[2 : len(x.Verb)-1])
	base := map[byte]int64{'b': 2, 'o': 8, 'd': 10, 'x': 16, 'X': 16}[x.Verb[len(x.Verb)-1]]
	if err != nil || n < 1 || n > 64 || base == 0 {
		return nil, false
	}
	if signed && b.Bits[w-1] != F {
		return nil, false
	}
	r := make([]*BV, n)
	shift := map[int64]int{2: 1, 8: 3, 16: 4}[base]
	for k := n - 1; k >= 0; k-- {
		var d *BV
		if shift > 0 {
			d = in.bvResize(&BV{b.Bits[:min(shift, w)]}, 8, false)
			b = in.bvShrC(b, shift, false)
		} else {
			b, d = in.bvUDivRem(b, in.Int(w, base))
			d = in.bvResize(d, 8, false)
		}
		letter := in.bvLt(in.Int(8, 9), d, false)
		add := int64('a' - 10)
		if x.Verb[len(x.Verb)-1] == 'X' {
			add = 'A' - 10
		}
		r[k] = in.bvAdd(d, in.bvIte(letter, in.Int(8, add), in.Int(8, '0')), F)
	}
	for _, y := range b.Bits {
		if y != F {
			return nil, false
		}
	}
	return r, true
}

func (in *Interp) strEqual(a, b *Str) Node {
	x, ok1 := in.litOf(a)
	y, ok2 := in.litOf(b)
	if ok1 && ok2 {
		if x == y {
			return T
		}
		return F
	}
	if a.Key() == b.Key() {
		return T
	}
	n, ca, ok1 := in.charsOf(a)
	m, cb, ok2 := in.charsOf(b)
	if ok1 && ok2 {
		if n != m {
			return F
		}
		r := T
		for k := range ca {
			r = in.B.And(r, in.bvEq(ca[k], cb[k]))
		}
		return r
	}
	return in.keyed("eqs(" + a.Key() + "," + b.Key() + ")")
}

func (in *Interp) strLen(a *Alts, g Node) *BV {
	var gs []Node
	var vs []Value
	for _, x := range in.strAlts(a, g) {
		gs = append(gs, x.G)
		if l, ok := in.litOf(x.V); ok {
			vs = append(vs, in.Int(64, int64(len(l))))
		} else if n, _, ok := in.charsOf(x.V); ok {
			vs = append(vs, in.Int(64, int64(n)))
		} else {
			n := in.length("len(" + x.V.Key() + ")")
			if m := in.minLen(x.V); m > 0 {
				n = in.bvAdd(n, in.Int(64, int64(m)), F)
			}
			vs = append(vs, n)
		}
	}
	if len(vs) == 0 {
		return in.Int(64, 0)
	}
	return in.mux(gs, vs).(*BV)
}

// minLen is a number of bytes that a text has at least.
func (in *Interp) minLen(a Atom) int {
	s, ok := a.(*Str)
	if !ok {
		return 0
	}
	n := 0
	for _, g := range s.Segs {
		switch x := g.(type) {
		case Lit:
			n += len(x)
		case Char:
			n++
		case Fmt:
			if _, ok := x.V.(*BV); ok {
				n++
			}
		case Nest:
			m := -1
			for _, y := range x.A.A {
				if k := in.minLen(y.V); m < 0 || k < m {
					m = k
				}
			}
			if m > 0 {
				n += m
			}
		}
	}
	return n
}

func (in *Interp) strIndex(fr *frame, i ssa.Value, instr ssa.Instruction, a *Alts, idx *BV) bool {
	ln := in.strLen(a, fr.st.PC)
	ok := in.bvLt(idx, ln, false)
	in.obl("index", instr, fr.st.PC, ok, "index outside a text")
	fr.st.PC = in.B.And(fr.st.PC, ok)
	if fr.st.PC == F {
		return false
	}
	var gs []Node
	var vs []Value
	for _, x := range in.strAlts(a, fr.st.PC) {
		n, cs, okc := in.charsOf(x.V)
		if !okc {
			gs = append(gs, x.G)
			vs = append(vs, in.Fresh(types.Typ[types.Uint8], "at("+x.V.Key()+","+bvKey(idx)+")", nil, false))
			continue
		}
		vals, g2, okf := in.feasible(idx, x.G, 5000)
		if !okf {
			panic(Abort{"text index with too many values"})
		}
		for k, v := range vals {
			if v >= 0 && int(v) < n {
				gs = append(gs, g2[k])
				vs = append(vs, cs[v])
			}
		}
	}
	fr.env[i] = in.mux(gs, vs)
	return true
}

func (in *Interp) strSlice(fr *frame, i *ssa.Slice, a *Alts, lo, hi *BV) bool {
	ln := in.strLen(a, fr.st.PC)
	if lo == nil {
		lo = in.Int(64, 0)
	}
	if hi == nil {
		hi = ln
	}
	ok := in.B.AndN(in.B.Not(in.bvLt(ln, hi, false)), in.B.Not(in.bvLt(hi, lo, false)))
	in.obl("slice", i, fr.st.PC, ok, "text slice out of range")
	fr.st.PC = in.B.And(fr.st.PC, ok)
	if fr.st.PC == F {
		return false
	}
	var r []Alt
	for _, x := range in.strAlts(a, fr.st.PC) {
		n, cs, okc := in.charsOf(x.V)
		lv, lg, ok1 := in.feasible(lo, x.G, 128)
		if !okc || !ok1 {
			r = in.addAlt(r, x.G, &Str{Segs: []Seg{OpaqueSeg("slice(" + x.V.Key() + "," + bvKey(lo) + "," + bvKey(hi) + ")")}})
			continue
		}
		for k, l := range lv {
			hv, hg, ok2 := in.feasible(hi, lg[k], 128)
			if !ok2 {
				panic(Abort{"text slice with too many bounds"})
			}
			for m, h := range hv {
				if l < 0 || h > int64(n) || l > h {
					continue
				}
				var segs []Seg
				for _, c := range cs[l:h] {
					segs = append(segs, Char{c, false})
				}
				r = in.addAlt(r, hg[m], &Str{Segs: normSegs(segs)})
			}
		}
	}
	fr.env[i] = &Alts{r}
	return true
}

func (in *Interp) strToSlice(fr *frame, instr ssa.Instruction, a *Alts, st *types.Slice) Value {
	var r []Alt
	w, _, _ := intInfo(st.Elem())
	for _, x := range in.strAlts(a, fr.st.PC) {
		var elems []Value
		if w == 8 {
			_, cs, ok := in.charsOf(x.V)
			if !ok {
				s := in.FreshSlice(st.Elem(), "bytes("+x.V.Key()+")", fr.st, -1, "local")
				r = in.addAlt(r, x.G, s.A[0].V)
				continue
			}
			for _, c := range cs {
				elems = append(elems, c)
			}
		} else {
			l, ok := in.litOf(x.V)
			if !ok {
				_, cs, ok := in.charsOf(x.V)
				if !ok {
					in.undecided(instr, "runes of unknown text")
					continue
				}
				for _, c := range cs {
					elems = append(elems, in.bvResize(c, 32, false))
				}
			} else {
				for _, c := range l {
					elems = append(elems, in.Int(32, int64(c)))
				}
			}
		}
		n := in.Int(64, int64(len(elems)))
		id := in.newObj(in.allocKind(), "text bytes", types.NewArray(st.Elem(), int64(len(elems))))
		fr.st.Heap[id] = &Agg{elems}
		r = in.addAlt(r, x.G, SliceA{Arr: PtrA{Obj: id}, Len: n, Cap: n})
	}
	return &Alts{r}
}

// elems reads the elements of a slice of known length.
func (in *Interp) sliceElems(st *State, s SliceA) ([]Value, bool) {
	n, ok := asInt(s.Len)
	if !ok || n > 100000 {
		return nil, false
	}
	if s.Arr.Obj == 0 {
		return nil, n == 0
	}
	arr := getPath(st.Heap[s.Arr.Obj], splitPath(s.Arr.Path))
	var r []Value
	for k := 0; k < int(n); k++ {
		v := getPath(arr, []int{s.Off + k})
		if v == nil {
			return nil, false
		}
		r = append(r, v)
	}
	return r, true
}

func (in *Interp) sliceToStr(fr *frame, instr ssa.Instruction, a *Alts) Value {
	var r []Alt
	for _, x := range in.prune(a, fr.st.PC) {
		s, ok := x.V.(SliceA)
		if !ok {
			r = in.addAlt(r, x.G, &Str{Segs: []Seg{OpaqueSeg("text(" + x.V.Key() + ")")}})
			continue
		}
		vals, gs, okf := in.feasible(s.Len, x.G, 64)
		if !okf {
			r = in.addAlt(r, x.G, &Str{Segs: []Seg{OpaqueSeg("text(" + x.V.Key() + ")")}})
			continue
		}
		for k, n := range vals {
			s2 := s
			s2.Len = in.Int(64, n)
			es, ok := in.sliceElems(fr.st, s2)
			if !ok {
				r = in.addAlt(r, gs[k], &Str{Segs: []Seg{OpaqueSeg("text(" + x.V.Key() + ")")}})
				continue
			}
			var segs []Seg
			for _, e := range es {
				b := e.(*BV)
				segs = append(segs, Char{b, len(b.Bits) == 32})
			}
			r = in.addAlt(r, gs[k], &Str{Segs: normSegs(segs)})
		}
	}
	return &Alts{r}
}

// ---- fmt ----

type fmtPiece struct {
	lit  string
	verb string
}

func parseFormat(f string) []fmtPiece {
	var r []fmtPiece
	lit := ""
	for i := 0; i < len(f); {
		if f[i] != '%' {
			lit += string(f[i])
			i++
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.*[]", f[j]) >= 0 {
			j++
		}
		if j < len(f) && f[j] == '%' {
			lit += "%"
			i = j + 1
			continue
		}
		if j >= len(f) {
			lit += "%!(NOVERB)"
			break
		}
		_, w := utf8.DecodeRuneInString(f[j:])
		if lit != "" {
			r = append(r, fmtPiece{lit: lit})
			lit = ""
		}
		r = append(r, fmtPiece{verb: f[i : j+w]})
		i = j + w
	}
	if lit != "" {
		r = append(r, fmtPiece{lit: lit})
	}
	return r
}

// varargs reads the elements of a variadic ...interface{} argument.
func (in *Interp) varargs(st *State, v Value) ([]Value, bool) {
	a := in.prune(in.alts(v), st.PC)
	if len(a) != 1 {
		return nil, false
	}
	s, ok := a[0].V.(SliceA)
	if !ok {
		return nil, false
	}
	return in.sliceElems(st, s)
}

// list is one possible content of a list.
type list struct {
	g  Node
	es []Value
}

// lists gives the possible contents of a list.
func (in *Interp) lists(st *State, v Value) ([]list, bool) {
	var r []list
	for _, a := range in.prune(in.alts(v), st.PC) {
		s, ok := a.V.(SliceA)
		if !ok {
			return nil, false
		}
		vals, gs, ok := in.feasible(s.Len, in.B.And(st.PC, a.G), 64)
		if !ok {
			return nil, false
		}
		for k, n := range vals {
			s2 := s
			s2.Len = in.Int(64, n)
			es, ok := in.sliceElems(st, s2)
			if !ok {
				return nil, false
			}
			r = append(r, list{in.B.And(a.G, gs[k]), es})
		}
	}
	return r, true
}

func (in *Interp) join(fr *frame, es []Value, sep *Alts) *Alts {
	r := single(&Str{})
	for k, e := range es {
		if k > 0 {
			r = in.concat(r, sep, fr.st.PC)
		}
		r = in.concat(r, in.alts(e), fr.st.PC)
	}
	return r
}

// padded is a text under a verb with a width, a precision or quotes.
func (in *Interp) padded(verb string, v Value, g Node) ([]Seg, bool) {
	var r []Alt
	for _, x := range in.strAlts(in.alts(v), g) {
		if l, ok := in.litOf(x.V); ok {
			r = in.addAlt(r, x.G, &Str{Segs: normSegs([]Seg{Lit(fmt.Sprintf(verb, l))})})
			continue
		}
		// only a width, and every byte is a character
		w := verb[1 : len(verb)-1]
		left := strings.HasPrefix(w, "-")
		width, err := strconv.Atoi(strings.TrimPrefix(w, "-"))
		n, cs, ok := in.charsOf(x.V)
		if err != nil || !ok || strings.HasPrefix(w, "0") || width > 1000 {
			return nil, false
		}
		for _, c := range cs {
			if in.B.And(x.G, c.Bits[7]) != F {
				return nil, false
			}
		}
		segs := append([]Seg{}, x.V.(*Str).Segs...)
		if pad := width - n; pad > 0 && left {
			segs = append(segs, Lit(strings.Repeat(" ", pad)))
		} else if pad > 0 {
			segs = append([]Seg{Lit(strings.Repeat(" ", pad))}, segs...)
		}
		r = in.addAlt(r, x.G, &Str{Segs: normSegs(segs)})
	}
	if len(r) == 1 {
		return r[0].V.(*Str).Segs, true
	}
	return []Seg{Nest{&Alts{r}}}, true
}

// starred resolves the argument numbers and the constant widths given as arguments of a verb: the
// plain verb and the place of its argument.
func (in *Interp) starred(verb string, args []Value, n int, g Node) (string, int, bool) {
	if !strings.ContainsAny(verb, "*[") {
		return verb, n, false
	}
	r := ""
	for i := 0; i < len(verb); i++ {
		switch verb[i] {
		case '[':
			j := strings.IndexByte(verb[i:], ']')
			if j < 0 {
				return verb, n, false
			}
			k, err := strconv.Atoi(verb[i+1 : i+j])
			if err != nil || k < 1 || k > len(args) {
				return verb, n, false
			}
			n = k - 1
			i += j
		case '*':
			if n >= len(args) {
				return verb, n, false
			}
			a := in.prune(in.alts(args[n]), g)
			if len(a) != 1 {
				return verb, n, false
			}
			x, ok := a[0].V.(IfaceA)
			if !ok || x.Typ == nil || !types.Identical(x.Typ, types.Typ[types.Int]) {
				return verb, n, false
			}
			b, ok := x.V.(*BV)
			if !ok {
				return verb, n, false
			}
			c, ok := asInt(b)
			if !ok || c > 1000 || c < -1000 {
				return verb, n, false
			}
			r += strconv.Itoa(int(c))
			n++
		default:
			r += verb[i : i+1]
		}
	}
	return r, n, true
}

func (in *Interp) sprintf(fr *frame, instr ssa.Instruction, format *Alts, args []Value) *Alts {
	var r []Alt
	for _, f := range in.strAlts(format, fr.st.PC) {
		l, ok := in.litOf(f.V)
		if !ok {
			in.undecided(instr, "format text that is not constant")
			r = in.addAlt(r, f.G, &Str{Segs: []Seg{OpaqueSeg("sprintf(" + f.V.Key() + ")")}})
			continue
		}
		var segs []Seg
		n, indexed := 0, false
		for _, p := range parseFormat(l) {
			if p.verb == "" {
				segs = append(segs, Lit(p.lit))
				continue
			}
			if v, m, ok := in.starred(p.verb, args, n, f.G); ok {
				p.verb, n = v, m
				indexed = indexed || strings.Contains(l, "[")
			}
			if n >= len(args) {
				segs = append(segs, Lit("%!"+p.verb[1:]+"(MISSING)"))
				in.effect("bad-format", instr, f.G, "verb "+p.verb+" without an argument", nil)
				continue
			}
			segs = append(segs, in.fmtArg(fr, instr, p.verb, args[n], f.G)...)
			n++
		}
		if n < len(args) && !indexed {
			segs = append(segs, Lit("%!(EXTRA)"))
			in.effect("bad-format", instr, f.G, "more arguments than verbs", nil)
		}
		r = in.addAlt(r, f.G, &Str{Segs: normSegs(segs)})
	}
	return &Alts{r}
}

// fmtArg is the text of one interface argument under a verb.
func (in *Interp) fmtArg(fr *frame, instr ssa.Instruction, verb string, v Value, g Node) []Seg {
	al := in.prune(in.alts(v), g)
	one := func(x Alt) []Seg {
		i, ok := x.V.(IfaceA)
		if !ok {
			return []Seg{OpaqueSeg("fmt" + verb + "(" + x.V.Key() + ")")}
		}
		if i.Typ == nil {
			return []Seg{Lit("<nil>")}
		}
		last := verb[len(verb)-1]
		// methods that fmt calls
		for _, m := range []string{"Format", "Error", "String", "GoString"} {
			switch {
			case m == "GoString" && !strings.Contains(verb, "#"):
			case m != "Format" && m != "GoString" && !strings.ContainsRune("xXqw", rune(last)):
			case i.Typ != errTyp && in.method(i.Typ, m) != nil:
				return []Seg{OpaqueSeg("fmt" + verb + "(" + x.V.Key() + ")")}
			}
		}
		if last == 'v' || last == 's' {
			for _, m := range []string{"Error", "String"} {
				if fn := in.method(i.Typ, m); fn != nil && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 1 && isString(fn.Signature.Results().At(0).Type()) && in.inModule(fn.Pkg) {
					st := fr.st.clone()
					st.PC = x.G
					res, _ := in.callBody(fn, []Value{i.V}, nil, st)
					if res != nil && m == "Error" {
						return ErrText.Segs
					}
					if res != nil {
						return in.asSegs(in.alts(res), x.G)
					}
				}
			}
		}
		if i.Typ == errTyp && verb == "%s" {
			verb = "%v"
		}
		if isString(i.Typ) && (verb == "%v" || verb == "%s") {
			return in.asSegs(in.alts(i.V), x.G)
		}
		if isString(i.Typ) {
			if r, ok := in.padded(verb, i.V, x.G); ok {
				return r
			}
		}
		if verb == "%g" && isFloat(i.Typ) {
			verb = "%v"
		}
		if b, ok := i.V.(*BV); ok {
			if w, s, ok := intInfo(i.Typ); ok && isConst(b) {
				if w == 1 {
					return []Seg{Lit(fmt.Sprintf(verb, b.Bits[0] == T))}
				}
				return []Seg{Lit(fmt.Sprintf(verb, constVal(b, s)))}
			}
			if w, s, ok := intInfo(i.Typ); ok && w > 1 && !s && last == 'b' && verb == fmt.Sprintf("%%0%db", w) {
				var r []Seg
				for k := w - 1; k >= 0; k-- {
					r = append(r, Char{V: in.bvResize(&BV{[]Node{b.Bits[k], F, F, F, T, T, F, F}}, 8, false)})
				}
				return r
			}
			if w, _, ok := intInfo(i.Typ); ok && w > 1 && verb == "%d" {
				return []Seg{Fmt{"%v", b, i.Typ}}
			}
			return []Seg{Fmt{verb, b, i.Typ}}
		}
		if l, ok := in.listText(fr.st, verb, i, x.G); ok {
			return l
		}
		if p, ok := i.Typ.Underlying().(*types.Pointer); ok {
			// fmt follows a pointer to a struct: print the content
			if a := in.prune(in.alts(i.V), x.G); len(a) == 1 {
				if pa, ok := a[0].V.(PtrA); ok && pa.Obj != 0 {
					return []Seg{Fmt{"&" + verb, getPath(fr.st.Heap[pa.Obj], splitPath(pa.Path)), p.Elem()}}
				}
			}
		}
		return []Seg{Fmt{verb, i.V, i.Typ}}
	}
	if len(al) == 1 {
		return one(al[0])
	}
	var r []Alt
	for _, x := range al {
		r = in.addAlt(r, x.G, &Str{Segs: normSegs(one(x))})
	}
	return []Seg{Nest{&Alts{r}}}
}

func (in *Interp) method(t types.Type, name string) *ssa.Function {
	ms := in.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if s := ms.At(i); s.Obj().Name() == name {
			return in.Prog.MethodValue(s)
		}
	}
	return nil
}

// listText is the text of a list of integers of known length.
func (in *Interp) listText(st *State, verb string, i IfaceA, g Node) ([]Seg, bool) {
	var et types.Type
	var es []Value
	switch u := i.Typ.Underlying().(type) {
	case *types.Slice:
		et = u.Elem()
		a := in.prune(in.alts(i.V), g)
		if len(a) != 1 {
			return nil, false
		}
		s, ok := a[0].V.(SliceA)
		if !ok {
			return nil, false
		}
		if es, ok = in.sliceElems(st, s); !ok {
			return nil, false
		}
	case *types.Array:
		et = u.Elem()
		a, ok := i.V.(*Agg)
		if !ok {
			return nil, false
		}
		es = a.Elems
	default:
		return nil, false
	}
	w, _, ok := intInfo(et)
	if !ok {
		return nil, false
	}
	for _, m := range []string{"Error", "String", "Format"} {
		if in.method(et, m) != nil {
			return nil, false
		}
	}
	one, sep, open, end := verb, " ", "[", "]"
	switch verb {
	case "%v", "%d":
		one = "%v"
	case "%X", "%x":
		if w != 8 {
			return nil, false
		}
		one, sep, open, end = "%02"+verb[1:], "", "", ""
	case "% X", "% x":
		if w != 8 {
			return nil, false
		}
		one, open, end = "%02"+verb[2:], "", ""
	case "%02d", "%03d":
	default:
		return nil, false
	}
	segs := []Seg{Lit(open)}
	for k, e := range es {
		b, ok := e.(*BV)
		if !ok {
			return nil, false
		}
		if k > 0 {
			segs = append(segs, Lit(sep))
		}
		segs = append(segs, Fmt{one, b, et})
	}
	return normSegs(append(segs, Lit(end))), true
}
