package ai

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is a loaded module.
type Program struct {
	Dir  string
	Mod  string
	Pkgs []*packages.Package
	SSA  *ssa.Program
	SP   []*ssa.Package
	By   map[string]*ssa.Package

	std map[string]*ssa.Function // models written in Go
}

// Load type-checks the module and builds its SSA form.
func Load(dir string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: dir}
	if IntBits == 32 {
		cfg.Env = append(os.Environ(), "GOARCH=386", "CGO_ENABLED=0")
	}
	pk, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{Dir: dir, Pkgs: pk, SSA: prog, By: map[string]*ssa.Package{}}
	for _, q := range prog.AllPackages() {
		p.By[q.Pkg.Path()] = q
	}
	for _, q := range pk {
		p.SP = append(p.SP, prog.Package(q.Types))
		if q.Module != nil {
			p.Mod = q.Module.Path
		}
	}
	sort.Slice(p.SP, func(i, j int) bool { return p.SP[i].Pkg.Path() < p.SP[j].Pkg.Path() })
	return p, p.loadStd()
}

// Func finds a package level function: "pkg/rel/path.Name".
func (p *Program) Func(q string) *ssa.Function {
	i := strings.LastIndex(q, ".")
	pk := p.By[p.Mod+"/"+q[:i]]
	if pk == nil {
		return nil
	}
	return pk.Func(q[i+1:])
}

// Named finds a named type: "pkg/rel/path.Name".
func (p *Program) Named(q string) *types.Named {
	i := strings.LastIndex(q, ".")
	pk := p.By[p.Mod+"/"+q[:i]]
	if pk == nil {
		return nil
	}
	o := pk.Pkg.Scope().Lookup(q[i+1:])
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

// Rel is a package path relative to the module.
func (p *Program) Rel(path string) string {
	if path == p.Mod {
		return "."
	}
	return strings.TrimPrefix(path, p.Mod+"/")
}

// NewInterp makes a context with the package variables initialised.
func (p *Program) NewInterp() *Interp {
	in := New(p.SSA, p.Mod)
	in.std = p.std
	in.InitPackages(p.SP)
	return in
}

// Method finds a method of a type.
func (in *Interp) Method(t types.Type, name string) *ssa.Function { return in.method(t, name) }

// Prune lists the alternatives feasible under g.
func (in *Interp) Prune(a *Alts, g Node) []Alt { return in.prune(a, g) }

// Path reads a part of an object.
func (in *Interp) Deref(st *State, p PtrA) Value {
	return getPath(st.Heap[p.Obj], splitPath(p.Path))
}

// SliceElems reads the elements of a slice of known length.
func (in *Interp) SliceElems(st *State, s SliceA) ([]Value, bool) { return in.sliceElems(st, s) }

// Tri is the trichotomy of a number.
func (in *Interp) Tri(p *Poly) (lt, eq, gt Node) { return in.tri(p) }

// PolyDiffer reports the condition under which two numbers differ.
func (in *Interp) PolyDiffer(a, b *Poly, g Node) (Node, bool) { return in.polyDiffer(a, b, g) }

// FewDigits tells whether a number prints alike with either precision: a sum of
// bits times dyadic coefficients, of at most six decimal digits.
func (in *Interp) FewDigits(p *Poly) bool {
	frac, sum := 0, new(big.Rat)
	for _, t := range p.Ts {
		for _, m := range t.M {
			if in.atoms[m].bit <= T {
				return false
			}
		}
		d, k := new(big.Int).Set(t.C.Denom()), 0
		for ; d.Bit(0) == 0; k++ {
			d.Rsh(d, 1)
		}
		if !d.IsInt64() || d.Int64() != 1 {
			return false
		}
		if k > frac {
			frac = k
		}
		sum.Add(sum, new(big.Rat).Abs(t.C))
	}
	if frac > 6 {
		return false
	}
	for i := 0; i < frac; i++ {
		sum.Mul(sum, big.NewRat(10, 1))
	}
	return sum.Cmp(big.NewRat(1000000, 1)) < 0
}

// FloatValues are the values of a number within g, where they are few and print alike
// with either precision, or where there is only one.
func (in *Interp) FloatValues(p *Poly, g Node, max int) ([]*big.Rat, []Node, bool) {
	if c, ok := p.constant(); ok {
		return []*big.Rat{c}, []Node{g}, true
	}
	if !in.FewDigits(p) {
		return nil, nil, false
	}
	v, den, ok := in.polyToBV(p, 64)
	if !ok {
		return nil, nil, false
	}
	ns, gs, ok := in.feasible(v, g, max)
	var rs []*big.Rat
	for _, n := range ns {
		rs = append(rs, new(big.Rat).SetFrac(big.NewInt(n), den))
	}
	return rs, gs, ok
}

// BVToPoly is the numeric value of an integer.
func (in *Interp) BVToPoly(v *BV, signed bool) *Poly { return in.bvToPoly(v, signed) }

// IntInfo describes an integer (or Boolean) type.
func IntInfo(t types.Type) (int, bool, bool) { return intInfo(t) }

// IsFloat and IsString classify types.
func IsFloat(t types.Type) bool  { return isFloat(t) }
func IsString(t types.Type) bool { return isString(t) }

func (in *Interp) Add(a, b *BV) *BV              { return in.bvAdd(a, b, F) }
func (in *Interp) Sub(a, b *BV) *BV              { return in.bvSub(a, b) }
func (in *Interp) Mul(a, b *BV) *BV              { return in.bvMul(a, b) }
func (in *Interp) Neg(a *BV) *BV                 { return in.bvNeg(a) }
func (in *Interp) Eq(a, b *BV) Node              { return in.bvEq(a, b) }
func (in *Interp) Lt(a, b *BV, signed bool) Node { return in.bvLt(a, b, signed) }
func (in *Interp) Resize(a *BV, w int, s bool) *BV {
	return in.bvResize(a, w, s)
}
func (in *Interp) IteBV(g Node, a, b *BV) *BV { return in.bvIte(g, a, b) }
func (in *Interp) Keyed(k string) Node        { return in.keyed(k) }
func (in *Interp) PAdd(a, b *Poly) *Poly      { return in.polyAdd(a, b) }
func (in *Interp) PMul(a, b *Poly) *Poly      { return in.polyMul(a, b) }
func (in *Interp) Feasible(v *BV, g Node, max int) ([]int64, []Node, bool) {
	return in.feasible(v, g, max)
}
func (in *Interp) StrAlts(a *Alts, g Node) []Alt { return in.strAlts(a, g) }
func (in *Interp) LitOf(a Atom) (string, bool)   { return in.litOf(a) }
func (in *Interp) CharsOf(a Atom) (int, []*BV, bool) {
	return in.charsOf(a)
}
func (in *Interp) Under(v *BV, g Node) *BV  { return in.underBV(v, g) }
func IsConstBV(v *BV) bool                  { return isConst(v) }
func AsInt(v *BV) (int64, bool)             { return asInt(v) }
func SortedObls(m map[string]*Obl) []string { return sortedKeys(m) }
func Single(a Atom) *Alts                   { return single(a) }

// Guard runs f, turning an abandoned analysis into an error.
func Guard(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(error); ok {
				err = e
				if _, isRT := r.(interface{ RuntimeError() }); isRT {
					panic(r)
				}
				return
			}
			panic(r)
		}
	}()
	f()
	return nil
}

// Describe renders a value for reports and dumps.
func (in *Interp) Describe(v Value, g Node) string {
	switch x := v.(type) {
	case nil:
		return "-"
	case *BV:
		return in.DescribeBV(in.underBV(x, g))
	case *Agg:
		var s []string
		for _, e := range x.Elems {
			s = append(s, in.Describe(e, g))
		}
		return "{" + strings.Join(s, ", ") + "}"
	case *Alts:
		var s []string
		al := in.prune(x, g)
		for _, a := range al {
			gs := ""
			if len(al) > 1 {
				gs = in.B.String(a.G) + " ? "
			}
			s = append(s, gs+in.DescribeAtom(a.V, a.G))
		}
		if len(s) > 12 {
			s = append(s[:12], fmt.Sprintf("... %d", len(al)))
		}
		return strings.Join(s, " | ")
	}
	return fmt.Sprintf("%T", v)
}

func (in *Interp) DescribeBV(v *BV) string {
	if isConst(v) {
		return fmt.Sprintf("%v", constVal(v, len(v.Bits) > 1))
	}
	var parts []string
	i := len(v.Bits) - 1
	for i >= 0 && v.Bits[i] == F {
		i--
	}
	for i >= 0 {
		b := v.Bits[i]
		name := in.B.String(b)
		// runs of consecutive variables
		if b > 1 && isVar(in, b) {
			j := i
			for j > 0 && v.Bits[j-1] > 1 && isVar(in, v.Bits[j-1]) && in.B.Level(v.Bits[j-1]) == in.B.Level(v.Bits[j])+1 {
				j--
			}
			if j != i {
				parts = append(parts, name+".."+in.B.String(v.Bits[j]))
				i = j - 1
				continue
			}
		}
		parts = append(parts, name)
		i--
	}
	return "<" + strings.Join(parts, " ") + ">"
}

func isVar(in *Interp, n Node) bool {
	lo, hi := in.B.Children(n)
	return lo == F && hi == T
}

func (in *Interp) DescribeAtom(a Atom, g Node) string {
	switch x := a.(type) {
	case *Poly:
		x = in.polyUnder(x, g)
		var s []string
		for k, t := range x.Ts {
			if k > 16 {
				s = append(s, "...")
				break
			}
			f, _ := t.C.Float64()
			m := ""
			for _, id := range t.M {
				if b := in.atoms[id].bit; b > 1 {
					m += "*" + in.B.String(b)
				} else {
					k := in.atoms[id].key
					if len(k) > 60 {
						k = k[:60] + "~"
					}
					m += "*" + k
				}
			}
			s = append(s, fmt.Sprintf("%.8g%s", f, m))
		}
		return "num(" + strings.Join(s, " + ") + ")"
	case *Str:
		var s []string
		for _, q := range x.Segs {
			switch y := q.(type) {
			case Lit:
				s = append(s, fmt.Sprintf("%q", string(y)))
			case Fmt:
				s = append(s, y.Verb+"("+in.Describe(y.V, g)+")")
			case Nest:
				s = append(s, "("+in.Describe(y.A, g)+")")
			case Char:
				s = append(s, "char("+in.Describe(y.V, g)+")")
			default:
				s = append(s, q.Key())
			}
		}
		return strings.Join(s, " ")
	case IfaceA:
		if x.Typ == nil {
			return "nil"
		}
		return "(" + types.TypeString(x.Typ, func(p *types.Package) string { return p.Name() }) + ")" + in.Describe(x.V, g)
	case PtrA:
		if x.Obj == 0 {
			return "nilptr"
		}
		return "&" + in.Objs[x.Obj].Name + x.Path
	case SliceA:
		return "slice of " + in.DescribeAtom(x.Arr, g) + fmt.Sprintf("+%d len ", x.Off) + in.Describe(x.Len, g)
	}
	return a.Key()
}

// Const is the value of a constant polynomial.
func (p *Poly) Const() (*big.Rat, bool) { return p.constant() }

// PolyUnder simplifies a number under a condition.
func (in *Interp) PolyUnder(p *Poly, g Node) *Poly { return in.polyUnder(p, g) }

// NewBytes is a slice of known bytes (its capacity is its length).
func (in *Interp) NewBytes(st *State, kind, name string, bs []*BV) *Alts {
	a := &Agg{make([]Value, len(bs))}
	for i, b := range bs {
		a.Elems[i] = b
	}
	id := in.NewObject(st, kind, name, types.NewArray(types.Typ[types.Uint8], int64(len(bs))), a)
	return single(SliceA{Arr: PtrA{Obj: id}, Len: in.Int(64, int64(len(bs))), Cap: in.Int(64, int64(len(bs)))})
}

// SymMap is a map that is nil or has unknown content.
func (in *Interp) SymMap(st *State, name string, t *types.Map) *Alts {
	id := in.NewObject(st, "input", name, t, &MapObj{Sym: name, KT: t.Key(), VT: t.Elem()})
	nl := in.keyed("nil(" + name + ")")
	return &Alts{[]Alt{{nl, MapA{}}, {in.B.Not(nl), MapA{id}}}}
}

// SymHas and SymLen are the membership and the size of a map of unknown content.
func (in *Interp) SymHas(name string, k Value) Node {
	return in.keyed(fmt.Sprintf("has(%s,%s)", name, ValKey(in.symKey(name, k, T))))
}
func (in *Interp) SymLen(name string) *BV { return in.nonNeg("len(" + name + ")") }

// Freeze marks everything that exists as given by the caller: writing to it is an effect.
func (in *Interp) Freeze(st *State) {
	for o := range st.Heap {
		if oi := in.Objs[o]; oi != nil && oi.Kind == "local" {
			oi.Kind = "input"
		}
	}
}

// AnyError is an error about which nothing is known (all such errors print alike).
func (in *Interp) AnyError() Value { return in.newError() }

// Put stores a value in a place.
func (in *Interp) Put(st *State, p PtrA, v Value) {
	st.Heap[p.Obj] = setPath(st.Heap[p.Obj], splitPath(p.Path), v)
}

// PolyInt is a whole number.
func (in *Interp) PolyInt(n int64) *Poly { return in.PolyConst(big.NewRat(n, 1)) }

// Unknowns is the number of facts the domain knows nothing about but their identity.
func (in *Interp) Unknowns() int { return len(in.keyVars) }

// Place is the position of a block.
func (in *Interp) Place(b *ssa.BasicBlock) string { return in.pos(in.nearPos(b.Instrs[0])).String() }
