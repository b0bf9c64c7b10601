package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/bdd"
)

// Interp is one analysis context.
type Interp struct {
	B       *bdd.B
	Prog    *ssa.Program
	std     map[string]*ssa.Function
	sqrtArg map[string][]*Poly
	ModPath string

	atoms      []atomDef
	signs      map[string][]signTest
	MathCalls  []MathCall // applications of partial functions
	underMemo  map[[2]int]*Poly
	substMemo  map[string]*Poly
	dependMemo map[[2]int]bool
	atomIx     map[string]int
	keyVars    map[string]Node
	tests      map[int]bool // the levels of keyVars
	sums       []sumTest
	sumIx      map[string]bool

	nextObj int
	Objs    map[ObjID]*ObjInfo
	globals map[*ssa.Global]ObjID
	base    map[ObjID]Value
	initing bool
	inited  map[*ssa.Package]bool

	Obls      map[string]*Obl
	Effects   []Effect
	Undecided map[string]Undec
	Calls     []CallRec
	Track     map[string]bool
	// Stub replaces calls to a function by an unknown result, keyed by its arguments.
	Stub map[string]func(in *Interp, args []Value, st *State) Value

	FuncsSeen map[*ssa.Function]int
	depth     int

	// Loops holds the largest number of times each loop was entered or repeated in one call,
	// Nested the largest number of calls of a function that were under way at once.
	Loops    map[*ssa.BasicBlock]int
	Nested   map[*ssa.Function]int
	stack    []*ssa.Function
	steps    int
	fresh    int
	loopInfo map[*ssa.Function]*loopData
	constTab map[*ssa.Const]Value
	symKeys  map[string][]Value
	// Backwards iterates over maps in the opposite order.
	Backwards bool
}

// ObjInfo describes an abstract heap object.
type ObjInfo struct {
	Kind string // "global", "input", "local", "init", "shared"
	Name string
	Typ  types.Type
}

// Obl is one proof obligation at a program point (merged over contexts).
type Obl struct {
	Kind   string
	Fn     string
	Pos    token.Position
	Count  int
	Failed Node // condition under which it fails
	Detail string
	Stack  string
}

// Effect is an observable side effect.
type Effect struct {
	Kind string
	Fn   string
	Pos  token.Position
	G    Node
	What string
	Str  *Alts
}

// Undec records a construct that the domain cannot decide.
type Undec struct {
	What string
	Fn   string
	Pos  token.Position
}

// CallRec records one call of a tracked function.
type CallRec struct {
	Name string
	G    Node
	Args []Value
	Pos  token.Position
	Fn   string
	Res  Value
	St   *State
	Seq  int
}

// State is the abstract machine state at a program point.
type State struct {
	PC   Node
	Heap map[ObjID]Value
}

func (s *State) clone() *State {
	h := make(map[ObjID]Value, len(s.Heap)+8)
	for k, v := range s.Heap {
		h[k] = v
	}
	return &State{s.PC, h}
}

// New makes an analysis context.
func New(prog *ssa.Program, modPath string) *Interp {
	return &Interp{
		B: bdd.New(), Prog: prog, ModPath: modPath,
		sqrtArg: map[string][]*Poly{}, atomIx: map[string]int{}, keyVars: map[string]Node{}, tests: map[int]bool{},
		Objs: map[ObjID]*ObjInfo{}, globals: map[*ssa.Global]ObjID{},
		base: map[ObjID]Value{}, inited: map[*ssa.Package]bool{},
		Obls: map[string]*Obl{}, Undecided: map[string]Undec{},
		Track: map[string]bool{}, FuncsSeen: map[*ssa.Function]int{}, Loops: map[*ssa.BasicBlock]int{}, Nested: map[*ssa.Function]int{},
		Stub:     map[string]func(in *Interp, args []Value, st *State) Value{},
		loopInfo: map[*ssa.Function]*loopData{},
		constTab: map[*ssa.Const]Value{},
		symKeys:  map[string][]Value{},
	}
}

// NewState is the state after package initialisation.
func (in *Interp) NewState() *State {
	h := make(map[ObjID]Value, len(in.base)+64)
	for k, v := range in.base {
		h[k] = v
	}
	return &State{T, h}
}

// InitPackages abstractly runs the initialisers of the packages, so that tables held in
// package variables are known.
func (in *Interp) InitPackages(ps []*ssa.Package) {
	in.initing = true
	st := &State{T, map[ObjID]Value{}}
	for _, p := range ps {
		if p == nil {
			continue
		}
		st = in.initPkg(p, st)
	}
	in.initing = false
	in.base = st.Heap
}

func (in *Interp) initPkg(p *ssa.Package, st *State) *State {
	if in.inited[p] || !in.inModule(p) {
		return st
	}
	in.inited[p] = true
	if f := p.Func("init"); f != nil {
		_, st2 := in.callBody(f, nil, nil, st)
		if st2 != nil {
			st = st2
		}
	}
	return st
}

func (in *Interp) inModule(p *ssa.Package) bool {
	return p != nil && p.Pkg != nil && (p.Pkg.Path() == OraclePath || p.Pkg.Path() == in.ModPath || strings.HasPrefix(p.Pkg.Path(), in.ModPath+"/"))
}

func (in *Interp) newObj(kind, name string, t types.Type) ObjID {
	in.nextObj++
	id := ObjID(in.nextObj)
	in.Objs[id] = &ObjInfo{kind, name, t}
	return id
}

// NewObject allocates an object with content.
func (in *Interp) NewObject(st *State, kind, name string, t types.Type, v Value) ObjID {
	id := in.newObj(kind, name, t)
	st.Heap[id] = v
	return id
}

// stdout is the standard output.
const stdout = "os.Stdout"

func (in *Interp) globalObj(g *ssa.Global, st *State) ObjID {
	id, ok := in.globals[g]
	if !ok {
		t := g.Type().Underlying().(*types.Pointer).Elem()
		id = in.newObj("global", g.String(), t)
		in.globals[g] = id
		if g.String() == "os.Stdout" {
			in.base[id] = single(Opaque{ID: stdout})
		} else if !in.inModule(g.Pkg) {
			in.base[id] = in.Fresh(t, "global "+g.String(), st, false)
		} else {
			in.base[id] = in.Zero(t)
		}
	}
	if _, ok := st.Heap[id]; !ok {
		st.Heap[id] = in.base[id]
	}
	return id
}

// ---- types ----

// IntBits is the width of int on the analysed platform. Lengths are kept in 64 bits and cut where
// the program reads them.
var IntBits = 64

// maxLen is the number of bits of the greatest length that fits in memory.
func maxLen() int {
	if IntBits == 32 {
		return 31
	}
	return 48
}

// length is an unknown length.
func (in *Interp) length(name string) *BV {
	v := in.Fresh(types.Typ[types.Int64], name, nil, false).(*BV)
	b := append([]Node{}, v.Bits...)
	for i := maxLen(); i < 64; i++ {
		b[i] = F
	}
	return &BV{b}
}

func intInfo(t types.Type) (w int, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 1, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int:
		return IntBits, true, true
	case types.Uint, types.Uintptr:
		return IntBits, false, true
	case types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint64:
		return 64, false, true
	}
	return 0, false, false
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// Zero is the zero value of a type.
func (in *Interp) Zero(t types.Type) Value {
	if w, _, ok := intInfo(t); ok {
		return in.Int(w, 0)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if isFloat(t) {
			return single(&Poly{})
		}
		if isString(t) {
			return single(&Str{})
		}
		return single(Opaque{"zero:" + t.String(), t})
	case *types.Struct:
		a := &Agg{make([]Value, u.NumFields())}
		for i := range a.Elems {
			a.Elems[i] = in.Zero(u.Field(i).Type())
		}
		return a
	case *types.Array:
		a := &Agg{make([]Value, int(u.Len()))}
		z := in.Zero(u.Elem())
		for i := range a.Elems {
			a.Elems[i] = z
		}
		return a
	case *types.Tuple:
		a := &Agg{make([]Value, u.Len())}
		for i := range a.Elems {
			a.Elems[i] = in.Zero(u.At(i).Type())
		}
		return a
	case *types.Pointer:
		return single(PtrA{})
	case *types.Slice:
		return single(SliceA{Len: in.Int(64, 0), Cap: in.Int(64, 0)})
	case *types.Interface:
		return single(IfaceA{})
	case *types.Map:
		return single(MapA{})
	case *types.Signature:
		return single(FuncA{})
	}
	return single(Opaque{"zero:" + t.String(), t})
}

// Fresh is an unknown value of a type. Pointers are to fresh objects (non nil).
func (in *Interp) Fresh(t types.Type, name string, st *State, deep bool) Value {
	if w, _, ok := intInfo(t); ok {
		bits := make([]Node, w)
		for i := w - 1; i >= 0; i-- {
			bits[i] = in.keyed(fmt.Sprintf("%s.%d", name, i))
		}
		return &BV{bits}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if isFloat(t) {
			return single(in.FloatInput(name))
		}
		if isString(t) {
			return single(&Str{Segs: []Seg{OpaqueSeg(name)}})
		}
	case *types.Struct:
		a := &Agg{make([]Value, u.NumFields())}
		for i := range a.Elems {
			a.Elems[i] = in.Fresh(u.Field(i).Type(), name+"."+u.Field(i).Name(), st, deep)
		}
		return a
	case *types.Array:
		if u.Len() <= 256 {
			a := &Agg{make([]Value, int(u.Len()))}
			for i := range a.Elems {
				a.Elems[i] = in.Fresh(u.Elem(), fmt.Sprintf("%s[%d]", name, i), st, deep)
			}
			return a
		}
	case *types.Tuple:
		a := &Agg{make([]Value, u.Len())}
		for i := range a.Elems {
			a.Elems[i] = in.Fresh(u.At(i).Type(), fmt.Sprintf("%s#%d", name, i), st, deep)
		}
		return a
	case *types.Pointer:
		if deep && st != nil {
			id := in.NewObject(st, "input", name, u.Elem(), in.Fresh(u.Elem(), "*"+name, st, false))
			return single(PtrA{Obj: id})
		}
	case *types.Slice:
		if st != nil {
			return in.FreshSlice(u.Elem(), name, st, -1, "input")
		}
	case *types.Map:
		if st != nil {
			id := in.NewObject(st, "input", name, t, &MapObj{Sym: name, KT: u.Key(), VT: u.Elem()})
			return single(MapA{id})
		}
	}
	return single(Opaque{name, t})
}

// FreshSlice is an unknown slice; n<0: of unknown length.
func (in *Interp) FreshSlice(elem types.Type, name string, st *State, n int, kind string) *Alts {
	lb := &lazyBase{Name: name, Elem: elem, memo: map[int]Value{}}
	lb.Mk = func(i int) Value { return in.Fresh(elem, fmt.Sprintf("%s[%d]", name, i), nil, false) }
	id := in.NewObject(st, kind, name, types.NewSlice(elem), &LazyArr{Base: lb})
	cp := in.length("cap(" + name + ")")
	var ln *BV
	if n >= 0 {
		ln = in.Int(64, int64(n))
	} else {
		ln = in.length("len(" + name + ")")
	}
	return single(SliceA{Arr: PtrA{Obj: id}, Off: 0, Len: ln, Cap: cp})
}

func (l *LazyArr) get(i int) Value {
	if v, ok := l.Over[i]; ok {
		return v
	}
	v, ok := l.Base.memo[i]
	if !ok {
		v = l.Base.Mk(i)
		l.Base.memo[i] = v
	}
	return v
}

func (l *LazyArr) set(i int, v Value) *LazyArr {
	n := &LazyArr{Base: l.Base, Over: map[int]Value{}}
	for k, x := range l.Over {
		n.Over[k] = x
	}
	n.Over[i] = v
	return n
}

// ---- join ----

// Merge is the gated join: g ? a : b.
func (in *Interp) Merge(g Node, a, b Value) Value {
	if a == nil {
		return b
	}
	if b == nil || g == T {
		return a
	}
	if g == F {
		return b
	}
	switch x := a.(type) {
	case *BV:
		y, ok := b.(*BV)
		if !ok || len(y.Bits) != len(x.Bits) {
			panic(fmt.Sprintf("merge of %T(%d) and %T", a, len(x.Bits), b))
		}
		if x == y {
			return x
		}
		return in.bvIte(g, x, y)
	case *Agg:
		y := b.(*Agg)
		if x == y {
			return x
		}
		same := true
		r := make([]Value, len(x.Elems))
		for i := range r {
			r[i] = in.Merge(g, x.Elems[i], y.Elems[i])
			if r[i] != x.Elems[i] {
				same = false
			}
		}
		if same {
			return x
		}
		return &Agg{r}
	case *Alts:
		y := b.(*Alts)
		if x == y {
			return x
		}
		return in.mergeAlts(g, x, y)
	case *LazyArr:
		y := b.(*LazyArr)
		if x == y {
			return x
		}
		n := &LazyArr{Base: x.Base, Over: map[int]Value{}}
		for k := range x.Over {
			n.Over[k] = in.Merge(g, x.get(k), y.get(k))
		}
		for k := range y.Over {
			n.Over[k] = in.Merge(g, x.get(k), y.get(k))
		}
		return n
	case *MapObj:
		y := b.(*MapObj)
		if x == y {
			return x
		}
		n := &MapObj{Sym: x.Sym, KT: x.KT, VT: x.VT}
		i := 0
		for i < len(x.Ents) && i < len(y.Ents) && sameEnt(x.Ents[i], y.Ents[i]) {
			n.Ents = append(n.Ents, x.Ents[i])
			i++
		}
		for _, e := range x.Ents[i:] {
			e.G = in.B.And(e.G, g)
			n.Ents = append(n.Ents, e)
		}
		for _, e := range y.Ents[i:] {
			e.G = in.B.Diff(e.G, g)
			n.Ents = append(n.Ents, e)
		}
		return n
	}
	panic(fmt.Sprintf("merge of %T", a))
}

func sameEnt(a, b MapEnt) bool { return a.G == b.G && a.K == b.K && a.V == b.V && a.Del == b.Del }

func atomEq(a, b Atom) bool {
	switch x := a.(type) {
	case *Poly:
		if y, ok := b.(*Poly); ok && x == y {
			return true
		}
	case *Str:
		if y, ok := b.(*Str); ok && x == y {
			return true
		}
	case PtrA:
		y, ok := b.(PtrA)
		return ok && x == y
	}
	return a.Key() == b.Key()
}

func (in *Interp) addAlt(r []Alt, g Node, v Atom) []Alt {
	if g == F {
		return r
	}
	for i := range r {
		if atomEq(r[i].V, v) {
			r[i].G = in.B.Or(r[i].G, g)
			return r
		}
		if x, ok := r[i].V.(IfaceA); ok && x.Typ != nil {
			if y, ok := v.(IfaceA); ok && y.Typ != nil && types.Identical(x.Typ, y.Typ) {
				bx, ok1 := x.V.(*BV)
				by, ok2 := y.V.(*BV)
				if ok1 && ok2 {
					r[i].V = IfaceA{x.Typ, in.bvIte(g, by, bx)}
					r[i].G = in.B.Or(r[i].G, g)
					return r
				}
			}
		}
	}
	return append(r, Alt{g, v})
}

func (in *Interp) mergeAlts(g Node, x, y *Alts) *Alts {
	var r []Alt
	for _, a := range x.A {
		r = in.addAlt(r, in.B.And(g, a.G), a.V)
	}
	ng := in.B.Not(g)
	for _, a := range y.A {
		r = in.addAlt(r, in.B.And(ng, a.G), a.V)
	}
	return &Alts{r}
}

// prune keeps the alternatives feasible under g.
func (in *Interp) prune(a *Alts, g Node) []Alt {
	var r []Alt
	for _, x := range a.A {
		if gg := in.B.And(x.G, g); gg != F {
			r = append(r, Alt{gg, x.V})
		}
	}
	return r
}

// mux builds a value out of guarded values (the guards are disjoint).
func (in *Interp) mux(gs []Node, vs []Value) Value {
	if len(vs) == 0 {
		return nil
	}
	allAlts := true
	for _, v := range vs {
		if _, ok := v.(*Alts); !ok {
			allAlts = false
		}
	}
	if allAlts && len(vs) > 1 {
		var r []Alt
		for i, v := range vs {
			for _, a := range v.(*Alts).A {
				r = in.addAlt(r, in.B.And(gs[i], a.G), a.V)
			}
		}
		return &Alts{r}
	}
	r := vs[len(vs)-1]
	for i := len(vs) - 2; i >= 0; i-- {
		r = in.Merge(gs[i], vs[i], r)
	}
	return r
}

// ---- reports ----

func (in *Interp) pos(p token.Pos) token.Position { return in.Prog.Fset.Position(p) }

func (in *Interp) obl(kind string, instr ssa.Instruction, pc, ok Node, detail string) {
	fn := instr.Parent()
	pos := instr.Pos()
	key := fmt.Sprintf("%s|%s|%v|%p", kind, fn.String(), pos, instr)
	o := in.Obls[key]
	if o == nil {
		o = &Obl{Kind: kind, Fn: fn.String(), Pos: in.pos(in.nearPos(instr))}
		in.Obls[key] = o
	}
	o.Count++
	bad := in.B.Diff(pc, ok)
	if bad != F {
		if o.Failed == F {
			o.Detail = detail
			var ss []string
			for _, f := range in.stack {
				ss = append(ss, f.RelString(nil))
			}
			o.Stack = strings.Join(ss, " -> ")
		}
		o.Failed = in.B.Or(o.Failed, bad)
	}
}

func (in *Interp) nearPos(instr ssa.Instruction) token.Pos {
	if p := instr.Pos(); p.IsValid() {
		return p
	}
	b := instr.Block()
	if b != nil {
		for _, i := range b.Instrs {
			if i.Pos().IsValid() {
				return i.Pos()
			}
		}
	}
	return instr.Parent().Pos()
}

func (in *Interp) undecided(instr ssa.Instruction, what string) {
	fn := instr.Parent().String()
	p := in.pos(in.nearPos(instr))
	k := what + "|" + fn + "|" + p.String()
	if _, ok := in.Undecided[k]; !ok {
		in.Undecided[k] = Undec{what, fn, p}
	}
}

func (in *Interp) effect(kind string, instr ssa.Instruction, g Node, what string, s *Alts) {
	if in.initing {
		if kind != "unknown-call" && kind != "goroutine" {
			return
		}
		kind = "init-" + kind
	}
	in.Effects = append(in.Effects, Effect{kind, instr.Parent().String(), in.pos(in.nearPos(instr)), g, what, s})
}

// ---- control flow ----

type loopData struct {
	order map[*ssa.BasicBlock]int
	depth map[*ssa.BasicBlock]int
	live  map[*ssa.BasicBlock][]ssa.Value // values read in or after the block
	heads map[*ssa.BasicBlock]bool        // loop headers
}

// liveness computes the values each block needs from before it (its own phis are not among them).
func liveness(fn *ssa.Function) map[*ssa.BasicBlock][]ssa.Value {
	local := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return false
		}
		return true
	}
	live := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		live[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for k := len(fn.Blocks) - 1; k >= 0; k-- {
			b := fn.Blocks[k]
			set := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range live[s] {
					set[v] = true
				}
				for pi, p := range s.Preds {
					if p != b {
						continue
					}
					for _, instr := range s.Instrs {
						ph, ok := instr.(*ssa.Phi)
						if !ok {
							break
						}
						if local(ph.Edges[pi]) {
							set[ph.Edges[pi]] = true
						}
					}
				}
			}
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				instr := b.Instrs[i]
				if v, ok := instr.(ssa.Value); ok {
					delete(set, v)
				}
				if _, ok := instr.(*ssa.Phi); ok {
					continue
				}
				for _, o := range instr.Operands(nil) {
					if *o != nil && local(*o) {
						set[*o] = true
					}
				}
			}
			if len(set) != len(live[b]) {
				live[b] = set
				changed = true
			}
		}
	}
	out := map[*ssa.BasicBlock][]ssa.Value{}
	for b, s := range live {
		for v := range s {
			out[b] = append(out[b], v)
		}
	}
	return out
}

func (in *Interp) loops(fn *ssa.Function) *loopData {
	if d, ok := in.loopInfo[fn]; ok {
		return d
	}
	d := &loopData{map[*ssa.BasicBlock]int{}, map[*ssa.BasicBlock]int{}, liveness(fn), map[*ssa.BasicBlock]bool{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for i, b := range post {
		d.order[b] = len(post) - i
	}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				d.heads[s] = true
				// natural loop of the back edge b -> s
				body := map[*ssa.BasicBlock]bool{s: true}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if body[x] {
						continue
					}
					body[x] = true
					work = append(work, x.Preds...)
				}
				for x := range body {
					d.depth[x]++
				}
			}
		}
	}
	in.loopInfo[fn] = d
	return d
}

type pend struct {
	st  *State
	env map[ssa.Value]Value
}

type frame struct {
	fn    *ssa.Function
	binds []Value
	env   map[ssa.Value]Value
	st    *State
	defs  []deferred
}

type deferred struct {
	instr *ssa.Defer
	g     Node
	fn    Value
	args  []Value
}

const maxDepth = 120

func (in *Interp) mergePend(a, b *pend) *pend {
	pc := in.B.Or(a.st.PC, b.st.PC)
	g := in.B.Simplify(a.st.PC, pc)
	env := make(map[ssa.Value]Value, len(a.env))
	for k, v := range a.env {
		if w, ok := b.env[k]; ok {
			if v == w {
				env[k] = v
			} else {
				env[k] = in.Merge(g, v, w)
			}
		} else {
			env[k] = v
		}
	}
	for k, v := range b.env {
		if _, ok := a.env[k]; !ok {
			env[k] = v
		}
	}
	return &pend{&State{pc, in.mergeHeap(g, a.st.Heap, b.st.Heap)}, env}
}

func (in *Interp) mergeHeap(g Node, x, y map[ObjID]Value) map[ObjID]Value {
	heap := make(map[ObjID]Value, len(x)+8)
	for k, v := range x {
		if w, ok := y[k]; ok {
			if v == w {
				heap[k] = v
			} else {
				heap[k] = in.Merge(g, v, w)
			}
		} else {
			heap[k] = v
		}
	}
	for k, v := range y {
		if _, ok := x[k]; !ok {
			heap[k] = v
		}
	}
	return heap
}

// CallFn interprets a function on abstract arguments. A nil state: it does not return.
func (in *Interp) CallFn(fn *ssa.Function, args []Value, st *State) (Value, *State) {
	return in.callBody(fn, args, nil, st)
}

func (in *Interp) callBody(fn *ssa.Function, args, binds []Value, st *State) (Value, *State) {
	if st.PC == F {
		return nil, nil
	}
	if len(in.stack) > maxDepth {
		panic(Abort{"recursion deeper than the bound in " + fn.String()})
	}
	in.FuncsSeen[fn]++
	in.stack = append(in.stack, fn)
	defer func() { in.stack = in.stack[:len(in.stack)-1] }()
	n := 0
	for _, f := range in.stack {
		if f == fn {
			n++
		}
	}
	if n > in.Nested[fn] {
		in.Nested[fn] = n
	}
	ld := in.loops(fn)
	env := map[ssa.Value]Value{}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		env[p] = binds[i]
	}
	pending := map[*ssa.BasicBlock]*pend{fn.Blocks[0]: {st, env}}
	visits := map[*ssa.BasicBlock]int{}
	facts := map[*ssa.BasicBlock]int{} // unknown facts when the block was entered first
	var rets []Value
	var retStates []*State
	var defs []deferred
	for len(pending) > 0 {
		var b *ssa.BasicBlock
		for c := range pending {
			if b == nil || ld.depth[c] > ld.depth[b] || ld.depth[c] == ld.depth[b] && ld.order[c] < ld.order[b] {
				b = c
			}
		}
		p := pending[b]
		delete(pending, b)
		visits[b]++
		if visits[b] == 1 {
			facts[b] = len(in.keyVars)
		}
		if n := visits[b]; n > 20000 || n > 260 && len(in.keyVars)-facts[b] >= n {
			panic(Abort{fmt.Sprintf("loop without a bound the domain can see in %s (%s)", fn, in.pos(in.nearPos(b.Instrs[0])))})
		}
		fr := &frame{fn: fn, env: p.env, st: p.st, binds: binds, defs: defs}
		alive := true
		for _, instr := range b.Instrs {
			in.steps++
			if _, ok := instr.(*ssa.Phi); ok {
				continue
			}
			switch i := instr.(type) {
			case *ssa.If:
				c := in.val(fr, i.Cond).(*BV).Bits[0]
				in.push(pending, fr, b, 0, in.B.And(fr.st.PC, c))
				in.push(pending, fr, b, 1, in.B.Diff(fr.st.PC, c))
				alive = false
			case *ssa.Jump:
				in.push(pending, fr, b, 0, fr.st.PC)
				alive = false
			case *ssa.Return:
				var v Value
				switch len(i.Results) {
				case 0:
				case 1:
					v = in.val(fr, i.Results[0])
				default:
					a := &Agg{}
					for _, r := range i.Results {
						a.Elems = append(a.Elems, in.val(fr, r))
					}
					v = a
				}
				rets = append(rets, v)
				retStates = append(retStates, fr.st)
				alive = false
			case *ssa.Panic:
				in.obl("explicit-panic", i, fr.st.PC, F, "panic statement reachable")
				alive = false
			case *ssa.RunDefers:
				for k := len(fr.defs) - 1; k >= 0; k-- {
					d := fr.defs[k]
					if in.B.And(d.g, fr.st.PC) == F {
						continue
					}
					in.runDeferred(fr, d)
				}
			default:
				if !in.exec(fr, instr) {
					alive = false
				}
			}
			if !alive {
				break
			}
		}
		defs = fr.defs
	}
	for b := range ld.heads {
		if visits[b] > in.Loops[b] {
			in.Loops[b] = visits[b]
		}
	}
	if len(retStates) == 0 {
		return nil, nil
	}
	rv, rs := rets[0], retStates[0]
	for k := 1; k < len(retStates); k++ {
		g := in.B.Simplify(rs.PC, in.B.Or(rs.PC, retStates[k].PC))
		if rv != nil || rets[k] != nil {
			rv = in.Merge(g, rv, rets[k])
		}
		rs = &State{in.B.Or(rs.PC, retStates[k].PC), in.mergeHeap(g, rs.Heap, retStates[k].Heap)}
	}
	return rv, rs
}

func (in *Interp) runDeferred(fr *frame, d deferred) {
	alts, ok := d.fn.(*Alts)
	if !ok || len(alts.A) != 1 {
		in.undecided(d.instr, "deferred call through an unknown function")
		return
	}
	f, ok := alts.A[0].V.(FuncA)
	if !ok || f.Fn == nil {
		in.undecided(d.instr, "deferred call through an unknown function")
		return
	}
	st := fr.st.clone()
	st.PC = in.B.And(st.PC, d.g)
	_, out := in.callFunction(fr, d.instr, f.Fn, f.Binds, d.args, st)
	if out == nil {
		fr.st = &State{in.B.Diff(fr.st.PC, d.g), fr.st.Heap}
		return
	}
	rest := in.B.Diff(fr.st.PC, d.g)
	if rest == F {
		fr.st = out
	} else {
		fr.st = &State{in.B.Or(out.PC, rest), in.mergeHeap(out.PC, out.Heap, fr.st.Heap)}
	}
}

// Abort is the panic value when an analysis cannot be completed.
type Abort struct{ Why string }

func (a Abort) Error() string { return a.Why }

func (in *Interp) push(pending map[*ssa.BasicBlock]*pend, fr *frame, b *ssa.BasicBlock, si int, pc Node) {
	if pc == F {
		return
	}
	s := b.Succs[si]
	// index of this edge among the predecessors
	pi := -1
	n := 0
	for k := 0; k < si; k++ {
		if b.Succs[k] == s {
			n++
		}
	}
	for k, p := range s.Preds {
		if p == b {
			if n == 0 {
				pi = k
				break
			}
			n--
		}
	}
	env := make(map[ssa.Value]Value, len(fr.env)+4)
	for _, k := range in.loops(fr.fn).live[s] {
		if v, ok := fr.env[k]; ok {
			env[k] = v
		}
	}
	for _, instr := range s.Instrs {
		ph, ok := instr.(*ssa.Phi)
		if !ok {
			break
		}
		env[ph] = in.val(fr, ph.Edges[pi])
	}
	np := &pend{&State{pc, fr.st.clone().Heap}, env}
	if old, ok := pending[s]; ok {
		np = in.mergePend(old, np)
	}
	pending[s] = np
}

// ---- operands ----

func (in *Interp) val(fr *frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		if r, ok := in.constTab[x]; ok {
			return r
		}
		r := in.constant(x)
		in.constTab[x] = r
		return r
	case *ssa.Global:
		return single(PtrA{Obj: in.globalObj(x, fr.st)})
	case *ssa.Function:
		return single(FuncA{Fn: x})
	case *ssa.Builtin:
		return single(FuncA{BI: x.Name()})
	}
	r, ok := fr.env[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s in %s", v.Name(), fr.fn))
	}
	if b, ok := r.(*BV); ok && IntBits != 64 && len(b.Bits) == 64 {
		if w, s, ok := intInfo(v.Type()); ok && w < 64 { // a length
			return in.bvResize(b, w, s)
		}
	}
	return r
}

func (in *Interp) constant(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return in.Zero(t)
	}
	if w, _, ok := intInfo(t); ok {
		if c.Value.Kind() == constant.Bool {
			if constant.BoolVal(c.Value) {
				return &BV{[]Node{T}}
			}
			return &BV{[]Node{F}}
		}
		v := constant.ToInt(c.Value)
		n, ok := new(big.Int).SetString(v.ExactString(), 10)
		if !ok {
			panic("bad int constant " + v.ExactString())
		}
		return in.constBV(w, n)
	}
	if isFloat(t) {
		// the shortest decimal that denotes the rounded constant: 2.048 is 2.048
		f, _ := constant.Float64Val(c.Value)
		bits := 64
		if b := t.Underlying().(*types.Basic); b.Kind() == types.Float32 {
			bits = 32
		}
		q, ok := new(big.Rat).SetString(strconv.FormatFloat(f, 'g', -1, bits))
		if !ok {
			return single(in.FloatInput("const:" + c.String()))
		}
		return single(in.PolyConst(q))
	}
	if isString(t) {
		s := constant.StringVal(c.Value)
		return single(mkStr(s))
	}
	return single(Opaque{"const:" + c.String(), t})
}

func mkStr(s string) *Str {
	if s == "" {
		return &Str{}
	}
	return &Str{Segs: []Seg{Lit(s)}}
}

// ---- memory ----

func splitPath(p string) []int {
	if p == "" {
		return nil
	}
	parts := strings.Split(p[1:], "/")
	r := make([]int, len(parts))
	for i, s := range parts {
		r[i], _ = strconv.Atoi(s)
	}
	return r
}

func getPath(v Value, path []int) Value {
	for _, i := range path {
		switch x := v.(type) {
		case *Agg:
			if i >= len(x.Elems) || i < 0 {
				return nil
			}
			v = x.Elems[i]
		case *LazyArr:
			v = x.get(i)
		default:
			return nil
		}
	}
	return v
}

func setPath(v Value, path []int, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	switch x := v.(type) {
	case *Agg:
		e := append([]Value{}, x.Elems...)
		e[path[0]] = setPath(x.Elems[path[0]], path[1:], nv)
		return &Agg{e}
	case *LazyArr:
		return x.set(path[0], setPath(x.get(path[0]), path[1:], nv))
	}
	panic(fmt.Sprintf("setPath in %T", v))
}

func (in *Interp) load(fr *frame, instr ssa.Instruction, p *Alts, t types.Type) Value {
	alts := in.prune(p, fr.st.PC)
	var gs []Node
	var vs []Value
	ok := F
	for _, a := range alts {
		switch x := a.V.(type) {
		case PtrA:
			if x.Obj == 0 {
				continue
			}
			v := getPath(fr.st.Heap[x.Obj], splitPath(x.Path))
			if v == nil {
				v = in.Fresh(t, fmt.Sprintf("mem%s", x.Key()), fr.st, false)
			}
			gs = append(gs, a.G)
			vs = append(vs, v)
			ok = in.B.Or(ok, a.G)
		case Opaque:
			in.undecided(instr, "load through an unknown pointer")
			gs = append(gs, a.G)
			vs = append(vs, in.Fresh(t, "*"+x.ID, fr.st, false))
			ok = in.B.Or(ok, a.G)
		}
	}
	in.obl("nil-deref", instr, fr.st.PC, ok, "nil pointer dereference")
	fr.st.PC = in.B.And(fr.st.PC, ok)
	if len(vs) == 0 {
		return in.Zero(t)
	}
	return in.mux(gs, vs)
}

func (in *Interp) store(fr *frame, instr ssa.Instruction, p *Alts, v Value) {
	alts := in.prune(p, fr.st.PC)
	ok := F
	for _, a := range alts {
		x, isP := a.V.(PtrA)
		if !isP {
			in.undecided(instr, "store through an unknown pointer")
			ok = in.B.Or(ok, a.G)
			continue
		}
		if x.Obj == 0 {
			continue
		}
		ok = in.B.Or(ok, a.G)
		in.noteWrite(instr, x.Obj, a.G)
		old := fr.st.Heap[x.Obj]
		path := splitPath(x.Path)
		nv := v
		if len(alts) > 1 {
			nv = in.Merge(a.G, v, getPath(old, path))
		}
		fr.st.Heap[x.Obj] = setPath(old, path, nv)
	}
	in.obl("nil-deref", instr, fr.st.PC, ok, "store through a nil pointer")
	fr.st.PC = in.B.And(fr.st.PC, ok)
}

func (in *Interp) noteWrite(instr ssa.Instruction, o ObjID, g Node) {
	if in.initing {
		return
	}
	if oi := in.Objs[o]; oi != nil && (oi.Kind == "global" || oi.Kind == "input" || oi.Kind == "init") {
		in.effect("write-"+oi.Kind, instr, g, oi.Name, nil)
	}
}

// sortedKeys helps deterministic reports.
func sortedKeys(m map[string]*Obl) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}
