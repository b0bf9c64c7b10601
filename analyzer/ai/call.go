package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// call interprets a call; ok=false: it does not return.
func (in *Interp) call(fr *frame, instr ssa.CallInstruction, c *ssa.CallCommon) (Value, bool) {
	var args []Value
	for _, a := range c.Args {
		args = append(args, in.val(fr, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return in.builtin(fr, instr, b.Name(), c, args)
	}
	type tgt struct {
		g     Node
		fn    *ssa.Function
		binds []Value
		args  []Value
		unk   string
		err   Value
		text  bool
	}
	var ts []tgt
	okAll := F
	if c.IsInvoke() {
		for _, a := range in.prune(in.alts(in.val(fr, c.Value)), fr.st.PC) {
			switch x := a.V.(type) {
			case IfaceA:
				if x.Typ == nil {
					continue
				}
				okAll = in.B.Or(okAll, a.G)
				if x.Typ == errTyp && c.Method.Name() == "Error" {
					ts = append(ts, tgt{g: a.G, err: single(ErrText)})
					continue
				}
				fn := in.method(x.Typ, c.Method.Name())
				if fn == nil {
					ts = append(ts, tgt{g: a.G, unk: x.Key() + "." + c.Method.Name()})
					continue
				}
				ts = append(ts, tgt{g: a.G, fn: fn, args: append([]Value{x.V}, args...), text: isErrorMethod(fn)})
			default:
				okAll = in.B.Or(okAll, a.G)
				ts = append(ts, tgt{g: a.G, unk: x.Key() + "." + c.Method.Name()})
			}
		}
		in.obl("nil-deref", instr, fr.st.PC, okAll, "method call on a nil interface")
	} else if fn := c.StaticCallee(); fn != nil {
		var binds []Value
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			for _, a := range in.prune(in.alts(in.val(fr, mc)), fr.st.PC) {
				binds = a.V.(FuncA).Binds
			}
		}
		v, st := in.callFunction(fr, instr, fn, binds, args, fr.st)
		if st == nil || st.PC == F {
			return nil, false
		}
		fr.st = st
		return v, true
	} else {
		for _, a := range in.prune(in.alts(in.val(fr, c.Value)), fr.st.PC) {
			if f, ok := a.V.(FuncA); ok {
				if f.Fn == nil {
					continue
				}
				okAll = in.B.Or(okAll, a.G)
				ts = append(ts, tgt{g: a.G, fn: f.Fn, binds: f.Binds, args: args})
			} else {
				okAll = in.B.Or(okAll, a.G)
				ts = append(ts, tgt{g: a.G, unk: a.V.Key()})
			}
		}
		in.obl("nil-deref", instr, fr.st.PC, okAll, "call of a nil function")
	}
	pc := in.B.And(fr.st.PC, okAll)
	if pc == F {
		return nil, false
	}
	fr.st.PC = pc
	var rv Value
	var rs *State
	sig := c.Signature()
	for _, t := range ts {
		var st *State
		if len(ts) == 1 {
			st = fr.st
		} else {
			st = fr.st.clone()
		}
		st.PC = in.B.And(pc, t.g)
		if st.PC == F {
			continue
		}
		var v Value
		var out *State
		if t.err != nil {
			v, out = t.err, st
		} else if t.fn != nil {
			v, out = in.callFunction(fr, instr, t.fn, t.binds, t.args, st)
			if t.text && out != nil {
				v = single(ErrText)
			}
		} else {
			v, out = in.unknownCall(instr, t.unk, sig, args, st), st
		}
		if out == nil || out.PC == F {
			continue
		}
		if rs == nil {
			rv, rs = v, out
			continue
		}
		g := rs.PC
		if rv != nil || v != nil {
			rv = in.Merge(g, rv, v)
		}
		rs = &State{in.B.Or(rs.PC, out.PC), in.mergeHeap(g, rs.Heap, out.Heap)}
	}
	if rs == nil {
		return nil, false
	}
	fr.st = rs
	return rv, true
}

func resType(sig *types.Signature) types.Type {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

func (in *Interp) unknownCall(instr ssa.Instruction, name string, sig *types.Signature, args []Value, st *State) Value {
	in.effect("unknown-call", instr, st.PC, name, nil)
	t := resType(sig)
	if t == nil {
		return nil
	}
	in.fresh++
	return in.Fresh(t, fmt.Sprintf("%s!%d", name, in.fresh), st, false)
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.RelString(nil)
}

func (in *Interp) callFunction(fr *frame, instr ssa.Instruction, fn *ssa.Function, binds, args []Value, st *State) (Value, *State) {
	name := fnName(fn)
	if s, ok := in.Stub[name]; ok {
		seq := len(in.Calls)
		in.Calls = append(in.Calls, CallRec{Name: name, G: st.PC, Args: args, Pos: in.pos(instr.Pos()), Fn: instr.Parent().String(), St: st.clone(), Seq: seq})
		v := s(in, args, st)
		if len(in.Calls) > seq {
			in.Calls[seq].Res = v
		}
		return v, st
	}
	if in.Track[name] {
		seq := len(in.Calls)
		in.Calls = append(in.Calls, CallRec{Name: name, G: st.PC, Args: args, Pos: in.pos(instr.Pos()), Fn: instr.Parent().String(), St: st.clone(), Seq: seq})
		v, out := in.callBody(fn, args, binds, st)
		in.Calls[seq].Res = v
		return v, out
	}
	if f := in.std[name]; f != nil {
		return in.callBody(f, args, nil, st)
	}
	if m, ok := models[name]; ok {
		fr2 := &frame{fn: fr.fn, st: st, env: fr.env}
		v, ok := m(in, fr2, instr, fn, args)
		if !ok {
			return nil, nil
		}
		return v, fr2.st
	}
	inMod := fn.Pkg == nil || in.inModule(fn.Pkg) // wrappers and bound methods have no package
	if fn.Name() == "init" && fn.Pkg != nil && !in.inModule(fn.Pkg) {
		return nil, st
	}
	if fn.Name() == "init" && fn.Pkg != nil && in.initing {
		if in.inited[fn.Pkg] {
			return nil, st
		}
		in.inited[fn.Pkg] = true
	}
	if inMod {
		if v, out, ok := in.byText(fn, args, binds, st); ok {
			return v, out
		}
	}
	if len(fn.Blocks) > 0 && (inMod || interpreted(fn)) {
		return in.callBody(fn, args, binds, st)
	}
	in.escape(instr, args, st, name)
	return in.unknownCall(instr, name, fn.Signature, args, st), st
}

// escape reports module memory handed to code outside the analysis.
func (in *Interp) escape(instr ssa.Instruction, args []Value, st *State, name string) {
	for _, a := range args {
		al, ok := a.(*Alts)
		if !ok {
			continue
		}
		for _, x := range al.A {
			var o ObjID
			switch p := x.V.(type) {
			case PtrA:
				o = p.Obj
			case SliceA:
				o = p.Arr.Obj
			}
			if o != 0 {
				if oi := in.Objs[o]; oi != nil && (oi.Kind == "input" || oi.Kind == "global" || oi.Kind == "init") && in.inModName(oi.Name) {
					in.effect("escape-"+oi.Kind, instr, st.PC, oi.Name+" passed to "+name, nil)
				}
			}
		}
	}
}

func (in *Interp) inModName(n string) bool { return true }

// interpreted: standard packages whose source is interpreted like the module's.
func interpreted(fn *ssa.Function) bool {
	if fn.Pkg == nil {
		return true
	}
	switch fn.Pkg.Pkg.Path() {
	case "encoding/binary", "math/bits", "unicode/utf8", "unicode", "slices", "cmp", "strings", "bytes", "sort", "internal/stringslite":
		return true
	}
	return false
}

func (in *Interp) errValue(name string) Value {
	in.fresh++
	return single(IfaceA{types.NewPointer(types.Universe.Lookup("error").Type()), single(Opaque{ID: fmt.Sprintf("err%d:%s", in.fresh, name)})})
}

// ErrorType is the dynamic type given to errors made by errors.New and fmt.Errorf.
var errTyp = types.NewPointer(types.NewStruct(nil, nil))

// ErrText stands for the text of an error, whatever its type: no property says how it reads.
var ErrText = &Str{Segs: []Seg{Fmt{"%v", single(Opaque{ID: "err"}), errTyp}}}

// OwnError tells whether a type is an error type of the module.
func (in *Interp) OwnError(t types.Type) bool {
	fn := in.method(t, "Error")
	return fn != nil && isErrorMethod(fn) && in.inModule(fn.Pkg)
}

func isErrorMethod(fn *ssa.Function) bool {
	s := fn.Signature
	return fn.Name() == "Error" && s.Params().Len() == 0 && s.Results().Len() == 1 && isString(s.Results().At(0).Type())
}

func (in *Interp) newError() Value {
	in.fresh++
	return single(IfaceA{errTyp, single(Opaque{ID: "err"})})
}

type model func(in *Interp, fr *frame, instr ssa.Instruction, fn *ssa.Function, args []Value) (Value, bool)

var models map[string]model

func init() {
	models = map[string]model{
		"errors.New": func(in *Interp, fr *frame, instr ssa.Instruction, fn *ssa.Function, args []Value) (Value, bool) {
			return in.newError(), true
		},
		"fmt.Errorf": func(in *Interp, fr *frame, instr ssa.Instruction, fn *ssa.Function, args []Value) (Value, bool) {
			if va, ok := in.varargs(fr.st, args[1]); ok {
				in.sprintf(fr, instr, in.alts(args[0]), va)
			}
			return in.newError(), true
		},
		"fmt.Sprintf": func(in *Interp, fr *frame, instr ssa.Instruction, fn *ssa.Function, args []Value) (Value, bool) {
			va, ok := in.varargs(fr.st, args[1])
			if !ok {
				in.undecided(instr, "unknown number of format arguments")
				return single(&Str{Segs: []Seg{OpaqueSeg("sprintf?")}}), true
			}
			return in.sprintf(fr, instr, in.alts(args[0]), va), true
		},
		"fmt.Sprint": func(in *Interp, fr *frame, instr ssa.Instruction, fn *ssa.Function, args []Value) (Value, bool) {
			return in.sprint(fr, instr, args[0], false), true
		},
		"fmt.Sprintln": func(in *Interp, fr *frame, instr ssa.Instruction, fn *ssa.Function, args []Value) (Value, bool) {
			return in.sprint(fr, instr, args[0], true), true
		},
		"strconv.Itoa": func(in *Interp, fr *frame, instr ssa.Instruction, fn *ssa.Function, args []Value) (Value, bool) {
			v := args[0].(*BV)
			if c, ok := asInt(v); ok {
				return single(mkStr(fmt.Sprint(c))), true
			}
			return single(&Str{Segs: []Seg{Fmt{"%v", v, types.Typ[types.Int]}}}), true
		},
		"strings.Join": func(in *Interp, fr *frame, instr ssa.Instruction, fn *ssa.Function, args []Value) (Value, bool) {
			ls, ok := in.lists(fr.st, args[0])
			if !ok {
				in.undecided(instr, "strings.Join of an unknown list")
				return single(&Str{Segs: []Seg{OpaqueSeg("join?")}}), true
			}
			var r []Alt
			for _, l := range ls {
				for _, x := range in.prune(in.join(fr, l.es, in.alts(args[1])), l.g) {
					r = in.addAlt(r, in.B.And(l.g, x.G), x.V)
				}
			}
			return &Alts{r}, true
		},
		"strconv.FormatBool": func(in *Interp, fr *frame, instr ssa.Instruction, fn *ssa.Function, args []Value) (Value, bool) {
			return single(&Str{Segs: in.fmtArg(fr, instr, "%v", single(IfaceA{types.Typ[types.Bool], args[0]}), fr.st.PC)}), true
		},
		"strconv.FormatInt":  formatInt(types.Typ[types.Int64]),
		"strconv.FormatUint": formatInt(types.Typ[types.Uint64]),
		"strconv.FormatFloat": func(in *Interp, fr *frame, instr ssa.Instruction, fn *ssa.Function, args []Value) (Value, bool) {
			c, ok1 := asInt(args[1].(*BV))
			p, ok2 := asInt(args[2].(*BV))
			b, ok3 := asInt(args[3].(*BV))
			t := types.Typ[types.Float64]
			if b == 32 {
				t = types.Typ[types.Float32]
			}
			verb := "%v"
			switch {
			case !ok1 || !ok2 || !ok3 || c != 'g' && c != 'f' || c == 'f' && p < 0 || c == 'g' && p >= 0:
				return single(&Str{Segs: []Seg{OpaqueSeg("formatfloat(" + ValKey(args[0]) + "," + ValKey(args[1]) + "," + ValKey(args[2]) + "," + ValKey(args[3]) + ")")}}), true
			case c == 'f':
				verb = fmt.Sprintf("%%.%df", p)
			}
			return single(&Str{Segs: in.fmtArg(fr, instr, verb, single(IfaceA{t, args[0]}), fr.st.PC)}), true
		},
		"strings.ToUpper": caseModel(true),
		"strings.ToLower": caseModel(false),
		"encoding/hex.EncodeToString": func(in *Interp, fr *frame, instr ssa.Instruction, fn *ssa.Function, args []Value) (Value, bool) {
			return single(&Str{Segs: in.fmtArg(fr, instr, "%x", single(IfaceA{fn.Signature.Params().At(0).Type(), args[0]}), fr.st.PC)}), true
		},
		"strings.Split":                    splitModel,
		"strings.ReplaceAll":               replaceModel,
		"strings.Replace":                  replaceModel,
		"strings.IndexByte":                indexByte,
		"internal/stringslite.IndexByte":   indexByte,
		"internal/bytealg.IndexByteString": indexByte,
		"strings.ContainsAny":              containsAny,
		"strings.ContainsRune": func(in *Interp, fr *frame, instr ssa.Instruction, fn *ssa.Function, args []Value) (Value, bool) {
			c, ok := asInt(args[1].(*BV))
			if !ok {
				return nil2(in, fr, instr, fn)
			}
			return in.containsSet(fr, instr, args[0], string(rune(c)), fn), true
		},
		"strings.TrimSuffix": trim(trimSuffix),
		"strings.TrimPrefix": trim(trimPrefix),
		"strings.TrimRight":  trim(trimRight),
		"strings.Repeat": func(in *Interp, fr *frame, instr ssa.Instruction, fn *ssa.Function, args []Value) (Value, bool) {
			if s, ok := in.constStr(in.alts(args[0])); ok {
				if n, ok := asInt(args[1].(*BV)); ok && n >= 0 && n < 10000 {
					return single(mkStr(strings.Repeat(s, int(n)))), true
				}
			}
			return single(&Str{Segs: []Seg{OpaqueSeg("repeat(" + ValKey(args[0]) + "," + ValKey(args[1]) + ")")}}), true
		},
		"encoding/hex.DecodeString": func(in *Interp, fr *frame, instr ssa.Instruction, fn *ssa.Function, args []Value) (Value, bool) {
			k := "hex(" + ValKey(args[0]) + ")"
			bad := in.keyed("hexbad:" + k)
			s := in.FreshSlice(types.Typ[types.Uint8], k, fr.st, -1, "local")
			e := &Alts{[]Alt{{bad, in.newError().(*Alts).A[0].V}, {in.B.Not(bad), IfaceA{}}}}
			return &Agg{[]Value{s, e}}, true
		},
		"log.Fatal":   exits,
		"log.Fatalf":  exits,
		"log.Fatalln": exits,
		"log.Panic":   exits,
		"log.Panicf":  exits,
		"os.Exit":     exits,
		"math.Floor":  mathUnary("floor"),
		"math.Ceil":   mathUnary("ceil"),
		"math.Trunc":  mathCases((*Interp).truncAlts),
		"math.Round":  mathCases((*Interp).roundAlts),
		"math.Cos":    mathUnary("cos"),
		"math.Sin":    mathUnary("sin"),
		"math.Tan":    mathUnary("tan"),
		"math.Acos":   mathUnary("acos"),
		"math.Asin":   mathUnary("asin"),
		"math.Atan":   mathUnary("atan"),
		"math.Sqrt":   mathUnary("sqrt"),
		"math.Exp":    mathUnary("exp"),
		"math.Log":    mathUnary("log"),
		"math.Atan2":  mathBinary("atan2"),
		"math.Mod":    mathMod,
		"math.Hypot":  mathBinary("hypot"),
		"math.Pow": func(in *Interp, fr *frame, instr ssa.Instruction, fn *ssa.Function, args []Value) (Value, bool) {
			return in.mapPoly2(in.alts(args[0]), in.alts(args[1]), fr.st.PC, func(p, q *Poly) *Poly {
				if c, ok := q.constant(); ok && c.IsInt() && c.Sign() >= 0 && c.Cmp(big.NewRat(6, 1)) <= 0 {
					r := in.PolyConst(big.NewRat(1, 1))
					for k := int64(0); k < c.Num().Int64(); k++ {
						r = in.polyMul(r, p)
					}
					return r
				}
				return in.op("pow", p, q)
			}), true
		},
		"math.Abs": func(in *Interp, fr *frame, instr ssa.Instruction, fn *ssa.Function, args []Value) (Value, bool) {
			var r []Alt
			for _, x := range in.polyAlts(in.alts(args[0]), fr.st.PC) {
				p := x.V.(*Poly)
				lt, _, _ := in.tri(p)
				r = in.addAlt(r, in.B.And(x.G, lt), in.polyScale(p, big.NewRat(-1, 1)))
				r = in.addAlt(r, in.B.Diff(x.G, lt), p)
			}
			return &Alts{r}, true
		},
		"math.Max": minmax(true),
		"math.Min": minmax(false),
		"math.IsNaN": func(in *Interp, fr *frame, instr ssa.Instruction, fn *ssa.Function, args []Value) (Value, bool) {
			r := F
			for _, x := range in.polyAlts(in.alts(args[0]), fr.st.PC) {
				n := F
				for _, a := range in.nanAtoms(x.V.(*Poly)) {
					n = in.B.Or(n, in.keyed("nan:"+in.atoms[a].key))
				}
				r = in.B.Or(r, in.B.And(x.G, n))
			}
			return boolV(r), true
		},
		"math.Inf": func(in *Interp, fr *frame, instr ssa.Instruction, fn *ssa.Function, args []Value) (Value, bool) {
			if c, ok := asInt(args[0].(*BV)); ok {
				inf := in.polyAtom(in.atom("inf", func() atomDef { return atomDef{} }))
				if c < 0 {
					return single(in.polyScale(inf, big.NewRat(-1, 1))), true
				}
				return single(inf), true
			}
			return single(in.FloatInput("inf?")), true
		},
		"math.NaN": func(in *Interp, fr *frame, instr ssa.Instruction, fn *ssa.Function, args []Value) (Value, bool) {
			return single(in.FloatInput("NaN")), true
		},
		"math.IsInf": func(in *Interp, fr *frame, instr ssa.Instruction, fn *ssa.Function, args []Value) (Value, bool) {
			r := F
			for _, x := range in.polyAlts(in.alts(args[0]), fr.st.PC) {
				n := F
				if _, ok := x.V.(*Poly).constant(); !ok && len(in.nanAtoms(x.V.(*Poly))) > 0 {
					n = in.keyed("inf:" + x.V.Key() + ValKey(args[1]))
				}
				r = in.B.Or(r, in.B.And(x.G, n))
			}
			return boolV(r), true
		},
		"(*os.File).WriteString":      fileWrite,
		"(*os.File).Write":            fileWrite,
		"io.WriteString":              fileWrite,
		"(*bytes.Buffer).WriteString": builderWrite,
		"(*bytes.Buffer).Write":       builderWrite,
		"(*strings.Builder).Write":    builderWrite,
		"(*bytes.Buffer).WriteByte":   builderWrite,
		"(*bytes.Buffer).WriteRune":   builderWrite,
		"(*bytes.Buffer).String": func(in *Interp, fr *frame, instr ssa.Instruction, fn *ssa.Function, args []Value) (Value, bool) {
			return in.builderText(fr, instr, args[0]), true
		},
		"(*strings.Builder).WriteString": builderWrite,
		"(*strings.Builder).WriteByte":   builderWrite,
		"(*strings.Builder).WriteRune":   builderWrite,
		"(*strings.Builder).String": func(in *Interp, fr *frame, instr ssa.Instruction, fn *ssa.Function, args []Value) (Value, bool) {
			return in.builderText(fr, instr, args[0]), true
		},
		"(*strings.Builder).Len": func(in *Interp, fr *frame, instr ssa.Instruction, fn *ssa.Function, args []Value) (Value, bool) {
			return in.strLen(in.builderText(fr, instr, args[0]), fr.st.PC), true
		},
		"(*strings.Builder).Grow": func(in *Interp, fr *frame, instr ssa.Instruction, fn *ssa.Function, args []Value) (Value, bool) {
			return nil, true
		},
	}
	for _, p := range []string{"Printf", "Println", "Print"} {
		models["fmt."+p] = printModel(p, 0)
		models["fmt.F"+strings.ToLower(p[:1])+p[1:]] = printModel(p, 1)
	}
	for _, p := range []string{"Printf", "Println", "Print"} {
		models["log."+p] = printModel("log."+p, 0)
	}
}

func nil2(in *Interp, fr *frame, instr ssa.Instruction, fn *ssa.Function) (Value, bool) {
	in.undecided(instr, fn.String()+" with unknown arguments")
	return in.Fresh(resType(fn.Signature), "unknown "+fn.String(), fr.st, false), true
}

// indexByte is the place of the first given byte in a text, or -1.
func indexByte(in *Interp, fr *frame, instr ssa.Instruction, fn *ssa.Function, args []Value) (Value, bool) {
	c := args[1].(*BV)
	var gs []Node
	var vs []Value
	for _, x := range in.strAlts(in.alts(args[0]), fr.st.PC) {
		_, cs, ok := in.charsOf(x.V)
		gs = append(gs, x.G)
		if !ok {
			v := in.Fresh(types.Typ[types.Int64], "indexbyte("+x.V.Key()+","+bvKey(c)+")", nil, false)
			vs = append(vs, v)
			continue
		}
		r := in.Int(64, -1)
		for k := len(cs) - 1; k >= 0; k-- {
			r = in.bvIte(in.bvEq(cs[k], c), in.Int(64, int64(k)), r)
		}
		vs = append(vs, r)
	}
	if len(vs) == 0 {
		return in.Int(64, -1), true
	}
	return in.mux(gs, vs), true
}

func containsAny(in *Interp, fr *frame, instr ssa.Instruction, fn *ssa.Function, args []Value) (Value, bool) {
	set, ok := in.constStr(in.alts(args[1]))
	if !ok {
		return nil2(in, fr, instr, fn)
	}
	return in.containsSet(fr, instr, args[0], set, fn), true
}

// containsSet says whether one of the bytes of an ASCII set is in a text.
func (in *Interp) containsSet(fr *frame, instr ssa.Instruction, v Value, set string, fn *ssa.Function) Value {
	for k := 0; k < len(set); k++ {
		if set[k] >= 0x80 {
			r, _ := nil2(in, fr, instr, fn)
			return r
		}
	}
	r := F
	for _, x := range in.strAlts(in.alts(v), fr.st.PC) {
		_, cs, ok := in.charsOf(x.V)
		if !ok {
			r = in.B.Or(r, in.B.And(x.G, in.keyed("containsany("+x.V.Key()+","+set+")")))
			continue
		}
		for _, c := range cs {
			for k := 0; k < len(set); k++ {
				r = in.B.Or(r, in.B.And(x.G, in.bvEq(c, in.Int(8, int64(set[k])))))
			}
		}
	}
	return boolV(r)
}

// formatInt is strconv.FormatInt or FormatUint.
func formatInt(t types.Type) model {
	return func(in *Interp, fr *frame, instr ssa.Instruction, fn *ssa.Function, args []Value) (Value, bool) {
		verb := "%?"
		if base, ok := asInt(args[1].(*BV)); ok {
			switch base {
			case 2:
				verb = "%b"
			case 8:
				verb = "%o"
			case 10:
				verb = "%v"
			case 16:
				verb = "%x"
			}
		}
		if verb == "%?" {
			return single(&Str{Segs: []Seg{OpaqueSeg("formatint(" + ValKey(args[0]) + "," + ValKey(args[1]) + ")")}}), true
		}
		return single(&Str{Segs: in.fmtArg(fr, instr, verb, single(IfaceA{t, args[0]}), fr.st.PC)}), true
	}
}

// trim is a function that shortens a text at one end when f decides it, and is followed otherwise.
func trim(f func(segs []Seg, cut string) ([]Seg, bool)) model {
	return func(in *Interp, fr *frame, instr ssa.Instruction, fn *ssa.Function, args []Value) (Value, bool) {
		cut, ok := in.constStr(in.alts(args[1]))
		var r []Alt
		for _, x := range in.strAlts(in.alts(args[0]), fr.st.PC) {
			if !ok {
				break
			}
			var segs []Seg
			if segs, ok = f(x.V.(*Str).Segs, cut); ok {
				r = in.addAlt(r, x.G, &Str{Segs: normSegs(segs)})
			}
		}
		if ok {
			return &Alts{r}, true
		}
		v, st := in.callBody(fn, args, nil, fr.st)
		if st == nil {
			return nil, false
		}
		fr.st = st
		return v, true
	}
}

func trimSuffix(segs []Seg, cut string) ([]Seg, bool) {
	if n := len(segs); n > 0 {
		if l, ok := segs[n-1].(Lit); ok && len(l) >= len(cut) {
			return append(append([]Seg{}, segs[:n-1]...), Lit(strings.TrimSuffix(string(l), cut))), true
		}
	}
	return segs, cut == ""
}

func trimPrefix(segs []Seg, cut string) ([]Seg, bool) {
	if len(segs) > 0 {
		if l, ok := segs[0].(Lit); ok && len(l) >= len(cut) {
			return append([]Seg{Lit(strings.TrimPrefix(string(l), cut))}, segs[1:]...), true
		}
	}
	return segs, cut == ""
}

func trimRight(segs []Seg, cut string) ([]Seg, bool) {
	if n := len(segs); n > 0 {
		if l, ok := segs[n-1].(Lit); ok {
			if t := strings.TrimRight(string(l), cut); t != "" {
				return append(append([]Seg{}, segs[:n-1]...), Lit(t)), true
			}
		}
	}
	return segs, len(segs) == 0
}

func exits(in *Interp, fr *frame, instr ssa.Instruction, fn *ssa.Function, args []Value) (Value, bool) {
	var s *Alts
	switch fn.Name() {
	case "Fatalf", "Panicf":
		if va, ok := in.varargs(fr.st, args[1]); ok {
			s = in.sprintf(fr, instr, in.alts(args[0]), va)
		}
	case "Exit":
		if b, ok := args[0].(*BV); ok {
			s = single(&Str{Segs: []Seg{Fmt{Verb: "%d", V: b, Typ: types.Typ[types.Int]}}})
			if k, ok := AsInt(b); ok {
				s = single(&Str{Segs: []Seg{Lit(fmt.Sprint(k))}})
			}
		}
	default:
		s = in.sprint(fr, instr, args[0], fn.Name() != "Fatal" && fn.Name() != "Panic")
	}
	in.effect("exit", instr, fr.st.PC, fn.String(), s)
	return nil, false
}

func printModel(kind string, skip int) model {
	return func(in *Interp, fr *frame, instr ssa.Instruction, fn *ssa.Function, args []Value) (Value, bool) {
		var s *Alts
		kind, log := kind, false
		if strings.HasPrefix(kind, "log.") {
			kind, log = kind[4:], true
		}
		if kind == "Printf" {
			va, ok := in.varargs(fr.st, args[skip+1])
			if ok {
				s = in.sprintf(fr, instr, in.alts(args[skip]), va)
			}
		} else {
			s = in.sprint(fr, instr, args[skip], kind == "Println")
		}
		if s == nil {
			in.undecided(instr, "print of unknown arguments")
			s = single(&Str{Segs: []Seg{OpaqueSeg("print?")}})
		}
		if skip == 1 {
			in.writeTo(fr, instr, args[0], s, "fmt.F"+kind)
			return in.printRes(), true
		}
		if log {
			in.effect("print-to", instr, fr.st.PC, "log."+kind, s)
			return nil, true
		}
		in.effect("print", instr, fr.st.PC, "fmt."+kind, s)
		if fn.Signature.Results().Len() == 0 {
			return nil, true
		}
		return in.printRes(), true
	}
}

// writeTo sends a text to a writer: a builder, the standard output or something else.
func (in *Interp) writeTo(fr *frame, instr ssa.Instruction, w Value, s *Alts, what string) {
	a := in.prune(in.alts(w), fr.st.PC)
	if len(a) == 1 {
		if i, ok := a[0].V.(IfaceA); ok && i.Typ != nil {
			if t := i.Typ.String(); t == "*strings.Builder" || t == "*bytes.Buffer" {
				in.builderAppend(fr, instr, i.V, s)
				return
			}
			a = in.prune(in.alts(i.V), fr.st.PC)
		}
	}
	if len(a) == 1 && a[0].V.Key() == (Opaque{ID: stdout}).Key() {
		in.effect("print", instr, fr.st.PC, what, s)
		return
	}
	in.effect("print-to", instr, fr.st.PC, what, s)
}

// fileWrite is a text written to a file: the standard output is a print.
func fileWrite(in *Interp, fr *frame, instr ssa.Instruction, fn *ssa.Function, args []Value) (Value, bool) {
	s, ok := args[1].(*Alts)
	if ok && fn.Name() == "Write" {
		s, ok = in.sliceToStr(fr, instr, s).(*Alts)
	}
	if !ok {
		return nil2(in, fr, instr, fn)
	}
	in.writeTo(fr, instr, args[0], s, fn.String())
	return in.printRes(), true
}

func (in *Interp) printRes() Value {
	in.fresh++
	return &Agg{[]Value{in.Fresh(types.Typ[types.Int], fmt.Sprintf("n%d", in.fresh), nil, false), single(IfaceA{})}}
}

func (in *Interp) sprint(fr *frame, instr ssa.Instruction, v Value, ln bool) *Alts {
	va, ok := in.varargs(fr.st, v)
	if !ok {
		in.undecided(instr, "unknown number of print arguments")
		return single(&Str{Segs: []Seg{OpaqueSeg("sprint?")}})
	}
	var segs []Seg
	for k, a := range va {
		if k > 0 && ln {
			segs = append(segs, Lit(" "))
		} else if k > 0 {
			// a space between operands when neither is a text
			str := func(v Value) bool {
				for _, x := range in.alts(v).A {
					if i, ok := x.V.(IfaceA); ok && i.Typ != nil && isString(i.Typ) {
						return true
					}
				}
				return false
			}
			if !str(va[k-1]) && !str(a) {
				segs = append(segs, Lit(" "))
			}
		}
		segs = append(segs, in.fmtArg(fr, instr, "%v", a, fr.st.PC)...)
	}
	if ln {
		segs = append(segs, Lit("\n"))
	}
	return single(&Str{Segs: normSegs(segs)})
}

// The text of a strings.Builder is kept in place of its buffer (field 1).
func (in *Interp) builderCell(fr *frame, instr ssa.Instruction, b Value) (PtrA, bool) {
	a := in.prune(in.alts(b), fr.st.PC)
	if len(a) == 1 {
		if p, ok := a[0].V.(PtrA); ok && p.Obj != 0 {
			return p, true
		}
	}
	in.undecided(instr, "unknown text builder")
	return PtrA{}, false
}

// bufPath is the path of the text of a strings.Builder or a bytes.Buffer.
func (in *Interp) bufPath(fr *frame, p PtrA) []int {
	path := splitPath(p.Path)
	if a, ok := getPath(fr.st.Heap[p.Obj], path).(*Agg); ok && len(a.Elems) != 2 {
		return append(path, 0)
	}
	return append(path, 1)
}

func (in *Interp) builderText(fr *frame, instr ssa.Instruction, b Value) *Alts {
	p, ok := in.builderCell(fr, instr, b)
	if !ok {
		return single(&Str{Segs: []Seg{OpaqueSeg("builder?")}})
	}
	v := in.alts(getPath(fr.st.Heap[p.Obj], in.bufPath(fr, p)))
	var r []Alt
	for _, x := range v.A {
		if s, ok := x.V.(SliceA); ok && s.Arr.Obj == 0 {
			r = in.addAlt(r, x.G, &Str{})
		} else {
			r = in.addAlt(r, x.G, x.V)
		}
	}
	return &Alts{r}
}

func (in *Interp) builderAppend(fr *frame, instr ssa.Instruction, b Value, s *Alts) {
	p, ok := in.builderCell(fr, instr, b)
	if !ok {
		return
	}
	t := in.concat(in.builderText(fr, instr, b), s, fr.st.PC)
	in.noteWrite(instr, p.Obj, fr.st.PC)
	fr.st.Heap[p.Obj] = setPath(fr.st.Heap[p.Obj], in.bufPath(fr, p), t)
}

func builderWrite(in *Interp, fr *frame, instr ssa.Instruction, fn *ssa.Function, args []Value) (Value, bool) {
	var s *Alts
	if b, ok := args[1].(*BV); ok {
		s = single(&Str{Segs: normSegs([]Seg{Char{b, len(b.Bits) == 32}})})
	} else if fn.Name() == "Write" {
		s = in.alts(in.sliceToStr(fr, instr, in.alts(args[1])))
	} else {
		s = in.alts(args[1])
	}
	in.builderAppend(fr, instr, args[0], s)
	if fn.Signature.Results().Len() == 1 {
		return single(IfaceA{}), true
	}
	return in.printRes(), true
}

func mathUnary(name string) model {
	return func(in *Interp, fr *frame, instr ssa.Instruction, fn *ssa.Function, args []Value) (Value, bool) {
		if name == "sqrt" || name == "asin" || name == "acos" {
			for _, x := range in.polyAlts(in.alts(args[0]), fr.st.PC) {
				in.mathCall(name, x.V.(*Poly), in.B.And(x.G, fr.st.PC), in.Prog.Fset.Position(instr.Pos()).String())
			}
		}
		return in.mapPoly(in.alts(args[0]), fr.st.PC, func(p *Poly) *Poly { return in.op(name, p) }), true
	}
}

func mathBinary(name string) model {
	return func(in *Interp, fr *frame, instr ssa.Instruction, fn *ssa.Function, args []Value) (Value, bool) {
		return in.mapPoly2(in.alts(args[0]), in.alts(args[1]), fr.st.PC, func(p, q *Poly) *Poly { return in.op(name, p, q) }), true
	}
}

// mathCases is a function of one number with several cases.
func mathCases(f func(in *Interp, p *Poly) []Alt) model {
	return func(in *Interp, fr *frame, instr ssa.Instruction, fn *ssa.Function, args []Value) (Value, bool) {
		var r []Alt
		for _, x := range in.polyAlts(in.alts(args[0]), fr.st.PC) {
			for _, y := range f(in, x.V.(*Poly)) {
				if g := in.B.And(x.G, y.G); g != F {
					r = in.addAlt(r, g, y.V)
				}
			}
		}
		return &Alts{r}, true
	}
}

// mathMod is the remainder with the sign of the dividend.
func mathMod(in *Interp, fr *frame, instr ssa.Instruction, fn *ssa.Function, args []Value) (Value, bool) {
	var r []Alt
	yb := in.polyAlts(in.alts(args[1]), fr.st.PC)
	for _, x := range in.polyAlts(in.alts(args[0]), fr.st.PC) {
		for _, y := range yb {
			g := in.B.And(x.G, y.G)
			if g == F {
				continue
			}
			p, q := x.V.(*Poly), y.V.(*Poly)
			if _, _, pos := in.tri(q); in.B.Diff(g, pos) == F {
				// for a positive modulus: the least residue, less the modulus for a negative number
				m := in.polySub(p, in.polyMul(q, in.op("floor", in.polyMul(p, in.polyInv(q)))))
				lt, _, _ := in.tri(p)
				_, zero, _ := in.tri(m)
				down := in.B.Diff(lt, zero)
				r = in.addAlt(r, in.B.Diff(g, down), m)
				if h := in.B.And(g, down); h != F {
					r = in.addAlt(r, h, in.polySub(m, q))
				}
				continue
			}
			for _, z := range in.truncAlts(in.polyMul(p, in.polyInv(q))) {
				if h := in.B.And(g, z.G); h != F {
					r = in.addAlt(r, h, in.polySub(p, in.polyMul(q, z.V.(*Poly))))
				}
			}
		}
	}
	return &Alts{r}, true
}

func minmax(max bool) model {
	return func(in *Interp, fr *frame, instr ssa.Instruction, fn *ssa.Function, args []Value) (Value, bool) {
		var r []Alt
		yb := in.polyAlts(in.alts(args[1]), fr.st.PC)
		for _, x := range in.polyAlts(in.alts(args[0]), fr.st.PC) {
			for _, y := range yb {
				g := in.B.And(x.G, y.G)
				if g == F {
					continue
				}
				p, q := x.V.(*Poly), y.V.(*Poly)
				lt, _, _ := in.tri(in.polySub(p, q))
				if !max {
					_, _, lt = in.tri(in.polySub(p, q))
				}
				r = in.addAlt(r, in.B.And(g, lt), q)
				r = in.addAlt(r, in.B.Diff(g, lt), p)
			}
		}
		return &Alts{r}, true
	}
}

// ---- builtins ----

func (in *Interp) builtin(fr *frame, instr ssa.CallInstruction, name string, c *ssa.CallCommon, args []Value) (Value, bool) {
	B := in.B
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case *Agg:
			return in.Int(64, int64(len(x.Elems))), true
		case *Alts:
			if isString(c.Args[0].Type()) {
				return in.strLen(x, fr.st.PC), true
			}
			var gs []Node
			var vs []Value
			for _, a := range in.prune(x, fr.st.PC) {
				gs = append(gs, a.G)
				switch s := a.V.(type) {
				case SliceA:
					if name == "len" {
						vs = append(vs, s.Len)
					} else {
						vs = append(vs, s.Cap)
					}
				case MapA:
					if s.Obj == 0 {
						vs = append(vs, in.Int(64, 0))
						break
					}
					m := fr.st.Heap[s.Obj].(*MapObj)
					vs = append(vs, in.mapLen(m))
				case PtrA:
					at := c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
					vs = append(vs, in.Int(64, at.Len()))
				default:
					vs = append(vs, in.nonNeg("len("+a.V.Key()+")"))
				}
			}
			return in.mux(gs, vs), true
		}
	case "append":
		return in.appendModel(fr, instr, c, args), true
	case "copy":
		return in.copyModel(fr, instr, args), true
	case "print", "println":
		in.effect("print", instr, fr.st.PC, name, nil)
		return nil, true
	case "min", "max":
		if isFloat(c.Args[0].Type()) {
			r := args[0]
			for _, a := range args[1:] {
				r, _ = minmax(name == "max")(in, fr, instr, nil, []Value{r, a})
			}
			return r, true
		}
		if _, s, ok := intInfo(c.Args[0].Type()); ok {
			r := args[0].(*BV)
			for _, a := range args[1:] {
				b := a.(*BV)
				lt := in.bvLt(r, b, s)
				if name == "max" {
					r = in.bvIte(lt, b, r)
				} else {
					r = in.bvIte(lt, r, b)
				}
			}
			return r, true
		}
	case "delete":
		for _, a := range in.prune(in.alts(args[0]), fr.st.PC) {
			if m, ok := a.V.(MapA); ok && m.Obj != 0 {
				in.noteWrite(instr, m.Obj, a.G)
				o := fr.st.Heap[m.Obj].(*MapObj)
				fr.st.Heap[m.Obj] = &MapObj{Sym: o.Sym, KT: o.KT, VT: o.VT, Ents: append(o.Ents[:len(o.Ents):len(o.Ents)], MapEnt{G: a.G, K: args[1], Del: true})}
			}
		}
		return nil, true
	case "recover":
		return single(IfaceA{}), true
	case "ssa:wrapnilchk":
		a := in.prune(in.alts(args[0]), fr.st.PC)
		ok := F
		for _, x := range a {
			if p, is := x.V.(PtrA); !is || p.Obj != 0 {
				ok = B.Or(ok, x.G)
			}
		}
		in.obl("nil-deref", instr, fr.st.PC, ok, "method through a nil pointer")
		fr.st.PC = B.And(fr.st.PC, ok)
		return args[0], fr.st.PC != F
	}
	in.undecided(instr, "builtin "+name)
	if v, ok := instr.(ssa.Value); ok {
		return in.freshAt(fr, instr, v.Type()), true
	}
	return nil, true
}

func (in *Interp) nonNeg(name string) *BV { return in.length(name) }

func (in *Interp) mapLen(m *MapObj) *BV {
	if m.Sym != "" {
		v := in.nonNeg("len(" + m.Sym + ")")
		for _, e := range m.Ents {
			_ = e
			return in.nonNeg(fmt.Sprintf("len(%s+%d)", m.Sym, len(m.Ents)))
		}
		return v
	}
	n := in.Int(64, 0)
	for k, e := range m.Ents {
		// count the keys not overridden later
		g := e.G
		if e.Del {
			continue
		}
		for _, f := range m.Ents[k+1:] {
			g = in.B.Diff(g, in.B.And(f.G, in.keyEq(e.K, f.K)))
		}
		n = in.bvAdd(n, in.bvResize(boolV(g), 64, false), F)
	}
	return n
}

func (in *Interp) appendModel(fr *frame, instr ssa.CallInstruction, c *ssa.CallCommon, args []Value) Value {
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	type list struct {
		g  Node
		es []Value
	}
	var adds []list
	var whole []Alt
	if isString(c.Args[1].Type()) {
		for _, x := range in.strAlts(in.alts(args[1]), fr.st.PC) {
			_, cs, ok := in.charsOf(x.V)
			if !ok {
				in.undecided(instr, "append of unknown text")
			}
			var es []Value
			for _, c := range cs {
				es = append(es, c)
			}
			adds = append(adds, list{x.G, es})
		}
	} else {
		for _, x := range in.prune(in.alts(args[1]), fr.st.PC) {
			s, ok := x.V.(SliceA)
			if !ok {
				in.undecided(instr, "append of an unknown slice")
				continue
			}
			vals, gs, okf := in.feasible(s.Len, x.G, 64)
			if !okf {
				if from, ok := fr.st.Heap[s.Arr.Obj].(*LazyArr); ok && s.Arr.Path == "" && in.allEmpty(fr, args[0]) {
					// append to an empty slice: a copy of all
					id := in.newObj(in.allocKind(), "append", types.NewSlice(et))
					lb := &lazyBase{Name: "append", Elem: et, memo: map[int]Value{}}
					z := in.Zero(et)
					lb.Mk = func(int) Value { return z }
					fr.st.Heap[id] = in.lazyCopy(&LazyArr{Base: lb}, 0, from, s.Off, s.Len)
					none := in.bvEq(s.Len, in.Int(64, 0))
					for _, d := range in.prune(in.alts(args[0]), fr.st.PC) {
						if g := in.B.AndN(x.G, d.G, none); g != F {
							whole = in.addAlt(whole, g, d.V)
						}
					}
					if g := in.B.And(x.G, in.B.Not(none)); g != F {
						whole = in.addAlt(whole, g, SliceA{Arr: PtrA{Obj: id}, Len: s.Len, Cap: s.Len})
					}
					continue
				}
				in.undecided(instr, "append of a slice of unknown length")
				continue
			}
			for k, n := range vals {
				s2 := s
				s2.Len = in.Int(64, n)
				es, ok := in.sliceElems(fr.st, s2)
				if !ok {
					in.undecided(instr, "append of a slice of unknown content")
				}
				adds = append(adds, list{gs[k], es})
			}
		}
	}
	res := whole
	type wr struct {
		g Node
		s SliceA
		n int64
		l list
	}
	var writes []wr
	for _, x := range in.prune(in.alts(args[0]), fr.st.PC) {
		s, ok := x.V.(SliceA)
		if !ok {
			in.undecided(instr, "append to an unknown slice")
			res = in.addAlt(res, x.G, x.V)
			continue
		}
		vals, gs, okf := in.feasible(s.Len, x.G, 64)
		if !okf {
			panic(Abort{"append to a slice of unknown length in " + fr.fn.String()})
		}
		for k, n := range vals {
			for _, l := range adds {
				g := in.B.And(gs[k], l.g)
				if g == F {
					continue
				}
				if len(l.es) == 0 {
					s2 := s
					s2.Len = in.Int(64, n)
					res = in.addAlt(res, g, s2)
					continue
				}
				total := n + int64(len(l.es))
				cp, cok := asInt(s.Cap)
				if s.Arr.Obj != 0 && !cok {
					if oi := in.Objs[s.Arr.Obj]; oi != nil && (oi.Kind == "input" || oi.Kind == "global" || oi.Kind == "init") {
						in.effect("write-"+oi.Kind, instr, g, "append may write into the spare capacity of "+oi.Name, nil)
					}
				}
				if cok && total <= cp && s.Arr.Obj != 0 {
					// in place
					writes = append(writes, wr{g, s, n, l})
					s2 := s
					s2.Len = in.Int(64, total)
					res = in.addAlt(res, g, s2)
					continue
				}
				s0 := s
				s0.Len = in.Int(64, n)
				old, ok := in.sliceElems(fr.st, s0)
				if !ok {
					in.undecided(instr, "append to a slice of unknown content")
				}
				es := append(append([]Value{}, old...), l.es...)
				id := in.newObj(in.allocKind(), "append", types.NewArray(et, total))
				fr.st.Heap[id] = &Agg{es}
				nv := in.Int(64, total)
				res = in.addAlt(res, g, SliceA{Arr: PtrA{Obj: id}, Len: nv, Cap: nv})
			}
		}
	}
	for _, w := range writes {
		in.noteWrite(instr, w.s.Arr.Obj, w.g)
		for k, e := range w.l.es {
			path := append(splitPath(w.s.Arr.Path), w.s.Off+int(w.n)+k)
			o := fr.st.Heap[w.s.Arr.Obj]
			fr.st.Heap[w.s.Arr.Obj] = setPath(o, path, in.Merge(w.g, e, getPath(o, path)))
		}
	}
	return &Alts{res}
}

// allEmpty tells that a slice has no element and no room.
func (in *Interp) allEmpty(fr *frame, v Value) bool {
	for _, d := range in.prune(in.alts(v), fr.st.PC) {
		s, ok := d.V.(SliceA)
		if !ok {
			return false
		}
		n, ok1 := asInt(s.Len)
		m, ok2 := asInt(s.Cap)
		if !ok1 || !ok2 || n != 0 || m != 0 {
			return false
		}
	}
	return true
}

// lazyCopy is the array to after n elements of from were copied to it.
func (in *Interp) lazyCopy(to *LazyArr, at int, from *LazyArr, off int, n *BV) *LazyArr {
	lb := &lazyBase{Name: to.Base.Name, Elem: to.Base.Elem, memo: map[int]Value{}}
	lb.Mk = func(i int) Value {
		if i < at {
			return to.get(i)
		}
		return in.Merge(in.bvLt(in.Int(64, int64(i-at)), n, true), from.get(i-at+off), to.get(i))
	}
	return &LazyArr{Base: lb}
}

func (in *Interp) copyModel(fr *frame, instr ssa.CallInstruction, args []Value) Value {
	var gs []Node
	var vs []Value
	for _, d := range in.prune(in.alts(args[0]), fr.st.PC) {
		for _, s := range in.prune(in.alts(args[1]), d.G) {
			ds, ok := d.V.(SliceA)
			if !ok {
				in.undecided(instr, "copy to an unknown slice")
				continue
			}
			var slen *BV
			var src func(k int) Value
			switch y := s.V.(type) {
			case SliceA:
				slen = y.Len
				src = func(k int) Value {
					return getPath(fr.st.Heap[y.Arr.Obj], append(splitPath(y.Arr.Path), y.Off+k))
				}
			case *Str:
				n, cs, ok := in.charsOf(y)
				if !ok {
					in.undecided(instr, "copy of unknown text")
					continue
				}
				slen = in.Int(64, int64(n))
				src = func(k int) Value { return cs[k] }
			default:
				in.undecided(instr, "copy of an unknown slice")
				continue
			}
			lt := in.bvLt(slen, ds.Len, false)
			n := in.bvIte(lt, slen, ds.Len)
			vals, g2, okf := in.feasible(n, s.G, 64)
			if !okf {
				if y, ok := s.V.(SliceA); ok && in.B.Implies(fr.st.PC, s.G) && ds.Arr.Path == "" && y.Arr.Path == "" {
					from, ok1 := fr.st.Heap[y.Arr.Obj].(*LazyArr)
					to, ok2 := fr.st.Heap[ds.Arr.Obj].(*LazyArr)
					if ok1 && ok2 {
						in.noteWrite(instr, ds.Arr.Obj, s.G)
						fr.st.Heap[ds.Arr.Obj] = in.lazyCopy(to, ds.Off, from, y.Off, n)
						gs = append(gs, s.G)
						vs = append(vs, n)
						continue
					}
				}
				in.undecided(instr, "copy of unknown length")
				continue
			}
			for k, v := range vals {
				if v > 0 {
					in.noteWrite(instr, ds.Arr.Obj, g2[k])
				}
				// read everything first: the ranges may overlap
				var es []Value
				for j := 0; j < int(v); j++ {
					es = append(es, src(j))
				}
				for j, e := range es {
					path := append(splitPath(ds.Arr.Path), ds.Off+j)
					o := fr.st.Heap[ds.Arr.Obj]
					g := g2[k]
					if in.B.Implies(fr.st.PC, g) {
						g = T
					}
					fr.st.Heap[ds.Arr.Obj] = setPath(o, path, in.Merge(g, e, getPath(o, path)))
				}
				gs = append(gs, g2[k])
				vs = append(vs, in.Int(64, v))
			}
		}
	}
	if len(vs) == 0 {
		return in.Int(64, 0)
	}
	return in.mux(gs, vs)
}

var _ = token.ADD
