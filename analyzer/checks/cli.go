package checks

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() {
	goChecks["P36"] = func(c *Ctx) { c.commandLine(&totality{}) }
}

// A scenario is one way of calling the program: on the first argument, or on the lines of a
// file; the texts are hexadecimal text of a number of bytes (-1: any number other than 7 and
// 14), or not hexadecimal (-2).
type scenario struct {
	name  string
	file  bool
	lines []int
	fail  string // "open" or "read": what fails
}

func scenarios(thorough bool) []scenario {
	var out []scenario
	kinds := []int{-2, -1, 7, 14}
	out = append(out, scenario{"no argument", false, nil, ""})
	for _, k := range kinds {
		out = append(out, scenario{"argument, " + kindName(k), false, []int{k}, ""})
	}
	out = append(out, scenario{"empty file", true, nil, ""},
		scenario{"file that cannot be opened", true, nil, "open"},
		scenario{"file that cannot be read", true, nil, "read"},
		scenario{"file that cannot be read after its first line", true, []int{-2}, "read"})
	for i, k := range kinds {
		for j, l := range kinds {
			if thorough || j == (i+1)%4 || k == l && k < 14 {
				out = append(out, scenario{"file, " + kindName(k) + " then " + kindName(l), true, []int{k, l}, ""})
			}
		}
	}
	return out
}

func kindName(k int) string {
	switch k {
	case -2:
		return "text that is not hexadecimal"
	case -1:
		return "bytes of another number"
	}
	return fmt.Sprintf("%d bytes", k)
}

// cliRun is one abstract run of the program.
type cliRun struct {
	*run
	sc    scenario
	texts []string         // key of each line's text
	data  []ai.Value       // its bytes
	bad   ai.Value         // the error of a text that is not hexadecimal
	level *ai.BV           // requested version
	out   []ai.Seg         // expected output
	seqs  map[string][]int // printed lines
}

func (c *Ctx) mainFunc() *ssa.Function {
	for _, sp := range c.P.SP {
		if sp.Pkg.Name() == "main" && strings.HasSuffix(sp.Pkg.Path(), "/cmd") {
			return sp.Func("main")
		}
	}
	return nil
}

func (c *Ctx) commandLine(o *totality) {
	fn := c.mainFunc()
	if fn == nil {
		c.R.Bad(Viol{Key: "anchor|main", Rule: "anchor", Where: "cmd", Detail: "function main not found"})
		return
	}
	scs := scenarios(c.Thorough)
	c.each(len(scs), func(k int) string { return "main, " + scs[k].name }, func(k int) { c.cli(o, fn, scs[k]) })
	c.R.Count("scenarios", len(scs))
}

// host gives the behaviour of the packages through which the program meets its environment.
func (r *cliRun) host(main *ssa.Function) {
	in := r.in
	str := func(s string) *ai.Alts { return ai.Single(&ai.Str{Segs: []ai.Seg{ai.Lit(s)}}) }
	opaque := func(s string) ai.Atom { return &ai.Str{Segs: []ai.Seg{ai.OpaqueSeg(s)}} }
	isName := func(v ai.Value, st *ai.State) string {
		al := in.Prune(v.(*ai.Alts), st.PC)
		if len(al) == 1 {
			if s, ok := in.LitOf(al[0].V); ok {
				return s
			}
		}
		panic(fmt.Errorf("flag of unknown name"))
	}
	fileFlag := func(name string, def ai.Value) ai.Value {
		if name != "file" {
			panic(fmt.Errorf("unknown flag %q", name))
		}
		if r.sc.file {
			return str("lines.txt")
		}
		return def
	}
	given := in.Keyed("adsb_reader_level given")
	lv := in.Fresh(types.Typ[types.Uint8], "level", nil, false).(*ai.BV)
	lv = &ai.BV{Bits: lv.Bits[:2]}
	r.level = in.IteBV(given, in.Resize(lv, 64, false), in.Int(64, 0))
	r.st.PC = in.B.Diff(r.st.PC, in.B.And(lv.Bits[0], lv.Bits[1]))
	levelFlag := func(name string, def ai.Value) ai.Value {
		if name != "adsb_reader_level" {
			panic(fmt.Errorf("unknown flag %q", name))
		}
		return in.IteBV(given, in.Resize(lv, len(def.(*ai.BV).Bits), false), def.(*ai.BV))
	}
	cell := func(st *ai.State, t types.Type, v ai.Value) ai.Value {
		return ai.Single(ai.PtrA{Obj: in.NewObject(st, "local", "flag", t, v)})
	}
	for _, f := range []struct {
		n string
		t types.Type
		v func(name string, def ai.Value) ai.Value
	}{{"String", types.Typ[types.String], fileFlag}, {"Int", types.Typ[types.Int], levelFlag}, {"Uint", types.Typ[types.Uint], levelFlag}, {"Int64", types.Typ[types.Int64], levelFlag}, {"Uint64", types.Typ[types.Uint64], levelFlag}} {
		f := f
		in.Stub["flag."+f.n] = func(_ *ai.Interp, a []ai.Value, st *ai.State) ai.Value {
			return cell(st, f.t, f.v(isName(a[0], st), a[1]))
		}
		in.Stub["flag."+f.n+"Var"] = func(_ *ai.Interp, a []ai.Value, st *ai.State) ai.Value {
			al := in.Prune(a[0].(*ai.Alts), st.PC)
			p, ok := al[0].V.(ai.PtrA)
			if len(al) != 1 || !ok || p.Obj == 0 {
				panic(fmt.Errorf("flag kept in an unknown place"))
			}
			in.Put(st, p, f.v(isName(a[1], st), a[2]))
			return nil
		}
	}
	none := func(_ *ai.Interp, a []ai.Value, st *ai.State) ai.Value { return nil }
	noErr := func(_ *ai.Interp, a []ai.Value, st *ai.State) ai.Value { return ai.Single(ai.IfaceA{}) }
	in.Stub["flag.Parse"] = none
	// up to three arguments; how many is unknown unless the scenario says
	n := in.Int(64, 0)
	if len(r.sc.lines) > 0 || r.sc.file {
		x := in.Fresh(types.Typ[types.Uint8], "arguments", nil, false).(*ai.BV)
		x = in.Resize(&ai.BV{Bits: x.Bits[:2]}, 64, false)
		n = x
		if !r.sc.file {
			r.st.PC = in.B.Diff(r.st.PC, in.Eq(n, in.Int(64, 0)))
		}
	}
	arg := func(k int64) *ai.Alts {
		has := in.Lt(in.Int(64, k), n, true)
		return &ai.Alts{A: []ai.Alt{{G: has, V: opaque(fmt.Sprintf("arg%d", k))}, {G: in.B.Not(has), V: &ai.Str{}}}}
	}
	in.Stub["flag.NArg"] = func(_ *ai.Interp, a []ai.Value, st *ai.State) ai.Value { return n }
	in.Stub["flag.Arg"] = func(_ *ai.Interp, a []ai.Value, st *ai.State) ai.Value {
		if k, ok := ai.AsInt(a[0].(*ai.BV)); ok {
			if k < 0 || k > 2 {
				return str("")
			}
			return arg(k)
		}
		panic(fmt.Errorf("argument of unknown number"))
	}
	in.Stub["flag.Args"] = func(_ *ai.Interp, a []ai.Value, st *ai.State) ai.Value {
		arr := &ai.Agg{Elems: []ai.Value{arg(0), arg(1), arg(2)}}
		id := in.NewObject(st, "local", "arguments", types.NewArray(types.Typ[types.String], 3), arr)
		return ai.Single(ai.SliceA{Arr: ai.PtrA{Obj: id}, Len: n, Cap: n})
	}
	object := func(st *ai.State, name string) *ai.Alts {
		return ai.Single(ai.PtrA{Obj: in.NewObject(st, "local", name, types.Typ[types.Int], in.Int(64, 0))})
	}
	in.Stub["os.Open"] = func(_ *ai.Interp, a []ai.Value, st *ai.State) ai.Value {
		if isName(a[0], st) != "lines.txt" {
			panic(fmt.Errorf("another file is opened"))
		}
		if r.sc.fail == "open" {
			return &ai.Agg{Elems: []ai.Value{ai.Single(ai.PtrA{}), r.bad}}
		}
		return &ai.Agg{Elems: []ai.Value{object(st, "file"), ai.Single(ai.IfaceA{})}}
	}
	in.Stub["(*os.File).Close"] = noErr
	in.Stub["bufio.NewScanner"] = func(_ *ai.Interp, a []ai.Value, st *ai.State) ai.Value { return object(st, "scanner") }
	in.Stub["(*bufio.Scanner).Buffer"] = none
	in.Stub["(*bufio.Scanner).Err"] = noErr
	if r.sc.fail == "read" {
		in.Stub["(*bufio.Scanner).Err"] = func(_ *ai.Interp, a []ai.Value, st *ai.State) ai.Value { return r.bad }
	}
	counter := func(a ai.Value, st *ai.State) ai.PtrA {
		al := in.Prune(a.(*ai.Alts), st.PC)
		if len(al) == 1 {
			if p, ok := al[0].V.(ai.PtrA); ok && p.Obj != 0 {
				return p
			}
		}
		panic(fmt.Errorf("unknown scanner"))
	}
	lines := int64(len(r.sc.lines))
	in.Stub["(*bufio.Scanner).Scan"] = func(_ *ai.Interp, a []ai.Value, st *ai.State) ai.Value {
		p := counter(a[0], st)
		v := in.Add(st.Heap[p.Obj].(*ai.BV), in.Int(64, 1))
		st.Heap[p.Obj] = v
		return &ai.BV{Bits: []ai.Node{in.B.Not(in.Lt(in.Int(64, lines), v, true))}}
	}
	in.Stub["(*bufio.Scanner).Text"] = func(_ *ai.Interp, a []ai.Value, st *ai.State) ai.Value {
		p := counter(a[0], st)
		v := st.Heap[p.Obj].(*ai.BV)
		out := &ai.Alts{}
		rest := ai.T
		for k := int64(1); k <= lines; k++ {
			g := in.Eq(v, in.Int(64, k))
			out.A = append(out.A, ai.Alt{G: g, V: opaque(fmt.Sprintf("line%d", k-1))})
			rest = in.B.Diff(rest, g)
		}
		out.A = append(out.A, ai.Alt{G: rest, V: &ai.Str{}})
		return out
	}
	in.Stub["encoding/hex.DecodeString"] = func(_ *ai.Interp, a []ai.Value, st *ai.State) ai.Value {
		res := &ai.Agg{Elems: []ai.Value{&ai.Alts{}, &ai.Alts{}}}
		rest := st.PC
		for _, x := range in.Prune(a[0].(*ai.Alts), st.PC) {
			for k, t := range r.texts {
				if s, ok := x.V.(*ai.Str); ok && len(s.Segs) == 1 && s.Segs[0].Key() == ai.OpaqueSeg(t).Key() {
					rest = in.B.Diff(rest, x.G)
					d, e := r.decoded(k, st)
					for i, v := range []ai.Value{d, e} {
						for _, y := range v.(*ai.Alts).A {
							o := res.Elems[i].(*ai.Alts)
							o.A = append(o.A, ai.Alt{G: in.B.And(x.G, y.G), V: y.V})
						}
					}
				}
			}
		}
		if rest != ai.F {
			panic(fmt.Errorf("hexadecimal decoding of something other than a line"))
		}
		return res
	}
}

// decoded is the result of decoding the text of a line.
func (r *cliRun) decoded(k int, st *ai.State) (ai.Value, ai.Value) {
	no := ai.Single(ai.SliceA{Len: r.in.Int(64, 0), Cap: r.in.Int(64, 0)})
	if r.sc.lines[k] == -2 {
		return no, r.bad
	}
	if o := r.data[k].(*ai.Alts).A[0].V.(ai.SliceA).Arr.Obj; st.Heap[o] == nil {
		st.Heap[o] = r.st.Heap[o]
	}
	return r.data[k], ai.Single(ai.IfaceA{})
}

// say adds text to the expected output, where g holds.
func (r *cliRun) say(g ai.Node, v ...interface{}) {
	in := r.in
	if g == ai.F {
		return
	}
	var segs []ai.Seg
	for _, x := range v {
		switch y := x.(type) {
		case string:
			segs = append(segs, ai.Lit(y))
		case *ai.Alts:
			segs = append(segs, ai.Nest{A: y})
		case ai.Seg:
			segs = append(segs, y)
		}
	}
	r.out = append(r.out, ai.Nest{A: &ai.Alts{A: []ai.Alt{{G: g, V: &ai.Str{Segs: segs}}, {G: in.B.Not(g), V: &ai.Str{}}}}})
}

// get calls a function of the repository under g.
func (r *cliRun) get(name string, g ai.Node, args ...ai.Value) (*ai.Agg, *types.Tuple, ai.Node) {
	fn := r.c.funcName(name)
	if fn == nil {
		panic(fmt.Errorf("function %s not found", name))
	}
	if len(fn.Params) != len(args) {
		panic(fmt.Errorf("function %s has another signature", name))
	}
	v, st := r.in.CallFn(fn, args, &ai.State{PC: g, Heap: r.st.Heap})
	if st == nil {
		panic(fmt.Errorf("function %s does not return", name))
	}
	for k, o := range st.Heap {
		if _, ok := r.st.Heap[k]; !ok {
			r.st.Heap[k] = o
		}
	}
	t := v.(*ai.Agg)
	return t, fn.Signature.Results(), r.in.B.And(st.PC, nilGuard(r.in, t.Elems[len(t.Elems)-1], st.PC))
}

// texts is the text that a method gives, alternative by alternative.
func (r *cliRun) text(g ai.Node, v ai.Value, t types.Type, path string, f func(g ai.Node, s *ai.Alts)) {
	for _, x := range r.at(g, v, t, path) {
		f(r.in.B.And(g, x.g), x.v.(*ai.Alts))
	}
}

// line adds the expected output of one line, where g holds.
func (r *cliRun) line(k int, g ai.Node) {
	in, B, c := r.in, r.in.B, r.c
	r.say(g, "Reading: ", ai.OpaqueSeg(r.texts[k]), "\n")
	if r.sc.lines[k] == -2 {
		r.say(g, "unable to convert the given text to hexadecimal values due to: ", r.errText(r.bad, g))
		return
	}
	read, rt, ok := r.get("modes/reader.ReadMessage", g, r.data[k])
	r.say(B.Diff(g, ok), r.errText(read.Elems[1], B.Diff(g, ok)), "\n")
	if ok == ai.F {
		return
	}
	msg, mt := read.Elems[0], rt.At(0).Type()
	crc := c.funcName("modes/reader.CheckCRC")
	if crc == nil || len(crc.Params) != 4 {
		panic(fmt.Errorf("function CheckCRC has another signature"))
	}
	chk, ct, acc := r.get("modes/reader.CheckCRC", ok, msg, r.data[k], ai.Single(ai.MapA{}), ai.Single(ai.MapA{}))
	r.say(B.Diff(ok, acc), r.errText(chk.Elems[1], B.Diff(ok, acc)), "\n")
	r.say(acc, " -- Mode-S Information --\n")
	all := ai.F
	for _, m := range in.Prune(msg.(*ai.Alts), acc) {
		f, okk := m.V.(ai.IfaceA)
		if !okk || f.Typ == nil {
			panic(fmt.Errorf("message of unknown type"))
		}
		h := B.And(acc, m.G)
		all = B.Or(all, h)
		r.content(h, f, chk.Elems[0], ct.At(0).Type())
	}
	r.say(acc, "\n")
	_ = mt
	r.c.R.Obligation("reached", r.name+": accepted messages of the line", all != ai.F)
}

func (r *cliRun) content(g ai.Node, m ai.IfaceA, addr ai.Value, at types.Type) {
	in, B, c := r.in, r.in.B, r.c
	name := m.Typ.String()
	name = name[strings.LastIndex(name, ".")+1:]
	df := strings.TrimPrefix(name, "MessageDF")
	from := "From: "
	if df == "11" {
		from = "In reply to interrogator: "
	}
	r.text(g, addr, at, "ToString()", func(g ai.Node, s *ai.Alts) { r.say(g, from, s, "\n") })
	r.text(g, m.V, m.Typ, "ToString()", func(g ai.Node, s *ai.Alts) { r.say(g, s, "\n") })
	field := func(n string) *ai.Alts {
		xs := r.at(g, m.V, m.Typ, n)
		if len(xs) != 1 {
			panic(fmt.Errorf("%s.%s is not known", name, n))
		}
		return xs[0].v.(*ai.Alts)
	}
	squitter := func(g ai.Node) {
		if g == ai.F {
			return
		}
		r.say(g, " -- ADSB Information --\n")
		no := in.Int(1, 0)
		fn := c.funcName("adsb/reader.ReadADSBMessage")
		if fn == nil || len(fn.Params) != 4 {
			panic(fmt.Errorf("function ReadADSBMessage has another signature"))
		}
		w, _, _ := ai.IntInfo(fn.Params[0].Type())
		t, tt, ok := r.get("adsb/reader.ReadADSBMessage", g, in.Resize(r.level, w, false), no, no, field("MessageExtendedSquitter"))
		r.say(B.Diff(g, ok), r.errText(t.Elems[1], B.Diff(g, ok)), "\n")
		r.text(ok, t.Elems[0], tt.At(0).Type(), "ToString()", func(g ai.Node, s *ai.Alts) { r.say(g, s, "\n") })
	}
	switch df {
	case "0", "4", "5", "11", "19", "24":
		r.say(g, "\n")
	case "16":
		r.say(g, " -- ACAS Information --\n")
		sl := field("MessageACAS").A[0].V.(ai.SliceA)
		es, ok := in.SliceElems(r.st, sl)
		if !ok || len(es) != 7 {
			panic(fmt.Errorf("MessageACAS is not 7 bytes"))
		}
		b := es[0].(*ai.BV)
		ra := B.And(g, in.Eq(b, in.Int(8, 0x30)))
		var rest []*ai.BV
		for _, e := range es[1:] {
			rest = append(rest, e.(*ai.BV))
		}
		t, tt, good := r.get("acas/ra.ReadResolutionAdvisory", ra, in.NewBytes(r.st, "local", "acas", rest))
		r.say(B.Diff(ra, good), r.errText(t.Elems[1], B.Diff(ra, good)), "\n")
		r.text(good, t.Elems[0], tt.At(0).Type(), "ToString()", func(g ai.Node, s *ai.Alts) { r.say(g, s, "\n") })
		nib := func(lo int) ai.Seg {
			return ai.Fmt{Verb: "%X", V: in.Resize(&ai.BV{Bits: b.Bits[lo : lo+4]}, 8, false), Typ: types.Typ[types.Uint8]}
		}
		r.say(B.Diff(g, ra), "Unknown message type: [", nib(4), ":", nib(0), "]\n")
	case "17":
		squitter(g)
	case "18":
		cf := r.at(g, m.V, m.Typ, "ControlField")
		if len(cf) != 1 {
			panic(fmt.Errorf("the control field is not known"))
		}
		v := cf[0].v.(*ai.BV)
		lt := func(n int64) ai.Node { return in.Lt(v, in.Int(len(v.Bits), n), false) }
		squitter(B.And(g, lt(2)))
		r.say(B.AndN(g, lt(6), B.Not(lt(2))), " -- TISB Information --\nNot implemented\n")
	case "20", "21":
		r.say(g, " -- Comm-B Information --\n")
		t, tt, ok := r.get("commb.ReadCommBMessage", g, field("MessageCommB"))
		r.say(B.Diff(g, ok), r.errText(t.Elems[1], B.Diff(g, ok)), "\n")
		et := tt.At(0).Type().Underlying().(*types.Slice).Elem()
		any := ai.F
		lists := map[int][]gval{}
		max := 0
		for _, a := range in.Prune(t.Elems[0].(*ai.Alts), ok) {
			s, okk := a.V.(ai.SliceA)
			if !okk || s.Arr.Obj == 0 {
				continue
			}
			for i, x := range r.elems(s, a.G) {
				lists[i] = append(lists[i], gval{g: B.And(ok, x.g), v: x.v})
				if i >= max {
					max = i + 1
				}
			}
		}
		for i := 0; i < max; i++ {
			for _, x := range lists[i] {
				any = B.Or(any, x.g)
			}
		}
		r.say(B.Diff(ok, any), "Unknown message format\n")
		for i := 0; i < max; i++ {
			for _, x := range lists[i] {
				if i > 0 {
					r.say(x.g, "-------------------------------\n")
				}
				r.text(x.g, x.v, et, "ToString()", func(g ai.Node, s *ai.Alts) { r.say(g, s, "\n") })
			}
		}
	default:
		panic(fmt.Errorf("message of unknown type %s", name))
	}
}

func (c *Ctx) cli(o *totality, main *ssa.Function, sc scenario) {
	in := c.P.NewInterp()
	r := &cliRun{run: &run{c: c, in: in, fn: main, name: "main, " + sc.name, st: in.NewState(), n: 0}, sc: sc}
	r.env = &env{in: in, names: map[string]val{}}
	r.bad = in.AnyError()
	for k, n := range sc.lines {
		t := "arg0"
		if sc.file {
			t = fmt.Sprintf("line%d", k)
		}
		r.texts = append(r.texts, t)
		switch n {
		case 7, 14:
			bs, _ := crcBytes(in, n, t+" ")
			r.data = append(r.data, in.NewBytes(r.st, "local", t+" bytes", bs))
		case -1:
			v := in.FreshSlice(types.Typ[types.Uint8], t+" bytes", r.st, -1, "local")
			sl := v.A[0].V.(ai.SliceA)
			w := len(sl.Len.Bits)
			r.st.PC = in.B.Diff(r.st.PC, in.B.Or(in.Eq(sl.Len, in.Int(w, 7)), in.Eq(sl.Len, in.Int(w, 14))))
			if len(v.A) != 1 {
				v = ai.Single(sl)
			}
			r.data = append(r.data, v)
		default:
			r.data = append(r.data, nil)
		}
	}
	r.host(main)
	start := r.st.PC
	var st *ai.State
	if err := ai.Guard(func() { _, st = in.CallFn(main, nil, &ai.State{PC: start, Heap: r.st.Heap}) }); err != nil {
		c.R.Bad(Viol{Key: "undecided|" + r.name, Rule: "undecided", Where: r.name, Detail: "the analysis stopped: " + err.Error()})
		return
	}
	if o.panics || o.ends {
		if o.ends {
			c.ends(r.run)
		} else {
			c.panics(r.run, "")
		}
		c.undecided(in, r.name)
		c.R.Analysed(c, in)
		return
	}
	end := ai.F
	if st != nil {
		end = st.PC
		for k, v := range st.Heap {
			if _, ok := r.st.Heap[k]; !ok {
				r.st.Heap[k] = v
			}
		}
	}
	if sc.fail != "" {
		r.failure(start, end)
		return
	}
	r.report("end", "the program ends by itself", in.B.Diff(start, end), "")
	// what it printed
	var got []ai.Seg
	n := 0
	for _, e := range in.Effects {
		switch e.Kind {
		case "print":
			n++
			if e.Str == nil {
				c.R.Bad(Viol{Key: "effect|" + e.What, Rule: "effect", Where: r.name, Detail: "output by " + e.What})
				continue
			}
			got = append(got, ai.Nest{A: &ai.Alts{A: []ai.Alt{{G: e.G, V: &ai.Str{Segs: []ai.Seg{ai.Nest{A: e.Str}}}}, {G: in.B.Not(e.G), V: &ai.Str{}}}}})
		case "map-iteration":
		default:
			fn := strings.ReplaceAll(e.Fn, c.P.Mod+"/", "")
			c.R.Bad(Viol{Key: "effect|" + e.Kind + "|" + fn + "|" + e.What, Rule: "effect/" + e.Kind, Where: fn + " at " + c.rel(e.Pos.String()), Detail: e.Kind + ": " + e.What})
		}
	}
	c.R.Count("output calls", n)
	// what it should print
	if err := ai.Guard(func() {
		if len(sc.lines) == 0 && !sc.file {
			r.say(start, "No data provided")
		}
		for k := range sc.lines {
			r.line(k, start)
		}
	}); err != nil {
		c.R.Bad(Viol{Key: "undecided|expected|" + r.name, Rule: "undecided", Where: r.name, Detail: err.Error()})
		return
	}
	d, why := textDiffer(in, ai.Single(&ai.Str{Segs: got}), ai.Single(&ai.Str{Segs: r.out}), start)
	r.report("output", "prints what it must", d, why)
	c.undecided(in, r.name)
	c.R.Seen(c, in)
}

// failure requires that the program ends as failed, saying why.
func (r *cliRun) failure(start, end ai.Node) {
	in := r.in
	r.report("end", "the program does not end as if all had been read", end, "")
	reason := r.errText(r.bad, start).A[0].V.(*ai.Str).Segs[0].Key()
	failed, said := ai.F, ai.F
	for _, e := range in.Effects {
		fails := e.Kind == "exit" && !(strings.HasSuffix(e.What, "os.Exit") && (e.Str == nil || e.Str.A[0].V.(*ai.Str).Key() == (&ai.Str{Segs: []ai.Seg{ai.Lit("0")}}).Key()))
		if fails {
			failed = in.B.Or(failed, e.G)
		}
		if e.Str != nil {
			for _, x := range e.Str.A {
				if strings.Contains(x.V.Key(), reason) {
					said = in.B.Or(said, in.B.And(e.G, x.G))
				}
			}
		}
	}
	r.report("end", "the program ends as failed", in.B.Diff(start, failed), "")
	r.report("end", "the program says why", in.B.Diff(start, said), "")
	r.c.undecided(in, r.name)
	r.c.R.Seen(r.c, in)
}

// each runs n independent analyses, eight at a time.
func (c *Ctx) each(n int, name func(k int) string, f func(k int)) {
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for k := 0; k < n; k++ {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			c.guard(name(k), func() { f(k) })
		}()
	}
	wg.Wait()
}
