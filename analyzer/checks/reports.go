package checks

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"sync"

	"verif/analyzer/ai"
)

func init() { goChecks["P31"] = checkReports }

// reportLine is a line of a report; it is printed when path is empty or has the value val.
type reportLine struct {
	path, text string
	val        int64
}

type reportType struct {
	name  string
	lines []reportLine
}

func loadReports() ([]reportType, error) {
	b, err := specFS.ReadFile("spec/P31.reports")
	if err != nil {
		return nil, err
	}
	var out []reportType
	for n, l := range strings.Split(string(b), "\n") {
		switch {
		case l == "" || l[0] == '#':
		case strings.HasPrefix(l, "report "):
			out = append(out, reportType{name: l[7:]})
		case l[0] == '|':
			t := &out[len(out)-1]
			t.lines = append(t.lines, reportLine{text: l[1:]})
		case l[0] == '?':
			i := strings.Index(l, "|")
			j := strings.Index(l[:i], "=")
			v, err := strconv.ParseInt(l[j+1:i], 10, 64)
			if err != nil {
				return nil, err
			}
			t := &out[len(out)-1]
			t.lines = append(t.lines, reportLine{l[1:j], l[i+1:], v})
		default:
			return nil, fmt.Errorf("P31.reports:%d: %q", n+1, l)
		}
	}
	return out, nil
}

// allEntries lists every entry of every table once.
func (c *Ctx) allEntries() []*Entry {
	var names []string
	for n := range c.Specs {
		names = append(names, n)
	}
	sort.Strings(names)
	seen := map[string]bool{}
	var out []*Entry
	for _, n := range names {
		for _, e := range c.Specs[n].Entries {
			k := e.Func
			for _, a := range e.Args {
				k += fmt.Sprintf(",%d", a.Len)
			}
			if !seen[k] {
				seen[k] = true
				f := *e
				f.Assume = nil
				out = append(out, &f)
			}
		}
	}
	return out
}

// indent prefixes each line of a text.
func indent(in *ai.Interp, v ai.Value, prefix string, g ai.Node) *ai.Alts {
	var segs func(s []ai.Seg) []ai.Seg
	var alts func(a *ai.Alts) *ai.Alts
	alts = func(a *ai.Alts) *ai.Alts {
		o := &ai.Alts{}
		for _, x := range a.A {
			if s, ok := x.V.(*ai.Str); ok {
				o.A = append(o.A, ai.Alt{G: x.G, V: &ai.Str{Segs: segs(s.Segs)}})
			} else {
				o.A = append(o.A, x)
			}
		}
		return o
	}
	segs = func(s []ai.Seg) []ai.Seg {
		var o []ai.Seg
		for _, x := range s {
			switch y := x.(type) {
			case ai.Lit:
				o = append(o, ai.Lit(strings.ReplaceAll(string(y), "\n", "\n"+prefix)))
			case ai.Nest:
				o = append(o, ai.Nest{A: alts(y.A)})
			default:
				o = append(o, x)
			}
		}
		return o
	}
	a, ok := v.(*ai.Alts)
	if !ok {
		panic(anchorErr("not text"))
	}
	return ai.Single(&ai.Str{Segs: []ai.Seg{ai.Lit(prefix), ai.Nest{A: alts(a)}}})
}

// printed is a value as %v prints it.
func (r *run) printed(x gval) []ai.Seg {
	if ai.IsString(x.t) {
		return []ai.Seg{ai.Nest{A: x.v.(*ai.Alts)}}
	}
	return []ai.Seg{ai.Fmt{Verb: "%v", V: x.v, Typ: x.t}}
}

// choice is the text of a path as a guarded choice.
func (r *run) choice(i inst, path string, f func(x gval) []ai.Seg) ai.Seg {
	a := &ai.Alts{}
	for _, x := range r.at(i.G, i.V, i.T, path) {
		a.A = append(a.A, ai.Alt{G: x.g, V: &ai.Str{Segs: f(x)}})
	}
	return ai.Nest{A: a}
}

// byteList is the text of a slice (or array) of bytes, one verb per byte.
func (r *run) byteList(x gval, verb, sep, open, end string) []ai.Seg {
	var es []ai.Value
	switch v := x.v.(type) {
	case *ai.Agg:
		es = v.Elems
	case *ai.Alts:
		al := r.in.Prune(v, x.g)
		if len(al) != 1 {
			panic(anchorErr("not one list of bytes"))
		}
		s, ok := al[0].V.(ai.SliceA)
		if !ok || s.Arr.Obj == 0 {
			panic(anchorErr("not a list of bytes"))
		}
		for _, e := range r.elems(s, x.g) {
			es = append(es, e.v)
		}
	}
	out := []ai.Seg{ai.Lit(open)}
	for k, e := range es {
		if k > 0 {
			out = append(out, ai.Lit(sep))
		}
		out = append(out, ai.Fmt{Verb: verb, V: e, Typ: types.Typ[types.Uint8]})
	}
	return append(out, ai.Lit(end))
}

// errText is the text of an error.
func (r *run) errText(v ai.Value, g ai.Node) *ai.Alts {
	o := &ai.Alts{}
	for _, x := range r.in.Prune(v.(*ai.Alts), g) {
		if i, ok := x.V.(ai.IfaceA); ok && i.Typ != nil {
			text := &ai.Str{Segs: []ai.Seg{ai.Fmt{Verb: "%v", V: i.V, Typ: i.Typ}}}
			if r.in.OwnError(i.Typ) {
				text = ai.ErrText
			}
			o.A = append(o.A, ai.Alt{G: x.G, V: text})
		}
	}
	return o
}

// reportText is the text of a line for a value.
func (r *run) reportText(i inst, text string) []ai.Seg {
	in := r.in
	var out []ai.Seg
	for {
		k := strings.Index(text, "{")
		if k < 0 {
			return append(out, ai.Lit(text))
		}
		out = append(out, ai.Lit(text[:k]))
		e := k + strings.Index(text[k:], "}")
		f := strings.SplitN(text[k+1:e], " ", 3)
		text = text[e+1:]
		if len(f) == 1 {
			out = append(out, r.choice(i, f[0], r.printed))
			continue
		}
		switch f[0] {
		case "indent":
			out = append(out, r.choice(i, f[1], func(x gval) []ai.Seg { return []ai.Seg{ai.Nest{A: indent(in, x.v, "    ", x.g)}} }))
		case "hex":
			out = append(out, r.choice(i, f[1], func(x gval) []ai.Seg { return r.byteList(x, "%02X", " ", "", "") }))
		case "list":
			out = append(out, r.choice(i, f[1], func(x gval) []ai.Seg { return r.byteList(x, "%v", " ", "[", "]") }))
		case "addr":
			out = append(out, r.choice(i, f[1], func(x gval) []ai.Seg {
				v := x.v.(*ai.BV)
				var o []ai.Seg
				for b := 16; b >= 0; b -= 8 {
					if b < 16 {
						o = append(o, ai.Lit(" "))
					}
					o = append(o, ai.Fmt{Verb: "%02X", V: &ai.BV{Bits: v.Bits[b : b+8]}, Typ: types.Typ[types.Uint8]})
				}
				return o
			}))
		case "when":
			out = append(out, r.choice(i, f[1], func(x gval) []ai.Seg {
				b := x.v.(*ai.BV).Bits[0]
				return []ai.Seg{ai.Nest{A: &ai.Alts{A: []ai.Alt{
					{G: b, V: &ai.Str{Segs: []ai.Seg{ai.Lit(" " + f[2])}}},
					{G: in.B.Not(b), V: &ai.Str{}},
				}}}}
			}))
		case "arg":
			v, ok := r.env.names[f[1]]
			if !ok || v.kind != 'b' {
				panic(anchorErr("no argument " + f[1]))
			}
			out = append(out, ai.Fmt{Verb: "%v", V: &ai.BV{Bits: []ai.Node{v.b}}, Typ: types.Typ[types.Bool]})
		case "derived":
			out = append(out, r.choice(i, f[1], func(x gval) []ai.Seg {
				tu, ok := x.t.(*types.Tuple)
				if !ok || tu.Len() != 2 {
					panic(anchorErr("not a value and an error"))
				}
				a := x.v.(*ai.Agg)
				nl := nilGuard(in, a.Elems[1], x.g)
				ok1 := append(r.printed(gval{in.B.And(x.g, nl), a.Elems[0], tu.At(0).Type()}), ai.Lit(" "+f[2]))
				bad := []ai.Seg{ai.Lit("not computable: "), ai.Nest{A: r.errText(a.Elems[1], in.B.Diff(x.g, nl))}}
				return []ai.Seg{ai.Nest{A: &ai.Alts{A: []ai.Alt{
					{G: nl, V: &ai.Str{Segs: ok1}},
					{G: in.B.Diff(x.g, nl), V: &ai.Str{Segs: bad}},
				}}}}
			}))
		default:
			panic(fmt.Errorf("P31.reports: {%s}", f[0]))
		}
	}
}

// checkReports compares the report of every message that a reader gives with its template.
func checkReports(c *Ctx) {
	ts, err := loadReports()
	if err != nil {
		panic(err)
	}
	by := map[*types.TypeName]*reportType{}
	for k := range ts {
		t := c.typeName(ts[k].name)
		if t == nil {
			c.R.Bad(Viol{Key: "anchor|" + ts[k].name, Rule: "anchor", Where: ts[k].name, Detail: "type not found"})
			continue
		}
		by[t.Obj()] = &ts[k]
	}
	var mu sync.Mutex
	hit := map[string]int{}
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, e := range c.allEntries() {
		e := e
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			c.guard(e.Func, func() {
				r, ok := c.call(e, false)
				if !ok {
					return
				}
				c.R.Count("entries", 1)
				for _, i := range r.insts {
					if t := by[i.T.Obj()]; t != nil {
						mu.Lock()
						hit[t.name]++
						mu.Unlock()
						c.report31(r, e, t, i)
					}
				}
				c.undecided(r.in, e.Func)
				c.R.Seen(c, r.in)
			})
		}()
	}
	wg.Wait()
	for _, t := range ts {
		ok := hit[t.name] > 0
		c.R.Obligation("reached", t.name, ok)
		if !ok {
			c.R.Bad(Viol{Key: "reached|" + t.name, Rule: "reached", Where: t.name, Detail: "no analysed entry gives a value of this type"})
		}
	}
}

func (c *Ctx) report31(r *run, e *Entry, t *reportType, i inst) {
	in := r.in
	where := t.name
	defer func() {
		if x := recover(); x != nil {
			if a, ok := x.(anchorErr); ok {
				c.R.Bad(Viol{Key: "anchor|" + t.name + "|" + string(a), Rule: "anchor", Where: r.name + " " + t.name, Detail: string(a)})
				return
			}
			panic(x)
		}
	}()
	var segs []ai.Seg
	for k, l := range t.lines {
		s := r.reportText(i, l.text)
		if k > 0 {
			s = append([]ai.Seg{ai.Lit("\n")}, s...)
		}
		if l.path == "" {
			segs = append(segs, s...)
			continue
		}
		on := ai.F
		for _, x := range r.at(i.G, i.V, i.T, l.path) {
			v, ok := x.v.(*ai.BV)
			if !ok {
				panic(anchorErr(l.path + " is not a number"))
			}
			on = in.B.Or(on, in.B.And(x.g, in.Eq(v, in.Int(len(v.Bits), l.val))))
		}
		segs = append(segs, ai.Nest{A: &ai.Alts{A: []ai.Alt{{G: on, V: &ai.Str{Segs: s}}, {G: in.B.Not(on), V: &ai.Str{}}}}})
	}
	done := ai.F
	for _, x := range r.at(i.G, i.V, i.T, "ToString()") {
		done = in.B.Or(done, x.g)
		a, ok := x.v.(*ai.Alts)
		if !ok {
			panic(anchorErr("the report is not text"))
		}
		bad, why := textDiffer(in, a, ai.Single(&ai.Str{Segs: segs}), in.B.And(x.g, i.G))
		r.report("report", where, bad, why)
	}
	r.report("report", where+" returns", in.B.Diff(i.G, done), "the method does not return")
}
