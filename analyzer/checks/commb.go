package checks

import (
	"fmt"
	"go/types"

	"verif/analyzer/ai"
)

func init() {
	goChecks["P28"] = checkCommB
}

// commbSlot is one format that the interpretation of a Comm-B content can list.
type commbSlot struct {
	typ, reader, spec string
}

var commbSole = []commbSlot{
	{"bds/bds00.NoMessageAvailable", "bds/bds00.ReadNoMessageAvailable", "P37"},
	{"bds/bds07.Status", "bds/bds07.ReadStatus", "P37"},
	{"bds/bds20.AircraftIdentification", "bds/bds20.ReadAircraftIdentification", "P14"},
}

var commbList = []commbSlot{
	{"bds/bds10.DataLinkCapabilityReport", "bds/bds10.ReadDataLinkCapabilityReport", "P21"},
	{"bds/bds17.CommonUsageGICBCapabilityReport", "bds/bds17.ReadCommonUsageGICBCapabilityReport", "P22"},
	{"bds/bds30.ACASResolutionAdvisory", "bds/bds30.ReadACASResolutionAdvisory", "P20"},
	{"bds/bds40.SelectedVerticalIntention", "bds/bds40.ReadSelectedVerticalIntention", "P23"},
	{"bds/bds44.MeteorologicalRoutineAirReportV1", "bds/bds44.ReadMeteorologicalRoutineAirReport", "P24"},
	{"bds/bds44.MeteorologicalRoutineAirReportV2", "bds/bds44.ReadMeteorologicalRoutineAirReport", "P24"},
	{"bds/bds45.MeteorologicalHazardReportV1", "bds/bds45.ReadMeteorologicalHazardReport", "P25"},
	{"bds/bds45.MeteorologicalHazardReportV0", "bds/bds45.ReadMeteorologicalHazardReport", "P25"},
	{"bds/bds50.TrackAndTurnReport", "bds/bds50.ReadTrackAndTurnReport", "P26"},
	{"bds/bds60.HeadingAndTrackReport", "bds/bds60.ReadHeadingAndSpeedReport", "P26"},
}

// specCond is the specified condition under which a reader gives a type, and under which that
// message is coherent.
func (c *Ctx) specCond(ev *env, s commbSlot) ai.Node {
	in := ev.in
	sub := func(spec string) *env {
		return &env{in: in, bit: ev.bit, names: ev.names, defs: c.Specs[spec].Defs, memo: map[string]val{}, busy: map[string]bool{}, specs: c.Specs}
	}
	r := ai.F
	found := false
	for _, e := range c.Specs[s.spec].Entries {
		if e.Func != s.reader {
			continue
		}
		for _, o := range e.Outs {
			if o.Type == s.typ {
				v := sub(s.spec)
				r, found = v.asBool(v.eval(o.Cond)), true
			}
		}
	}
	coh := false
	for _, n := range []string{"P27", "P37"} {
		for _, l := range c.Specs[n].Layouts {
			if l.Type != s.typ {
				continue
			}
			for _, f := range l.Fields {
				if f.Kind == "coherent" && !coh {
					v := sub(n)
					r, coh = in.B.And(r, v.asBool(v.eval(f.E))), true
				}
			}
		}
	}
	if !found || !coh {
		panic(fmt.Errorf("spec: no rule for %s", s.typ))
	}
	return r
}

func checkCommB(c *Ctx) {
	e := &Entry{Func: "commb.ReadCommBMessage", Args: []Arg{{Name: "data", Len: 7, Strict: true}}}
	if r, ok := c.call(e, true); ok {
		r.n = 0
		r.report("length", "every other length is an error", r.ok, "")
	}
	r, ok := c.call(e, false)
	if !ok {
		return
	}
	in, B := r.in, r.in.B
	tu, ok := r.res.(*ai.Agg)
	if !ok || len(tu.Elems) != 2 {
		c.R.Bad(Viol{Key: "anchor|commb", Rule: "anchor", Where: r.name, Detail: "another signature"})
		return
	}
	list, ok := tu.Elems[0].(*ai.Alts)
	if !ok {
		c.R.Bad(Viol{Key: "anchor|commb", Rule: "anchor", Where: r.name, Detail: "another signature"})
		return
	}
	r.report("error", "every 7-byte content is interpreted", r.bad, "")

	// what must be listed
	type item struct {
		s    commbSlot
		cond ai.Node
	}
	var items []item
	none := ai.T
	for _, s := range commbSole {
		w := c.specCond(r.env, s)
		items = append(items, item{s, B.And(none, w)})
		none = B.Diff(none, w)
	}
	for _, s := range commbList {
		items = append(items, item{s, B.And(none, c.specCond(r.env, s))})
	}
	// what is listed, position by position
	type elem struct {
		g ai.Node
		v *ai.Alts
	}
	pos := map[int][]elem{}
	max := 0
	for _, a := range in.Prune(list, r.ok) {
		s, ok := a.V.(ai.SliceA)
		if !ok {
			c.R.Bad(Viol{Key: "undecided|list", Rule: "undecided", Where: r.name, Detail: "the list is not known"})
			return
		}
		if s.Arr.Obj == 0 {
			continue
		}
		for k, x := range r.elems(s, B.And(r.ok, a.G)) {
			v, ok := x.v.(*ai.Alts)
			if !ok {
				c.R.Bad(Viol{Key: "undecided|list", Rule: "undecided", Where: r.name, Detail: "the list elements are not known"})
				return
			}
			pos[k] = append(pos[k], elem{x.g, v})
			if k+1 > max {
				max = k + 1
			}
		}
	}
	// readers, for the values
	direct := map[string]ai.Value{}
	read := func(name string) ai.Value {
		if v, ok := direct[name]; ok {
			return v
		}
		fn := c.funcName(name)
		if fn == nil {
			panic(fmt.Errorf("function %s not found", name))
		}
		data := in.FreshSlice(types.Typ[types.Uint8], "in", r.st, 7, "input")
		v, st := in.CallFn(fn, []ai.Value{data}, &ai.State{PC: ai.T, Heap: r.st.Heap})
		for k, o := range st.Heap {
			if _, ok := r.st.Heap[k]; !ok {
				r.st.Heap[k] = o
			}
		}
		direct[name] = v.(*ai.Agg).Elems[0]
		return direct[name]
	}
	// cnt[j] is the condition that j items come before the current one
	cnt := []ai.Node{r.ok}
	for _, it := range items {
		t := c.typeName(it.s.typ)
		if t == nil {
			c.R.Bad(Viol{Key: "anchor|" + it.s.typ, Rule: "anchor", Where: r.name, Detail: "type not found"})
			continue
		}
		isType := func(x ai.IfaceA) bool {
			if x.Typ == nil {
				return false
			}
			if p, ok := x.Typ.(*types.Pointer); ok {
				return types.Identical(p.Elem(), t)
			}
			return types.Identical(x.Typ, t)
		}
		missing, extra := ai.F, ai.F
		valBad, valWhy := ai.F, ""
		n := len(cnt)
		if max > n {
			n = max
		}
		for j := 0; j < n; j++ {
			want := ai.F
			if j < len(cnt) {
				want = B.And(cnt[j], it.cond)
			}
			got := ai.F
			for _, x := range pos[j] {
				for _, a := range in.Prune(x.v, x.g) {
					f, ok := a.V.(ai.IfaceA)
					if !ok || !isType(f) {
						continue
					}
					g := B.And(x.g, a.G)
					got = B.Or(got, g)
					for _, dv := range in.Prune(read(it.s.reader).(*ai.Alts), g) {
						h := B.AndN(g, dv.G, want)
						var d ai.Node
						var why string
						if df, ok := dv.V.(ai.IfaceA); ok {
							d, why = r.sameAtom(h, f, df, 0)
						} else {
							d, why = r.same(h, f.V, ai.Single(dv.V), 0)
						}
						if d != ai.F {
							valBad, valWhy = B.Or(valBad, d), why
						}
					}
				}
			}
			missing = B.Or(missing, B.Diff(want, got))
			extra = B.Or(extra, B.Diff(got, want))
		}
		r.report("listed", it.s.typ+" is at its place in the list whenever the content is readable and coherent as such", missing, "")
		r.report("only", it.s.typ+" is listed only then and once", extra, "")
		r.report("value", it.s.typ+" is listed with the values its own reader gives", valBad, valWhy)
		next := make([]ai.Node, len(cnt)+1)
		for j := range next {
			next[j] = ai.F
		}
		for j, g := range cnt {
			next[j] = B.Or(next[j], B.Diff(g, it.cond))
			next[j+1] = B.Or(next[j+1], B.And(g, it.cond))
		}
		cnt = next
	}
	// nothing but known formats
	other := ai.F
	for _, xs := range pos {
		for _, x := range xs {
			for _, a := range in.Prune(x.v, x.g) {
				known := false
				if f, ok := a.V.(ai.IfaceA); ok && f.Typ != nil {
					for _, it := range items {
						if t := c.typeName(it.s.typ); t != nil {
							p, isp := f.Typ.(*types.Pointer)
							known = known || types.Identical(f.Typ, t) || isp && types.Identical(p.Elem(), t)
						}
					}
				}
				if !known {
					other = B.Or(other, B.And(x.g, a.G))
				}
			}
		}
	}
	r.report("other", "nothing else is listed", other, "")
	c.R.Count("formats", len(items))
	c.R.Count("list positions", max)
	c.undecided(in, r.name)
	c.R.Seen(c, in)
}
