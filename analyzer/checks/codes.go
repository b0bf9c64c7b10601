package checks

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"verif/analyzer/ai"
)

func init() { goChecks["P30"] = checkCodes }

// codeRow is the text of the codes lo to hi, or of all others.
type codeRow struct {
	lo, hi int64
	rest   bool
	text   string
}

type codeType struct {
	name string
	rows []codeRow
}

func loadCodes() ([]codeType, error) {
	b, err := specFS.ReadFile("spec/P30.codes")
	if err != nil {
		return nil, err
	}
	var out []codeType
	for n, l := range strings.Split(string(b), "\n") {
		if l == "" || l[0] == '#' {
			continue
		}
		k, rest := l, ""
		if i := strings.Index(l, " "); i >= 0 {
			k, rest = l[:i], l[i+1:]
		}
		if k == "type" {
			out = append(out, codeType{name: rest})
			continue
		}
		t := &out[len(out)-1]
		r := codeRow{text: strings.NewReplacer(`\n`, "\n", `\t`, "\t").Replace(rest)}
		if k == "else" {
			r.rest = true
		} else {
			a, b := k, k
			if i := strings.Index(k, "-"); i > 0 {
				a, b = k[:i], k[i+1:]
			}
			if r.lo, err = strconv.ParseInt(a, 10, 64); err == nil {
				r.hi, err = strconv.ParseInt(b, 10, 64)
			}
			if err != nil {
				return nil, fmt.Errorf("P30.codes:%d: %v", n+1, err)
			}
		}
		t.rows = append(t.rows, r)
	}
	return out, nil
}

// codeText is the text of a row as a function of the code v.
func codeText(in *ai.Interp, text string, v *ai.BV, t types.Type) *ai.Str {
	_, signed, _ := ai.IntInfo(t)
	s := &ai.Str{}
	lit := func(x string) {
		if x != "" {
			s.Segs = append(s.Segs, ai.Lit(x))
		}
	}
	for {
		i := strings.Index(text, "{")
		if i < 0 {
			lit(text)
			return s
		}
		lit(text[:i])
		j := i + strings.Index(text[i:], "}")
		f := strings.Fields(text[i+1 : j])
		text = text[j+1:]
		n := func(k int) int {
			x, err := strconv.Atoi(f[k])
			if err != nil {
				panic(err)
			}
			return x
		}
		switch f[0] {
		case "v":
			s.Segs = append(s.Segs, ai.Fmt{Verb: "%v", V: v, Typ: t})
		case "hex":
			s.Segs = append(s.Segs, ai.Fmt{Verb: "%02X", V: &ai.BV{Bits: v.Bits[n(1) : n(1)+8]}, Typ: types.Typ[types.Uint8]})
		case "bit":
			s.Segs = append(s.Segs, ai.Fmt{Verb: "%v", V: in.Resize(&ai.BV{Bits: v.Bits[n(1) : n(1)+1]}, 8, false), Typ: types.Typ[types.Uint8]})
		case "float":
			a, _ := new(big.Rat).SetString(f[1])
			b, _ := new(big.Rat).SetString(f[2])
			p := in.PAdd(in.PMul(in.PolyConst(a), in.BVToPoly(v, signed)), in.PolyConst(b))
			s.Segs = append(s.Segs, ai.Fmt{Verb: "%v", V: ai.Single(p), Typ: types.Typ[types.Float64]})
		default:
			panic("P30.codes: {" + f[0] + "}")
		}
	}
}

// checkCodes compares the text of every code of every coded type with the reviewed table.
func checkCodes(c *Ctx) {
	ts, err := loadCodes()
	if err != nil {
		panic(err)
	}
	c.R.Count("coded_types", len(ts))
	for _, ct := range ts {
		ct := ct
		c.guard(ct.name, func() { c.codes(ct) })
	}
}

func (c *Ctx) codes(ct codeType) {
	t := c.typeName(ct.name)
	if t == nil {
		c.R.Bad(Viol{Key: "anchor|" + ct.name, Rule: "anchor", Where: ct.name, Detail: "type not found"})
		return
	}
	in := c.P.NewInterp()
	st := in.NewState()
	w, signed, ok := ai.IntInfo(t)
	fn := in.Method(t, "ToString")
	if !ok || fn == nil {
		c.R.Bad(Viol{Key: "anchor|" + ct.name, Rule: "anchor", Where: ct.name, Detail: "not an integer type with a method ToString"})
		return
	}
	v := in.Fresh(t, "v", st, true).(*ai.BV)
	r := &run{c: c, in: in, st: st, fn: fn, name: ct.name + ".ToString"}
	var res ai.Value
	var st2 *ai.State
	if err := ai.Guard(func() { res, st2 = in.CallFn(fn, []ai.Value{v}, st) }); err != nil {
		c.R.Bad(Viol{Key: "undecided|" + ct.name, Rule: "undecided", Where: r.name, Detail: err.Error()})
		return
	}
	done := ai.F
	if st2 != nil {
		done = st2.PC
	}
	r.report("text", "every code has a text", in.B.Not(done), "the method does not return")
	got, ok := res.(*ai.Alts)
	if !ok || st2 == nil {
		return
	}
	rest := ai.T
	for _, row := range ct.rows {
		g := rest
		what := "other codes"
		if !row.rest {
			lo, hi := in.Int(72, row.lo), in.Int(72, row.hi)
			x := in.Resize(v, 72, signed)
			g = in.B.And(in.B.Not(in.Lt(x, lo, true)), in.B.Not(in.Lt(hi, x, true)))
			rest = in.B.Diff(rest, g)
			what = fmt.Sprintf("code %d", row.lo)
			if row.hi != row.lo {
				what = fmt.Sprintf("codes %d to %d", row.lo, row.hi)
			}
			if g == ai.F {
				panic(fmt.Sprintf("P30.codes: %s has no code %d", ct.name, row.lo))
			}
		}
		g = in.B.And(g, done)
		var bad ai.Node
		var why string
		if err := ai.Guard(func() {
			bad, why = textDiffer(in, got, ai.Single(codeText(in, row.text, v, t)), g)
		}); err != nil {
			c.R.Bad(Viol{Key: "undecided|" + ct.name, Rule: "undecided", Where: r.name, Detail: err.Error()})
			return
		}
		c.R.Count("codes", 1)
		r.report("text", what, bad, why)
		if row.rest {
			rest = ai.F
		}
	}
	if rest != ai.F && w < 64 {
		panic("P30.codes: " + ct.name + " does not cover every code")
	}
	c.undecided(in, r.name)
	c.R.Seen(c, in)
}
