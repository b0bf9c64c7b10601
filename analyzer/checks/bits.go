package checks

import (
	"go/types"

	"verif/analyzer/ai"
)

func init() { goChecks["P38"] = checkBits }

// checkBits: the packing functions put their arguments in order, most significant first, and the
// Gillham conversion gives the altitude of every code that exists.
func checkBits(c *Ctx) {
	for _, f := range []struct {
		name  string
		n, w  int // arguments, and the bits of each
		width int // bits of the result
	}{
		{"Pack2Bytes", 2, 8, 16}, {"Pack3Bytes", 3, 8, 32}, {"Pack4Bytes", 4, 8, 32},
		{"Pack8Bits", 8, 1, 8}, {"Pack16Bits", 16, 1, 16},
	} {
		f := f
		c.guard("bitutils."+f.name, func() {
			r, args, bits := c.bitArgs("bitutils."+f.name, f.n, f.w)
			if r == nil {
				return
			}
			got, g := r.eval(r.fn, args)
			r.report("result", "gives a result for every argument", r.in.B.Not(g), "")
			if len(got) != 1 {
				r.report("result", "gives one number", ai.T, "")
				return
			}
			v, ok := got[0].(*ai.BV)
			if !ok || len(v.Bits) < f.width {
				r.report("result", "gives a number wide enough for the arguments", ai.T, "")
				return
			}
			bad := ai.F
			for k, b := range v.Bits {
				want := ai.F
				if k < len(bits) {
					want = bits[len(bits)-1-k]
				}
				bad = r.in.B.Or(bad, r.in.B.AndN(g, r.in.B.Xor(b, want)))
			}
			r.report("order", "the arguments in order, the first one most significant", bad, "")
			c.undecided(r.in, f.name)
			c.R.Seen(c, r.in)
			c.R.Count("bits", len(bits))
		})
	}
	c.guard("bitutils.GillhamToAltitude", func() {
		r, args, bits := c.bitArgs("bitutils.GillhamToAltitude", 12, 1)
		if r == nil {
			return
		}
		in := r.in
		got, g := r.eval(r.fn, args)
		if len(got) != 2 {
			r.report("result", "gives an altitude and an error", ai.T, "")
			return
		}
		r.report("result", "gives a result for every code", in.B.Not(g), "")
		accepted := in.B.And(g, nilGuard(in, got[1], g))
		want, exists := gillham(in, bits)
		r.report("accept", "no error for a code that exists", in.B.AndN(g, exists, in.B.Not(accepted)), "")
		r.report("reject", "an error for a code that does not exist", in.B.And(accepted, in.B.Not(exists)), "")
		v, ok := got[0].(*ai.BV)
		if !ok {
			r.report("altitude", "the altitude is a number", ai.T, "")
			return
		}
		// the error value is told by the reading; the altitude counts where the code exists
		r.report("altitude", "the altitude of the code in feet", in.B.AndN(accepted, exists, in.B.Not(in.Eq(in.Resize(v, W, true), want))), "")
		c.undecided(in, "GillhamToAltitude")
		c.R.Seen(c, in)
		c.R.Count("bits", len(bits))
	})
}

// bitArgs gives arbitrary arguments to a function of n bytes or bits, and all their bits in order,
// most significant first.
func (c *Ctx) bitArgs(q string, n, w int) (*run, []ai.Value, []ai.Node) {
	fn := c.funcName(q)
	kind := types.Uint8
	if w == 1 {
		kind = types.Bool
	}
	if fn == nil || fn.Signature.Params().Len() != n {
		c.R.Bad(Viol{Key: "anchor|" + q, Rule: "anchor", Where: q, Detail: "the function was not found, or its parameters are not the known ones"})
		return nil, nil, nil
	}
	in := c.P.NewInterp()
	r := &run{c: c, in: in, st: in.NewState(), fn: fn, name: q}
	var args []ai.Value
	var bits []ai.Node
	for k := 0; k < n; k++ {
		p := fn.Signature.Params().At(k)
		if b, ok := p.Type().Underlying().(*types.Basic); !ok || b.Kind() != kind {
			c.R.Bad(Viol{Key: "anchor|" + q, Rule: "anchor", Where: q, Detail: "parameter " + p.Name() + " is of another type"})
			return nil, nil, nil
		}
		v := in.Fresh(p.Type(), p.Name(), r.st, false).(*ai.BV)
		args = append(args, v)
		for j := len(v.Bits) - 1; j >= 0; j-- {
			bits = append(bits, v.Bits[j])
		}
	}
	return r, args, bits
}
