package checks

import (
	"fmt"
	"go/types"

	"verif/analyzer/ai"
)

func init() {
	goChecks["P04"] = checkLengths
	goChecks["P08"] = func(c *Ctx) { checkCRC(c, false) }
	goChecks["P09"] = func(c *Ctx) { checkCRC(c, true) }
}

// checkLengths: a message of a length other than 7 and 14 is an error.
func checkLengths(c *Ctx) {
	fn := c.funcName("modes/reader.ReadMessage")
	if fn == nil {
		c.R.Bad(Viol{Key: "anchor|ReadMessage", Rule: "anchor", Detail: "function modes/reader.ReadMessage not found"})
		return
	}
	e := &Entry{Func: "modes/reader.ReadMessage", Args: []Arg{{Name: "data", Len: 7, Strict: true}}}
	r, ok := c.call(e, true)
	if !ok {
		return
	}
	in := r.in
	sl := in.FreshSlice(types.Typ[types.Uint8], "in", in.NewState(), -1, "input").A[0].V.(ai.SliceA)
	not14 := in.B.Not(in.Eq(sl.Len, in.Int(len(sl.Len.Bits), 14)))
	r.n = 0
	r.report("length", "every length other than 7 and 14 is an error", in.B.And(r.ok, not14), "")
}

// crcBits gives the 24 parity bits of a message as lists of message bit numbers (0 is the
// first bit): the remainder of the message times x^24 under the Mode S generator.
func crcBits(bytes int) [24][]int {
	var out [24][]int
	const poly = 0xFFF409
	for b := 0; b < bytes*8; b++ {
		// x^(24+bytes*8-1-b) mod G
		r := uint32(poly) // x^24
		for k := 0; k < bytes*8-1-b; k++ {
			if r&0x800000 != 0 {
				r = (r << 1) ^ poly
			} else {
				r <<= 1
			}
			r &= 0xFFFFFF
		}
		for i := 0; i < 24; i++ {
			if r>>uint(i)&1 == 1 {
				out[i] = append(out[i], b)
			}
		}
	}
	return out
}

func checkCRC(c *Ctx, lists bool) {
	for _, n := range []int{7, 14} {
		n := n
		c.guard(fmt.Sprintf("CheckCRC on %d bytes", n), func() { crcLen(c, n, lists) })
	}
}

// crcBytes gives the bytes of an arbitrary message: the last three bytes are the parity of the
// others, exclusive-or d. Every message is described by exactly one d.
func crcBytes(in *ai.Interp, n int, prefix string) ([]*ai.BV, *ai.BV) {
	bs := make([]*ai.BV, n)
	for i := range bs {
		bs[i] = in.Fresh(types.Typ[types.Uint8], fmt.Sprintf("%sin[%d]", prefix, i), nil, false).(*ai.BV)
	}
	d := in.Fresh(types.Typ[types.Uint32], prefix+"d", nil, false).(*ai.BV)
	d = in.Resize(&ai.BV{Bits: d.Bits[:24]}, 32, false)
	for i, l := range crcBits(n - 3) {
		x := ai.F
		for _, b := range l {
			x = in.B.Xor(x, bs[b/8].Bits[7-b%8])
		}
		k := n - 1 - i/8
		if i%8 == 0 {
			bs[k] = &ai.BV{Bits: make([]ai.Node, 8)}
		}
		bs[k].Bits[i%8] = in.B.Xor(x, d.Bits[i])
	}
	return bs, d
}

func crcLen(c *Ctx, n int, lists bool) {
	read, crc := c.funcName("modes/reader.ReadMessage"), c.funcName("modes/reader.CheckCRC")
	if read == nil || crc == nil {
		c.R.Bad(Viol{Key: "anchor|CheckCRC", Rule: "anchor", Detail: "function modes/reader.ReadMessage or modes/reader.CheckCRC not found"})
		return
	}
	in := c.P.NewInterp()
	st := in.NewState()
	bs, d := crcBytes(in, n, "")
	data := in.NewBytes(st, "input", "input", bs)
	r := &run{c: c, in: in, st: st, fn: crc, name: "modes/reader.CheckCRC", n: 0}
	var msg ai.Value
	if err := ai.Guard(func() {
		v, s := in.CallFn(read, []ai.Value{data}, st)
		t := v.(*ai.Agg)
		s.PC = in.B.And(s.PC, nilGuard(in, t.Elems[1], s.PC))
		msg, st = t.Elems[0], s
	}); err != nil {
		c.R.Bad(Viol{Key: "undecided|read", Rule: "undecided", Where: r.name, Detail: err.Error()})
		return
	}
	sig := crc.Signature
	at, ok1 := sig.Params().At(2).Type().Underlying().(*types.Map)
	it, ok2 := sig.Params().At(3).Type().Underlying().(*types.Map)
	if sig.Params().Len() != 4 || !ok1 || !ok2 || sig.Results().Len() != 2 {
		c.R.Bad(Viol{Key: "anchor|CheckCRC", Rule: "anchor", Where: r.name, Detail: "another signature"})
		return
	}
	addr, ii := in.SymMap(st, "addresses", at), in.SymMap(st, "interrogators", it)
	in.SymHas("addresses", d)
	in.SymHas("interrogators", d)
	accepted := st.PC
	B := in.B
	df := func(k int) ai.Node {
		v := &ai.BV{Bits: bs[0].Bits[3:8]}
		if k == 24 {
			return B.And(v.Bits[4], v.Bits[3])
		}
		return in.Eq(v, in.Int(5, int64(k)))
	}
	announced := &ai.BV{}
	for i := 3; i >= 1; i-- {
		announced.Bits = append(announced.Bits, bs[i].Bits...)
	}
	announced = in.Resize(announced, 32, false)
	zero := in.Int(32, 0)
	possible := ai.T
	allow := func(name string) ai.Node {
		h := in.SymHas(name, d)
		z := in.SymLen(name)
		empty := in.Eq(z, in.Int(len(z.Bits), 0))
		// an empty map has no key
		possible = B.And(possible, B.Not(B.AndN(h, empty)))
		return B.Or(B.Or(in.Keyed("nil("+name+")"), empty), h)
	}
	alAddr, alII := allow("addresses"), allow("interrogators")
	formats := []int{0, 4, 5, 11}
	if n == 14 {
		formats = []int{16, 17, 18, 19, 20, 21, 24}
	}
	for _, k := range formats {
		// the messages of the format; those that cannot be read are left out of the verdicts
		g := df(k)
		what := fmt.Sprintf("of downlink format %d", k)
		seen := B.And(g, accepted)
		if seen == ai.F {
			r.report("reached", "messages "+what+" can be read", ai.T, "")
			continue
		}
		var ms []ai.Alt
		for _, a := range in.Prune(msg.(*ai.Alts), seen) {
			ms = append(ms, a)
		}
		if len(ms) == 1 {
			ms[0].G = ai.T
		}
		acc, got := ai.F, in.Int(32, 0)
		if err := ai.Guard(func() {
			v, s := in.CallFn(crc, []ai.Value{&ai.Alts{A: ms}, data, addr, ii}, &ai.State{PC: B.And(g, possible), Heap: st.Heap})
			if s != nil {
				t := v.(*ai.Agg)
				acc = B.And(s.PC, nilGuard(in, t.Elems[1], s.PC))
				got = in.Resize(t.Elems[0].(*ai.BV), 32, false)
			}
		}); err != nil {
			c.R.Bad(Viol{Key: "undecided|CheckCRC", Rule: "undecided", Where: r.name, Detail: err.Error()})
			continue
		}
		g = B.And(g, possible)
		okk, val := alAddr, d
		switch k {
		case 11:
			okk = alII
		case 17, 18:
			okk, val = in.Eq(d, zero), announced
		}
		if k == 17 || k == 18 || lists {
			r.report("accept", "accepts every valid message "+what, B.AndN(seen, g, okk, B.Not(acc)), "")
			r.report("reject", "rejects every other message "+what, B.AndN(seen, g, acc, B.Not(okk)), "")
		} else {
			nolist := B.And(in.Keyed("nil(addresses)"), in.Keyed("nil(interrogators)"))
			r.report("accept", "without lists accepts every message "+what, B.AndN(seen, g, nolist, B.Not(acc)), "")
		}
		if !lists {
			for b := 0; b < 32; b++ {
				r.report("value", fmt.Sprintf("bit %d of the result %s", b, what), B.AndN(seen, g, acc, B.Xor(got.Bits[b], val.Bits[b])), "")
			}
		}
	}
	c.undecided(in, r.name)
	c.R.Seen(c, in)
	c.R.Count("formats", len(formats))
}
