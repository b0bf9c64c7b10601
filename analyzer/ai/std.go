package ai

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// stdSrc has functions of the standard library whose own source is assembly or works on machine
// words, written so that the domain can follow them. They are only interpreted, never executed.
const stdSrc = `package std

func Map(mapping func(rune) rune, s string) string {
	r := ""
	for _, c := range s {
		if m := mapping(c); m >= 0 {
			r += string(m)
		}
	}
	return r
}

func CountString(s string, c byte) (n int) {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return
}

func Count(b []byte, c byte) (n int) {
	for _, x := range b {
		if x == c {
			n++
		}
	}
	return
}

func IndexByte(b []byte, c byte) int {
	for i, x := range b {
		if x == c {
			return i
		}
	}
	return -1
}

func LastIndexByte(b []byte, c byte) int {
	for i := len(b) - 1; i >= 0; i-- {
		if b[i] == c {
			return i
		}
	}
	return -1
}

func LastIndexByteString(s string, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func Compare(a, b []byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] < b[i] {
			return -1
		}
		if a[i] > b[i] {
			return 1
		}
	}
	if len(a) < len(b) {
		return -1
	}
	if len(a) > len(b) {
		return 1
	}
	return 0
}
`

var stdNames = map[string]string{
	"strings.Map":                          "Map",
	"internal/bytealg.CountString":         "CountString",
	"internal/bytealg.Count":               "Count",
	"internal/bytealg.IndexByte":           "IndexByte",
	"bytes.IndexByte":                      "IndexByte",
	"internal/bytealg.LastIndexByte":       "LastIndexByte",
	"internal/bytealg.LastIndexByteString": "LastIndexByteString",
	"internal/bytealg.Compare":             "Compare",
	"bytes.Compare":                        "Compare",
}

func (p *Program) loadStd() error {
	sp, err := p.addSource("verif/std", "std.go", stdSrc)
	if err != nil {
		return fmt.Errorf("models of the standard library: %w", err)
	}
	p.std = map[string]*ssa.Function{}
	for k, n := range stdNames {
		p.std[k] = sp.Func(n)
	}
	return nil
}

// caseModel is strings.ToUpper or strings.ToLower, followed by its source where the text is not
// made of plain parts.
func caseModel(upper bool) model {
	conv := strings.ToLower
	if upper {
		conv = strings.ToUpper
	}
	return func(in *Interp, fr *frame, instr ssa.Instruction, fn *ssa.Function, args []Value) (Value, bool) {
		if a, ok := in.caseAlts(in.alts(args[0]), conv, fr.st.PC); ok {
			return a, true
		}
		v, out := in.callBody(fn, args, nil, fr.st)
		fr.st = out
		return v, out != nil
	}
}

func (in *Interp) caseAlts(a *Alts, conv func(string) string, g Node) (*Alts, bool) {
	var r []Alt
	for _, x := range in.prune(a, g) {
		s, ok := x.V.(*Str)
		if !ok {
			return nil, false
		}
		var segs []Seg
		for _, e := range s.Segs {
			switch y := e.(type) {
			case Lit:
				for k := 0; k < len(y); k++ {
					if y[k] >= 0x80 {
						return nil, false
					}
				}
				segs = append(segs, Lit(conv(string(y))))
			case Nest:
				n, ok := in.caseAlts(y.A, conv, in.B.And(g, x.G))
				if !ok {
					return nil, false
				}
				segs = append(segs, Nest{n})
			case Fmt:
				if _, ok := y.V.(*BV); !ok || y.Verb == "" {
					return nil, false
				}
				last := y.Verb[len(y.Verb)-1]
				if last == 'v' || last == 'd' || last == 'b' || last == 'o' {
					if w, _, ok := intInfo(y.Typ); !ok || w == 1 {
						return nil, false
					}
				} else if last == 'x' || last == 'X' {
					y.Verb = y.Verb[:len(y.Verb)-1] + conv("x")
				} else {
					return nil, false
				}
				segs = append(segs, y)
			default:
				return nil, false
			}
		}
		r = in.addAlt(r, x.G, &Str{Segs: normSegs(segs)})
	}
	return &Alts{r}, true
}
