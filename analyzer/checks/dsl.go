// Package checks decides the properties of the repository: it evaluates the code with the
// abstract interpreter and compares the result with frozen tables (spec/*.spec).
package checks

import (
	"embed"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

//go:embed spec
var specFS embed.FS

// ---- syntax ----

// Expr is a parsed expression.
type Expr struct {
	Op   string // "num" "bits" "cat" "name" "call" "un" "bin" "cond" "in" "str"
	Text string
	Num  *big.Rat
	Lo   int
	Hi   int
	Args []*Expr
	Rng  [][2]int64
}

// FieldSpec is one line of a layout.
type FieldSpec struct {
	Path     string
	Kind     string // "eq" "opt" "is" "let" "coherent"
	E        *Expr
	Cond     *Expr
	Type     string
	Text     string
	Optional bool
}

// Layout is the meaning of the fields of a struct type.
type Layout struct {
	Type   string
	Fields []FieldSpec
	lets   map[string]*Expr
}

// Outcome is one possible success of an entry.
type Outcome struct {
	Type string
	Cond *Expr
	Text string
}

// Arg is a parameter of an entry.
type Arg struct {
	Name   string
	Len    int // -1: not a byte slice
	Strict bool
}

// Entry is an analysed function.
type Entry struct {
	Func   string
	Args   []Arg
	Shift  int
	Outs   []Outcome
	ErrOth bool
	Others bool // other outcomes are not looked at
	Assume *Expr
	defs   map[string]*Def
}

// Def is a named expression with parameters.
type Def struct {
	Params []string
	E      *Expr
}

// Spec is a parsed file.
type Spec struct {
	Property string
	Layouts  []*Layout
	Entries  []*Entry
	Defs     map[string]*Def
	Imports  []string
}

type parser struct {
	toks []string
	i    int
	src  string
}

func lex(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t':
			i++
		case c == '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			out = append(out, s[i:j+1])
			i = j + 1
		case unicode.IsLetter(rune(c)) || c == '_':
			j := i
			for j < len(s) && (unicode.IsLetter(rune(s[j])) || unicode.IsDigit(rune(s[j])) || s[j] == '_') {
				j++
			}
			// b5-9
			w := s[i:j]
			if len(w) > 1 && w[0] == 'b' && allDigits(w[1:]) && j < len(s) && s[j] == '-' {
				k := j + 1
				for k < len(s) && unicode.IsDigit(rune(s[k])) {
					k++
				}
				if k > j+1 {
					j = k
				}
			}
			out = append(out, s[i:j])
			i = j
		case unicode.IsDigit(rune(c)):
			j := i
			for j < len(s) && (unicode.IsDigit(rune(s[j])) || unicode.IsLetter(rune(s[j])) || (s[j] == '.' && j+1 < len(s) && unicode.IsDigit(rune(s[j+1])))) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		default:
			two := ""
			if i+1 < len(s) {
				two = s[i : i+2]
			}
			switch two {
			case "==", "!=", "<=", ">=", "&&", "||":
				out = append(out, two)
				i += 2
				continue
			}
			out = append(out, string(c))
			i++
		}
	}
	return out
}

func allDigits(s string) bool {
	for _, c := range s {
		if !unicode.IsDigit(c) {
			return false
		}
	}
	return s != ""
}

func (p *parser) peek() string {
	if p.i < len(p.toks) {
		return p.toks[p.i]
	}
	return ""
}

func (p *parser) next() string {
	t := p.peek()
	p.i++
	return t
}

func (p *parser) fail(f string, a ...interface{}) {
	panic(fmt.Errorf("spec: %s in %q", fmt.Sprintf(f, a...), p.src))
}

func (p *parser) expect(t string) {
	if p.next() != t {
		p.i--
		p.fail("expected %q, got %q", t, p.peek())
	}
}

// ParseExpr parses an expression.
func ParseExpr(s string) *Expr {
	p := &parser{toks: lex(s), src: s}
	e := p.cond()
	if p.i != len(p.toks) {
		p.fail("unexpected %q", p.peek())
	}
	return e
}

func (p *parser) cond() *Expr {
	c := p.bin(0)
	if p.peek() == "?" {
		p.next()
		a := p.cond()
		p.expect(":")
		b := p.cond()
		return &Expr{Op: "cond", Args: []*Expr{c, a, b}}
	}
	return c
}

var prec = map[string]int{"||": 1, "&&": 2, "==": 3, "!=": 3, "<": 3, "<=": 3, ">": 3, ">=": 3, "+": 4, "-": 4, "^": 4, "*": 5, "/": 5}

func (p *parser) bin(min int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		if t == "in" && min <= 3 {
			p.next()
			p.expect("(")
			e := &Expr{Op: "in", Args: []*Expr{l}}
			for {
				a := p.intLit()
				b := a
				if p.peek() == "-" {
					p.next()
					b = p.intLit()
				}
				e.Rng = append(e.Rng, [2]int64{a, b})
				if p.peek() != "," {
					break
				}
				p.next()
			}
			p.expect(")")
			l = e
			continue
		}
		q, ok := prec[t]
		if !ok || q <= min {
			return l
		}
		p.next()
		r := p.bin(q)
		l = &Expr{Op: "bin", Text: t, Args: []*Expr{l, r}}
	}
}

func (p *parser) intLit() int64 {
	v, err := strconv.ParseInt(p.next(), 0, 64)
	if err != nil {
		p.fail("%v", err)
	}
	return v
}

func (p *parser) unary() *Expr {
	t := p.next()
	switch {
	case t == "!" || t == "-":
		return &Expr{Op: "un", Text: t, Args: []*Expr{p.unary()}}
	case t == "(":
		e := p.cond()
		p.expect(")")
		return e
	case t == "[":
		e := &Expr{Op: "cat"}
		for p.peek() != "]" {
			e.Args = append(e.Args, p.unary())
		}
		p.next()
		return e
	case t == "":
		p.fail("unexpected end")
	case t[0] == '"':
		s, err := strconv.Unquote(t)
		if err != nil {
			p.fail("%v", err)
		}
		return &Expr{Op: "str", Text: s}
	case unicode.IsDigit(rune(t[0])):
		if strings.HasPrefix(t, "0x") {
			v, err := strconv.ParseInt(t, 0, 64)
			if err != nil {
				p.fail("%v", err)
			}
			return &Expr{Op: "num", Num: big.NewRat(v, 1), Text: t}
		}
		r, ok := new(big.Rat).SetString(t)
		if !ok {
			p.fail("bad number %q", t)
		}
		return &Expr{Op: "num", Num: r, Text: t}
	case t[0] == 'b' && len(t) > 1 && unicode.IsDigit(rune(t[1])):
		a := strings.SplitN(t[1:], "-", 2)
		lo, err := strconv.Atoi(a[0])
		if err != nil {
			p.fail("%v", err)
		}
		hi := lo
		if len(a) == 2 {
			hi, err = strconv.Atoi(a[1])
			if err != nil {
				p.fail("%v", err)
			}
		}
		return &Expr{Op: "bits", Lo: lo, Hi: hi}
	default:
		if p.peek() == "(" {
			p.next()
			e := &Expr{Op: "call", Text: t}
			for p.peek() != ")" {
				e.Args = append(e.Args, p.cond())
				if p.peek() == "," {
					p.next()
				}
			}
			p.next()
			return e
		}
		return &Expr{Op: "name", Text: t}
	}
	return nil
}

// ParseSpec parses a file.
func ParseSpec(name, src string) (s *Spec, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%s: %v", name, r)
		}
	}()
	s = &Spec{Defs: map[string]*Def{}}
	var lay *Layout
	var ent *Entry
	var lines []string
	for _, l := range strings.Split(src, "\n") {
		t := strings.TrimSpace(l)
		if i := strings.Index(t, "#"); i >= 0 && !strings.Contains(t, "\"") {
			t = strings.TrimSpace(t[:i])
		}
		if t == "" {
			continue
		}
		// a trailing backslash continues the line
		if n := len(lines); n > 0 && strings.HasSuffix(lines[n-1], "\\") {
			lines[n-1] = strings.TrimSuffix(lines[n-1], "\\") + " " + t
			continue
		}
		lines = append(lines, t)
	}
	for _, t := range lines {
		w := strings.Fields(t)
		rest := strings.TrimSpace(strings.TrimPrefix(t, w[0]))
		switch {
		case w[0] == "property":
			s.Property = w[1]
		case w[0] == "import":
			s.Imports = append(s.Imports, w[1:]...)
		case w[0] == "def":
			i := strings.Index(rest, "=")
			h := strings.TrimSpace(rest[:i])
			d := &Def{E: ParseExpr(rest[i+1:])}
			if j := strings.Index(h, "("); j >= 0 {
				for _, a := range strings.Split(strings.TrimSuffix(h[j+1:], ")"), ",") {
					d.Params = append(d.Params, strings.TrimSpace(a))
				}
				h = h[:j]
			}
			s.Defs[h] = d
		case w[0] == "layout":
			lay = &Layout{Type: w[1], lets: map[string]*Expr{}}
			ent = nil
			s.Layouts = append(s.Layouts, lay)
		case w[0] == "entry":
			ent = &Entry{}
			lay = nil
			i, j := strings.Index(rest, "("), strings.LastIndex(rest, ")")
			ent.Func = strings.TrimSpace(rest[:i])
			if strings.HasPrefix(ent.Func, "(") {
				return nil, fmt.Errorf("%s: bad entry %q", name, t)
			}
			for _, a := range strings.Split(rest[i+1:j], ",") {
				a = strings.TrimSpace(a)
				if a == "" {
					continue
				}
				g := Arg{Name: a, Len: -1}
				if strings.HasSuffix(a, "!") {
					g.Strict = true
					a = strings.TrimSuffix(a, "!")
				}
				if k := strings.Index(a, "["); k >= 0 {
					g.Name = a[:k]
					g.Len, err = strconv.Atoi(strings.TrimSuffix(a[k+1:], "]"))
					if err != nil {
						return nil, err
					}
				}
				ent.Args = append(ent.Args, g)
			}
			for k, q := range strings.Fields(rest[j+1:]) {
				_ = k
				if strings.HasPrefix(q, "shift=") {
					ent.Shift, _ = strconv.Atoi(q[6:])
				}
			}
			s.Entries = append(s.Entries, ent)
		case ent != nil && t == "error otherwise":
			ent.ErrOth = true
		case ent != nil && t == "others ignored":
			ent.Others = true
		case ent != nil && w[0] == "assume":
			ent.Assume = ParseExpr(rest)
		case ent != nil && len(w) > 2 && w[1] == "when":
			ent.Outs = append(ent.Outs, Outcome{w[0], ParseExpr(strings.TrimSpace(rest[4:])), t})
		case lay != nil && w[0] == "let":
			i := strings.Index(rest, "=")
			lay.lets[strings.TrimSpace(rest[:i])] = ParseExpr(rest[i+1:])
		case lay != nil && len(w) > 4 && w[1] == "is" && w[3] == "when":
			lay.Fields = append(lay.Fields, FieldSpec{Path: w[0], Kind: "is", Type: w[2], Cond: ParseExpr(strings.Join(w[4:], " ")), Text: t})
		case lay != nil && strings.Contains(t, "?="):
			i := strings.Index(t, "?=")
			r := t[i+2:]
			k := strings.Index(r, " : ")
			lay.Fields = append(lay.Fields, FieldSpec{Path: strings.TrimSpace(t[:i]), Kind: "opt", Cond: ParseExpr(r[:k]), E: ParseExpr(r[k+3:]), Text: t})
		case lay != nil && strings.Contains(t, "="):
			i := strings.Index(t, "=")
			path := strings.TrimSpace(t[:i])
			k := "eq"
			if path == "coherent" {
				k = "coherent"
			}
			opt := strings.HasSuffix(path, "?")
			path = strings.TrimSuffix(path, "?")
			lay.Fields = append(lay.Fields, FieldSpec{Path: path, Kind: k, E: ParseExpr(t[i+1:]), Text: t, Optional: opt})
		default:
			return nil, fmt.Errorf("%s: cannot parse %q", name, t)
		}
	}
	for _, e := range s.Entries {
		e.defs = s.Defs
	}
	return s, nil
}

// LoadSpecs parses every embedded layout file, merged by property.
func LoadSpecs() (map[string]*Spec, error) {
	out := map[string]*Spec{}
	es, err := specFS.ReadDir("spec")
	if err != nil {
		return nil, err
	}
	sort.Slice(es, func(i, j int) bool { return es[i].Name() < es[j].Name() })
	for _, e := range es {
		if !strings.HasSuffix(e.Name(), ".spec") {
			continue
		}
		b, err := specFS.ReadFile("spec/" + e.Name())
		if err != nil {
			return nil, err
		}
		s, err := ParseSpec(e.Name(), string(b))
		if err != nil {
			return nil, err
		}
		if out[s.Property] != nil {
			return nil, fmt.Errorf("two files for %s", s.Property)
		}
		out[s.Property] = s
	}
	return out, nil
}
