package checks

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"verif/analyzer/ai"
)

// goChecks are the properties decided by more than a table.
var goChecks = map[string]func(c *Ctx){}

// Properties lists every property with a check.
func Properties() []string {
	m := map[string]bool{}
	if s, err := LoadSpecs(); err == nil {
		for k := range s {
			m[k] = true
		}
	}
	for k := range goChecks {
		m[k] = true
	}
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// known is a recorded genuine defect.
type known struct {
	typ, path string
	e         *Expr
	text      string
}

// loadKnown reads the recorded findings of a property. A line is
//
//	finding: property=P24 layout=<type> path=<path> actual=<expression> | description
func loadKnown(file, prop string) ([]known, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+prop+" ") {
			continue
		}
		i := strings.Index(l, " | ")
		j := strings.Index(l, " actual=")
		k := known{text: l[i+3:], e: ParseExpr(l[j+8 : i])}
		for _, w := range strings.Fields(l[:j]) {
			if strings.HasPrefix(w, "layout=") {
				k.typ = w[7:]
			}
			if strings.HasPrefix(w, "path=") {
				k.path = w[5:]
			}
		}
		out = append(out, k)
	}
	return out, nil
}

// Decide runs the check of a property.
func Decide(p *ai.Program, r *Report, thorough bool, knownFile string) {
	specs, err := LoadSpecs()
	if err != nil {
		r.Bad(Viol{Key: "spec", Rule: "spec", Detail: err.Error()})
		return
	}
	c := &Ctx{P: p, R: r, Specs: specs, Thorough: thorough}
	c.known, err = loadKnown(knownFile, r.Prop)
	if err != nil {
		r.Bad(Viol{Key: "known", Rule: "spec", Detail: err.Error()})
	}
	n := 0
	if s := specs[r.Prop]; s != nil {
		c.guard("tables", func() { c.Tables(s) })
		n++
	}
	if f := goChecks[r.Prop]; f != nil {
		c.guard("check", func() { f(c) })
		n++
	}
	if n == 0 {
		r.Bad(Viol{Key: "property", Rule: "spec", Detail: fmt.Sprintf("no check for %q", r.Prop)})
	}
	if r.Obl == 0 {
		r.Bad(Viol{Key: "vacuous", Rule: "vacuity", Detail: "no obligation was found"})
	}
	if min := floors[r.Prop]; r.Obl < min {
		r.Bad(Viol{Key: "floor", Rule: "vacuity", Detail: fmt.Sprintf("%d obligations, at least %d are known", r.Obl, min)})
	}
}

// Explain says what a check decides.
func Explain(id string) string { return explain[id] }

// Assumptions lists what a check takes for granted.
func Assumptions(id string) []string {
	return []string{"go/ssa of the build configuration of this machine, no build tags (thorough: again with GOARCH=386, a 32-bit int)", "floating point values are compared as real-number expressions of the input bits: a change of rounding alone is not a difference"}
}
