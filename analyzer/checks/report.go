package checks

import (
	"fmt"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

// Viol is one violated obligation.
type Viol struct {
	Key     string // rule + construct: stable over edits
	Rule    string
	Where   string // function or call site
	Detail  string
	Witness string
}

// Report collects the verdicts of one check.
type Report struct {
	mu      sync.Mutex
	Prop    string
	Viols   map[string]Viol
	Obl     int
	Done    int
	Counts  map[string]int
	Samples []string
	Funcs   map[string]bool
	Rules   map[string]int
	Known   []string
}

// NewReport makes an empty report.
func NewReport(p string) *Report {
	return &Report{Prop: p, Viols: map[string]Viol{}, Counts: map[string]int{}, Funcs: map[string]bool{}, Rules: map[string]int{}}
}

// Obligation records one decided obligation.
func (r *Report) Obligation(rule, what string, ok bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Obl++
	r.Rules[rule]++
	if ok {
		r.Done++
		if r.Rules[rule] <= 3 {
			r.Samples = append(r.Samples, rule+": "+what)
		}
	}
}

// Bad records a violation (one per key).
func (r *Report) Bad(v Viol) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if _, ok := r.Viols[v.Key]; !ok {
		r.Viols[v.Key] = v
	}
}

// Count adds to a counter.
func (r *Report) Count(k string, n int) {
	r.mu.Lock()
	r.Counts[k] += n
	r.mu.Unlock()
}

// Close stops every further recording for good.
func (r *Report) Close() { r.mu.Lock() }

// Most keeps the largest value of a counter.
func (r *Report) Most(k string, n int) {
	r.mu.Lock()
	if n > r.Counts[k] {
		r.Counts[k] = n
	}
	r.mu.Unlock()
}

// Seen records the analysed functions and reports the operations that panic.
func (r *Report) Seen(c *Ctx, in *ai.Interp) {
	c.faults(in)
	r.Analysed(c, in)
}

// Analysed records the analysed functions.
func (r *Report) Analysed(c *Ctx, in *ai.Interp) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for f := range in.FuncsSeen {
		if f.Name() == "init" && f.Synthetic != "" {
			continue
		}
		r.Funcs[c.fname(f)] = true
	}
}

// Add adds what a further pass over the same program found.
func (r *Report) Add(o *Report, pass string) {
	r.Obl += o.Obl
	r.Done += o.Done
	r.Counts["obligations "+pass] = o.Obl
	for _, v := range o.Viols {
		if _, ok := r.Viols[v.Key]; !ok {
			v.Key += "|" + pass
			v.Detail += " (" + pass + ")"
			r.Viols[v.Key] = v
		}
	}
	for f := range o.Funcs {
		r.Funcs[f] = true
	}
	for k, n := range o.Rules {
		r.Rules[k] += n
	}
}

// Sorted lists the violations by key.
func (r *Report) Sorted() []Viol {
	var ks []string
	for k := range r.Viols {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []Viol
	for _, k := range ks {
		out = append(out, r.Viols[k])
	}
	return out
}

// Ctx is the loaded program with the report.
type Ctx struct {
	P        *ai.Program
	R        *Report
	Specs    map[string]*Spec
	Thorough bool
	known    []known
	mu       sync.Mutex
	hit      map[string]bool
}

func (c *Ctx) fname(f *ssa.Function) string {
	s := f.String()
	return strings.ReplaceAll(s, c.P.Mod+"/", "")
}

// undecided turns the constructs that the domain could not follow into violations.
func (c *Ctx) undecided(in *ai.Interp, where string) {
	for _, u := range in.Undecided {
		c.R.Bad(Viol{Key: "undecided|" + u.Fn + "|" + u.What, Rule: "undecided", Where: where + " at " + c.rel(u.Pos.String()),
			Detail: "the analysis cannot follow: " + u.What + " in " + u.Fn})
	}
}

// faults reports the operations that can panic for an input the
// specification speaks about: the call then gives neither the result nor the
// error it must give.
func (c *Ctx) faults(in *ai.Interp) {
	for _, k := range ai.SortedObls(in.Obls) {
		ob := in.Obls[k]
		if ob.Failed == ai.F {
			continue
		}
		fn := strings.ReplaceAll(ob.Fn, c.P.Mod+"/", "")
		c.R.Bad(Viol{Key: "panic|" + ob.Kind + "|" + fn + "|" + ob.Detail, Rule: "panic/" + ob.Kind, Where: fn + " at " + c.rel(ob.Pos.String()),
			Detail: ob.Detail + ", reached by " + strings.ReplaceAll(ob.Stack, c.P.Mod+"/", ""), Witness: witness(in, ob.Failed, 0)})
	}
}

func (c *Ctx) rel(s string) string { return strings.TrimPrefix(s, c.P.Dir+"/") }

func (c *Ctx) guard(where string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			c.R.Bad(Viol{Key: "undecided|" + where, Rule: "undecided", Where: where, Detail: fmt.Sprintf("the analysis stopped: %v", r)})
		}
	}()
	f()
}

// AddKnown records that a known finding is still there.
func (r *Report) AddKnown(s string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, k := range r.Known {
		if k == s {
			return
		}
	}
	r.Known = append(r.Known, s)
}
