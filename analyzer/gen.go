package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"verif/analyzer/ai"
)

// gen30 prints the text of every code of every coded type, as a first draft of the reviewed
// table spec/P30.codes. No check uses it.
func gen30() {
	p, err := ai.Load("/repo")
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	for _, sp := range p.SP {
		sc := sp.Pkg.Scope()
		for _, n := range sc.Names() {
			o, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || o.IsAlias() {
				continue
			}
			w, _, ok := ai.IntInfo(o.Type())
			if !ok {
				continue
			}
			in := p.NewInterp()
			for _, m := range []string{"ToString", "GetCode"} {
				fn := in.Method(o.Type(), m)
				if fn == nil {
					continue
				}
				st := in.NewState()
				recv := in.Fresh(o.Type(), "v", nil, false).(*ai.BV)
				v, st2 := in.CallFn(fn, []ai.Value{recv}, st)
				fmt.Printf("type %s %d %s\n", strings.TrimPrefix(p.Rel(sp.Pkg.Path()), "pkg/")+"."+n, w, m)
				al, ok := v.(*ai.Alts)
				if !ok || st2 == nil {
					fmt.Println("  ? not text")
					continue
				}
				type row struct {
					k int64
					s string
				}
				var rows []row
				rest := map[string]int{}
				for _, a := range in.Prune(al, st2.PC) {
					ks, gs, ok := in.Feasible(recv, a.G, 64)
					d := in.DescribeAtom(a.V, a.G)
					if !ok {
						rest[d]++
						continue
					}
					for i, k := range ks {
						rows = append(rows, row{k, in.DescribeAtom(a.V, gs[i])})
					}
				}
				sort.Slice(rows, func(i, j int) bool { return rows[i].k < rows[j].k })
				for _, r := range rows {
					fmt.Printf("  %d %s\n", r.k, r.s)
				}
				for d := range rest {
					fmt.Printf("  else %s\n", d)
				}
			}
		}
	}
}

// gen31 lists the struct types with a ToString method.
func gen31() {
	p, err := ai.Load("/repo")
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	for _, sp := range p.SP {
		sc := sp.Pkg.Scope()
		for _, n := range sc.Names() {
			o, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || o.IsAlias() {
				continue
			}
			in := p.NewInterp()
			if _, _, isInt := ai.IntInfo(o.Type()); isInt {
				continue
			}
			if _, isI := o.Type().Underlying().(*types.Interface); isI {
				continue
			}
			var fn = in.Method(o.Type(), "ToString")
			ptr := ""
			if fn == nil {
				fn = in.Method(types.NewPointer(o.Type()), "ToString")
				ptr = "*"
			}
			if fn == nil {
				continue
			}
			fmt.Printf("%s %s%s %s\n", strings.TrimPrefix(p.Rel(sp.Pkg.Path()), "pkg/")+"."+n, ptr, o.Type().Underlying(), fn)
		}
	}
}
