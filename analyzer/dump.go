package main

import (
	"fmt"
	"os"
	"sort"
	"time"

	"go/types"
	"verif/analyzer/ai"
)

func dump(names []string) {
	p, err := ai.Load(repoDir())
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	t := time.Now()
	in := p.NewInterp()
	fmt.Println("init", time.Since(t), len(in.Undecided))
	for _, u := range in.Undecided {
		fmt.Println(u)
	}
	flen := 7
	if v := os.Getenv("LEN"); v != "" {
		fmt.Sscan(v, &flen)
	}
	for _, name := range names {
		t = time.Now()
		fn := p.Func(name)
		if fn == nil {
			fmt.Println("no", name)
			continue
		}
		st := in.NewState()
		var args []ai.Value
		for _, pr := range fn.Params {
			if s, ok := pr.Type().Underlying().(*types.Slice); ok {
				args = append(args, in.FreshSlice(s.Elem(), "in", st, flen, "input"))
			} else {
				args = append(args, in.Fresh(pr.Type(), pr.Name(), st, true))
			}
		}
		var v ai.Value
		err := ai.Guard(func() { v, st = in.CallFn(fn, args, st) })
		fmt.Println("==", name, err, time.Since(t), "bdd", in.B.Size())
		if err != nil || st == nil {
			continue
		}
		fmt.Println("pc", in.B.String(st.PC))
		show(in, st, v, st.PC, "", 0)
		for _, k := range ai.SortedObls(in.Obls) {
			o := in.Obls[k]
			if o.Failed != ai.F {
				fmt.Println("FAIL", o.Kind, o.Fn, o.Pos, o.Detail, o.Stack)
			}
		}
		for _, e := range in.Effects {
			fmt.Println("EFFECT", e.Kind, e.Fn, e.Pos, e.What)
		}
		for _, u := range in.Undecided {
			fmt.Println("UNDECIDED", u)
		}
	}
}

func show(in *ai.Interp, st *ai.State, v ai.Value, g ai.Node, pre string, depth int) {
	switch x := v.(type) {
	case *ai.Agg:
		for i, e := range x.Elems {
			show(in, st, e, g, fmt.Sprintf("%s.%d", pre, i), depth)
		}
	case *ai.Alts:
		for _, a := range in.Prune(x, g) {
			switch y := a.V.(type) {
			case ai.PtrA:
				if y.Obj != 0 {
					fmt.Println(pre, "PTR if", cubes(in, in.B.Simplify(a.G, g)))
					showT(in, st, in.Deref(st, y), in.Objs[y.Obj].Typ, a.G, pre+"  ")
					continue
				}
			case ai.IfaceA:
				if y.Typ != nil {
					if _, ok := y.Typ.(*types.Named); ok || true {
						fmt.Println(pre, "IFACE", y.Typ, "if", cubes(in, in.B.Simplify(a.G, g)))
						show(in, st, y.V, a.G, pre, depth+1)
						continue
					}
				}
			}
			fmt.Println(pre, cubes(in, in.B.Simplify(a.G, g)), "?", in.DescribeAtom(a.V, a.G))
		}
	default:
		fmt.Println(pre, in.Describe(v, g))
	}
}

func showT(in *ai.Interp, st *ai.State, v ai.Value, t types.Type, g ai.Node, pre string) {
	if s, ok := t.Underlying().(*types.Struct); ok {
		a := v.(*ai.Agg)
		for i := 0; i < s.NumFields(); i++ {
			showT(in, st, a.Elems[i], s.Field(i).Type(), g, pre+"."+s.Field(i).Name())
		}
		return
	}
	if al, ok := v.(*ai.Alts); ok {
		for _, a := range in.Prune(al, g) {
			if p, ok := a.V.(ai.PtrA); ok && p.Obj != 0 {
				showT(in, st, in.Deref(st, p), in.Objs[p.Obj].Typ, a.G, pre)
				continue
			}
			fmt.Println(pre, cubes(in, in.B.Simplify(a.G, g)), "?", in.DescribeAtom(a.V, a.G))
		}
		return
	}
	fmt.Println(pre, in.Describe(v, g))
}

func cubes(in *ai.Interp, n ai.Node) string {
	out := ""
	k := 0
	for n != ai.F && k < 6 {
		m := in.B.SatOne(n)
		c := ai.T
		s := ""
		var vs []int
		for v := range m {
			vs = append(vs, v)
		}
		sort.Ints(vs)
		for _, v := range vs {
			lit := in.B.VarNode(v)
			if m[v] {
				s += " " + in.B.Name(v)
			} else {
				s += " !" + in.B.Name(v)
				lit = in.B.Not(lit)
			}
			c = in.B.And(c, lit)
		}
		out += "(" + s + ")"
		n = in.B.Diff(n, c)
		k++
	}
	if n != ai.F {
		out += "..."
	}
	return out
}

func repoDir() string {
	if d := os.Getenv("REPO"); d != "" {
		return d
	}
	return "/repo"
}
