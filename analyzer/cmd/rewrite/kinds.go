package main

import (
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
)

// lists calls f on every statement list and replaces it by the result.
func (r *rw) lists(f func(l []ast.Stmt) []ast.Stmt) {
	r.post(func(c *astutil.Cursor) {
		switch x := c.Node().(type) {
		case *ast.BlockStmt:
			x.List = f(x.List)
		case *ast.CaseClause:
			x.Body = f(x.Body)
		}
	})
	r.funcs(func(d *ast.FuncDecl) {
		r.sig = []*ast.FuncType{d.Type}
		d.Body.List = f(d.Body.List)
	})
}

// listsOnce is lists, the body of each function once.
func (r *rw) listsOnce(f func(l []ast.Stmt) []ast.Stmt) {
	seen := map[*ast.BlockStmt]bool{}
	do := func(x *ast.BlockStmt) {
		if !seen[x] {
			seen[x] = true
			x.List = f(x.List)
		}
	}
	r.post(func(c *astutil.Cursor) {
		switch x := c.Node().(type) {
		case *ast.BlockStmt:
			do(x)
		case *ast.CaseClause:
			x.Body = f(x.Body)
		}
	})
	r.funcs(func(d *ast.FuncDecl) {
		r.sig = []*ast.FuncType{d.Type}
		do(d.Body)
	})
}

type verb struct {
	text string // the text before the verb
	v    string // the verb, empty at the end
}

// verbs splits a format.
func verbs(f string) ([]verb, bool) {
	var out []verb
	cur := ""
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			cur += f[i : i+1]
			continue
		}
		j := i + 1
		for j < len(f) && strings.ContainsRune("-+# 0123456789.", rune(f[j])) {
			j++
		}
		if j == len(f) || f[j] == '*' || f[j] == '[' {
			return nil, false
		}
		if f[j] == '%' {
			return nil, false
		}
		out = append(out, verb{cur, f[i : j+1]})
		cur, i = "", j
	}
	return append(out, verb{cur, ""}), true
}

// sprintf gives the parts of a call of Sprintf.
func (r *rw) sprintf(n ast.Node) ([]verb, []ast.Expr, bool) {
	c, ok := n.(*ast.CallExpr)
	if !ok || r.callee(c) != "fmt.Sprintf" || c.Ellipsis != 0 {
		return nil, nil, false
	}
	f, ok := r.strConst(c.Args[0])
	if !ok {
		return nil, nil, false
	}
	vs, ok := verbs(f)
	if !ok || len(vs)-1 != len(c.Args)-1 {
		return nil, nil, false
	}
	return vs, c.Args[1:], true
}

func hasMethods(t types.Type) bool {
	for _, n := range []string{"String", "Error", "Format", "GoString"} {
		if o, _, _ := types.LookupFieldOrMethod(t, true, nil, n); o != nil {
			return true
		}
	}
	return false
}

func concat(xs []ast.Expr) ast.Expr {
	x := xs[0]
	for _, y := range xs[1:] {
		x = &ast.BinaryExpr{X: x, Op: token.ADD, Y: par(y)}
	}
	return x
}

func init() {
	kinds["switch-if"] = func(r *rw) {
		r.post(func(c *astutil.Cursor) {
			s, ok := c.Node().(*ast.SwitchStmt)
			if !ok || s.Init != nil || s.Tag == nil || branches(s) {
				return
			}
			if _, ok := c.Parent().(*ast.LabeledStmt); ok {
				return
			}
			n := r.name("tag")
			var def ast.Stmt
			type arm struct {
				c ast.Expr
				b *ast.BlockStmt
			}
			var arms []arm
			for _, st := range s.Body.List {
				cc := st.(*ast.CaseClause)
				b := blockOf(cc.Body...)
				if cc.List == nil {
					def = b
					continue
				}
				var x ast.Expr
				for _, e := range cc.List {
					y := bin(id(n), token.EQL, e)
					if x == nil {
						x = y
					} else {
						x = bin(x, token.LOR, y)
					}
				}
				arms = append(arms, arm{x, b})
			}
			if len(arms) == 0 {
				return
			}
			var out = def
			for k := len(arms) - 1; k >= 0; k-- {
				out = &ast.IfStmt{Cond: arms[k].c, Body: arms[k].b, Else: out}
			}
			r.n++
			c.Replace(blockOf(define(n, s.Tag), out))
		})
	}
	kinds["if-switch"] = func(r *rw) {
		r.post(func(c *astutil.Cursor) {
			s, ok := c.Node().(*ast.IfStmt)
			if !ok || s.Init != nil || branches(s) {
				return
			}
			if p, ok := c.Parent().(*ast.IfStmt); ok && p.Else == s {
				return
			}
			var cl []ast.Stmt
			var cur ast.Stmt = s
			for cur != nil {
				if i, ok := cur.(*ast.IfStmt); ok && i.Init == nil {
					cl = append(cl, &ast.CaseClause{List: []ast.Expr{i.Cond}, Body: i.Body.List})
					cur = i.Else
					continue
				}
				if b, ok := cur.(*ast.BlockStmt); ok {
					cl = append(cl, &ast.CaseClause{Body: b.List})
				} else {
					cl = append(cl, &ast.CaseClause{Body: []ast.Stmt{cur}})
				}
				cur = nil
			}
			r.n++
			c.Replace(&ast.SwitchStmt{Body: blockOf(cl...)})
		})
	}
	kinds["invert"] = func(r *rw) {
		r.post(func(c *astutil.Cursor) {
			s, ok := c.Node().(*ast.IfStmt)
			if !ok || s.Else == nil {
				return
			}
			b, ok := s.Else.(*ast.BlockStmt)
			if !ok {
				b = blockOf(s.Else)
			}
			s.Cond, s.Body, s.Else = not(s.Cond), b, s.Body
			r.n++
		})
	}
	kinds["invert-return"] = func(r *rw) { // if c { return } rest  ->  if !c { rest } else { return }
		r.listsOnce(func(l []ast.Stmt) []ast.Stmt {
			if !ends(l) {
				return l
			}
			for k := len(l) - 2; k >= 0; k-- {
				s, ok := l[k].(*ast.IfStmt)
				if !ok || s.Else != nil || s.Init != nil || !ends(s.Body.List) {
					continue
				}
				r.n++
				rest := append([]ast.Stmt{}, l[k+1:]...)
				l = append(append([]ast.Stmt{}, l[:k]...), &ast.IfStmt{Cond: not(s.Cond), Body: blockOf(rest...), Else: s.Body})
			}
			return l
		})
	}
	kinds["else-return"] = func(r *rw) {
		r.listsOnce(func(l []ast.Stmt) []ast.Stmt {
			if !ends(l) {
				return l
			}
			for k := len(l) - 2; k >= 0; k-- {
				s, ok := l[k].(*ast.IfStmt)
				if !ok || s.Else != nil || !ends(s.Body.List) {
					continue
				}
				r.n++
				s.Else = blockOf(append([]ast.Stmt{}, l[k+1:]...)...)
				l = l[:k+1]
			}
			return l
		})
	}
	kinds["drop-else"] = func(r *rw) { // if c { return } else { X }  ->  if c { return } X
		r.listsOnce(func(l []ast.Stmt) []ast.Stmt {
			for {
				n := len(l)
				if n == 0 {
					return l
				}
				s, ok := l[n-1].(*ast.IfStmt)
				if !ok || s.Else == nil || s.Init != nil || !ends(s.Body.List) {
					return l
				}
				e := s.Else
				s.Else = nil
				r.n++
				if b, ok := e.(*ast.BlockStmt); ok {
					return append(l, b.List...)
				}
				l = append(l, e)
			}
		})
	}
	kinds["return-vars"] = func(r *rw) {
		r.lists0(func(s ast.Stmt) []ast.Stmt {
			x, ok := s.(*ast.ReturnStmt)
			ts := r.results()
			if !ok || len(x.Results) == 0 || len(x.Results) != len(ts) {
				return nil
			}
			var out []ast.Stmt
			var names []ast.Expr
			for k, e := range x.Results {
				n := r.name("res")
				out = append(out, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(n)}, Type: ts[k], Values: []ast.Expr{e}}}}})
				names = append(names, id(n))
			}
			r.n++
			return append(out, ret(names...))
		})
	}
	kinds["single-exit"] = func(r *rw) { // results assigned, one return at the end
		r.funcs(func(d *ast.FuncDecl) {
			r.sig = []*ast.FuncType{d.Type}
			ts := r.results()
			if len(ts) == 0 || d.Type.Results.List[0].Names != nil || !ends(d.Body.List) {
				return
			}
			if has(d.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.FuncLit, *ast.ForStmt, *ast.RangeStmt:
					return true
				case *ast.ReturnStmt:
					return len(x.Results) != len(ts)
				}
				return false
			}) {
				return
			}
			var names []ast.Expr
			var decl []ast.Stmt
			for _, t := range ts {
				n := r.name("out")
				names = append(names, id(n))
				decl = append(decl, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(n)}, Type: t}}}})
			}
			good := true
			var nest func(l []ast.Stmt) []ast.Stmt
			nest = func(l []ast.Stmt) []ast.Stmt {
				for k, s := range l {
					switch x := s.(type) {
					case *ast.ReturnStmt:
						return append(append([]ast.Stmt{}, l[:k]...), &ast.AssignStmt{Lhs: names, Tok: token.ASSIGN, Rhs: x.Results})
					case *ast.IfStmt:
						if !has(x, func(n ast.Node) bool { _, ok := n.(*ast.ReturnStmt); return ok }) {
							continue
						}
						rest := l[k+1:]
						if ends(x.Body.List) {
							y := &ast.IfStmt{Init: x.Init, Cond: x.Cond, Body: blockOf(nest(x.Body.List)...)}
							if x.Else != nil {
								var e []ast.Stmt
								if b, ok := x.Else.(*ast.BlockStmt); ok {
									e = append(e, b.List...)
								} else {
									e = append(e, x.Else)
								}
								y.Else = blockOf(nest(append(e, rest...))...)
							} else {
								y.Else = blockOf(nest(rest)...)
							}
							return append(append([]ast.Stmt{}, l[:k]...), y)
						}
						good = false
					case *ast.SwitchStmt:
						if !has(x, func(n ast.Node) bool { _, ok := n.(*ast.ReturnStmt); return ok }) {
							continue
						}
						if k != len(l)-1 {
							def := false
							for _, c := range x.Body.List {
								def = def || c.(*ast.CaseClause).List == nil
								if !ends(c.(*ast.CaseClause).Body) {
									good = false
								}
							}
							if def {
								good = false
							} else {
								x.Body.List = append(x.Body.List, &ast.CaseClause{Body: l[k+1:]})
							}
						}
						for _, c := range x.Body.List {
							cc := c.(*ast.CaseClause)
							cc.Body = nest(cc.Body)
						}
						return l[:k+1]
					}
				}
				return l
			}
			save := d.Body.List
			l := nest(d.Body.List)
			if !good {
				d.Body.List = save
				return
			}
			r.n++
			d.Body.List = append(append(decl, l...), ret(names...))
		})
	}
	kinds["fields"] = func(r *rw) { // &T{K: v} -> m := &T{}; m.K = v
		r.lists0(func(s ast.Stmt) []ast.Stmt {
			x, ok := s.(*ast.ReturnStmt)
			if !ok || len(x.Results) == 0 {
				return nil
			}
			ptr := false
			e := x.Results[0]
			if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.AND {
				e, ptr = u.X, true
			}
			cl, ok := e.(*ast.CompositeLit)
			if !ok || len(cl.Elts) == 0 {
				return nil
			}
			if _, ok := r.typeOf(cl).Underlying().(*types.Struct); !ok {
				return nil
			}
			n := r.name("m")
			var init ast.Expr = &ast.CompositeLit{Type: cl.Type}
			if ptr {
				init = call("new", cl.Type)
			}
			out := []ast.Stmt{define(n, init)}
			for _, el := range cl.Elts {
				kv, ok := el.(*ast.KeyValueExpr)
				if !ok {
					return nil
				}
				out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{&ast.SelectorExpr{X: id(n), Sel: kv.Key.(*ast.Ident)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{kv.Value}})
			}
			r.n++
			return append(out, ret(append([]ast.Expr{id(n)}, x.Results[1:]...)...))
		})
	}
	kinds["mask-shift"] = func(r *rw) {
		r.post(func(c *astutil.Cursor) {
			s, ok := c.Node().(*ast.BinaryExpr)
			if !ok || s.Op != token.SHR {
				return
			}
			p, ok := s.X.(*ast.ParenExpr)
			if !ok {
				return
			}
			a, ok := p.X.(*ast.BinaryExpr)
			if !ok || a.Op != token.AND {
				return
			}
			m, ok1 := r.intConst(a.Y)
			k, ok2 := r.intConst(s.Y)
			if !ok1 || !ok2 {
				return
			}
			r.n++
			c.Replace(&ast.ParenExpr{X: bin(bin(a.X, token.SHR, s.Y), token.AND, num(m>>uint(k)))})
		})
	}
	kinds["test-bit"] = func(r *rw) {
		r.post(func(c *astutil.Cursor) {
			s, ok := c.Node().(*ast.BinaryExpr)
			if !ok || (s.Op != token.NEQ && s.Op != token.EQL) {
				return
			}
			z, ok := r.intConst(s.Y)
			if !ok || z != 0 || !isBasic(r.typeOf(s.X), types.IsUnsigned) {
				return
			}
			r.n++
			x := s.X
			if p, ok := x.(*ast.ParenExpr); ok {
				x = p.X
			}
			if a, ok := x.(*ast.BinaryExpr); ok && a.Op == token.AND {
				if m, ok := r.intConst(a.Y); ok && m > 0 && m&(m-1) == 0 {
					op := token.EQL
					if s.Op == token.EQL {
						op = token.NEQ
					}
					c.Replace(bin(s.X, op, a.Y))
					return
				}
			}
			if s.Op == token.NEQ {
				c.Replace(bin(s.X, token.GTR, s.Y))
			} else {
				c.Replace(bin(s.X, token.LSS, num(1)))
			}
		})
	}
	kinds["closure"] = func(r *rw) {
		r.funcs(func(d *ast.FuncDecl) {
			if d.Type.Results != nil && len(d.Type.Results.List) > 0 && d.Type.Results.List[0].Names != nil {
				return
			}
			r.n++
			l := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: d.Type.Results}, Body: d.Body}
			if d.Type.Results == nil || len(d.Type.Results.List) == 0 {
				d.Body = blockOf(&ast.ExprStmt{X: &ast.CallExpr{Fun: l}})
			} else {
				d.Body = blockOf(define("run", l), ret(call("run")))
			}
		})
	}
	kinds["sentinel"] = func(r *rw) {
		r.post(func(c *astutil.Cursor) {
			x, ok := c.Node().(*ast.CallExpr)
			if !ok || len(x.Args) != 1 || (r.callee(x) != "errors.New" && r.callee(x) != "fmt.Errorf") {
				return
			}
			if _, ok := r.strConst(x.Args[0]); !ok {
				return
			}
			n := r.name("err")
			r.add = append(r.add, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(n)}, Values: []ast.Expr{x}}}})
			r.n++
			c.Replace(id(n))
		})
	}
	kinds["sprintf-lines"] = func(r *rw) {
		r.post(func(c *astutil.Cursor) {
			vs, args, ok := r.sprintf(c.Node())
			if !ok || len(vs) < 3 {
				return
			}
			var out []ast.Expr
			for k, v := range vs {
				if v.v == "" {
					if v.text != "" {
						out = append(out, str(v.text))
					}
					continue
				}
				out = append(out, call("fmt.Sprintf", str(v.text+v.v), args[k]))
			}
			r.n++
			c.Replace(&ast.ParenExpr{X: concat(out)})
		})
	}
	kinds["sprintf-builder"] = func(r *rw) {
		r.post(func(c *astutil.Cursor) {
			vs, args, ok := r.sprintf(c.Node())
			if !ok || len(vs) < 3 {
				return
			}
			n := r.name("sb")
			l := []ast.Stmt{&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(n)}, Type: &ast.SelectorExpr{X: id("strings"), Sel: id("Builder")}}}}}}
			for k, v := range vs {
				if v.v == "" {
					if v.text != "" {
						l = append(l, &ast.ExprStmt{X: call(n+".WriteString", str(v.text))})
					}
					continue
				}
				l = append(l, &ast.ExprStmt{X: call("fmt.Fprintf", &ast.UnaryExpr{Op: token.AND, X: id(n)}, str(v.text+v.v), args[k])})
			}
			l = append(l, ret(call(n+".String")))
			r.n++
			r.imps["strings"] = true
			c.Replace(closure(id("string"), l...))
		})
	}
	kinds["sprintf-join"] = func(r *rw) {
		r.post(func(c *astutil.Cursor) {
			vs, args, ok := r.sprintf(c.Node())
			if !ok || len(vs) < 3 {
				return
			}
			var out []ast.Expr
			for k, v := range vs {
				if v.v == "" {
					out = append(out, str(v.text))
					continue
				}
				out = append(out, call("fmt.Sprintf", str(v.text+v.v), args[k]))
			}
			r.n++
			r.imps["strings"] = true
			c.Replace(call("strings.Join", &ast.CompositeLit{Type: id("[]string"), Elts: out}, str("")))
		})
	}
	kinds["sprintf-concat"] = func(r *rw) { // strings are added, other values printed one by one
		r.post(func(c *astutil.Cursor) {
			vs, args, ok := r.sprintf(c.Node())
			if !ok {
				return
			}
			var out []ast.Expr
			put := func(x ast.Expr) { out = append(out, x) }
			for k, v := range vs {
				if v.text != "" || k == 0 {
					put(str(v.text))
				}
				if v.v == "" {
					continue
				}
				t := r.typeOf(args[k])
				switch {
				case (v.v == "%v" || v.v == "%s") && isBasic(t, types.IsString) && !hasMethods(t):
					if _, ok := t.(*types.Named); ok {
						put(call("string", args[k]))
					} else {
						put(par(args[k]))
					}
				case (v.v == "%v" || v.v == "%d") && isBasic(t, types.IsInteger) && !hasMethods(t):
					r.imps["strconv"] = true
					put(call("strconv.FormatInt", call("int64", args[k]), num(10)))
				case (v.v == "%v" || v.v == "%t") && isBasic(t, types.IsBoolean) && !hasMethods(t):
					r.imps["strconv"] = true
					put(call("strconv.FormatBool", args[k]))
				default:
					put(call("fmt.Sprint", args[k]))
					if v.v != "%v" {
						out[len(out)-1] = call("fmt.Sprintf", str(v.v), args[k])
					}
				}
			}
			r.n++
			c.Replace(&ast.ParenExpr{X: concat(out)})
		})
	}
	kinds["verbs"] = func(r *rw) {
		r.post(func(c *astutil.Cursor) {
			vs, args, ok := r.sprintf(c.Node())
			if !ok || len(args) == 0 {
				return
			}
			f := ""
			for k, v := range vs {
				f += v.text
				if v.v == "%v" {
					t := r.typeOf(args[k])
					switch {
					case hasMethods(t):
					case isBasic(t, types.IsInteger):
						v.v = "%d"
					case isBasic(t, types.IsString):
						v.v = "%s"
					case isBasic(t, types.IsBoolean):
						v.v = "%t"
					case isBasic(t, types.IsFloat):
						v.v = "%g"
					}
				}
				f += v.v
			}
			r.n++
			c.Node().(*ast.CallExpr).Args[0] = str(f)
		})
	}
	table := func(array bool) func(r *rw) {
		return func(r *rw) {
			r.lists(func(l []ast.Stmt) []ast.Stmt {
				for k, st := range l {
					s, ok := st.(*ast.SwitchStmt)
					if !ok || s.Init != nil || s.Tag == nil || !r.pure(s.Tag) {
						continue
					}
					t := r.typeOf(s.Tag)
					te, ok := r.typeExpr(t)
					if !ok || !isBasic(t, types.IsInteger) {
						continue
					}
					var def []ast.Stmt
					good := true
					var elts []ast.Expr
					for _, c := range s.Body.List {
						cc := c.(*ast.CaseClause)
						if cc.List == nil {
							def = cc.Body
							continue
						}
						var v ast.Expr
						if len(cc.Body) == 1 {
							if x, ok := cc.Body[0].(*ast.ReturnStmt); ok && len(x.Results) == 1 {
								if s, ok := r.strConst(x.Results[0]); ok && s != "" {
									v = str(s)
								}
							}
						}
						if v == nil {
							good = false
							break
						}
						for _, e := range cc.List {
							n, ok := r.intConst(e)
							good = good && ok && (!array || n >= 0 && n < 4000)
							if array {
								e = num(n)
							}
							elts = append(elts, &ast.KeyValueExpr{Key: e, Value: v})
						}
					}
					if !good || len(elts) < 2 {
						continue
					}
					n := r.name("names")
					typ := ast.Expr(&ast.MapType{Key: te, Value: id("string")})
					if array {
						typ = id("[...]string")
					}
					r.add = append(r.add, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(n)}, Values: []ast.Expr{&ast.CompositeLit{Type: typ, Elts: elts}}}}})
					v, okn := r.name("text"), r.name("ok")
					var out []ast.Stmt
					if array {
						x := bin(call("int64", s.Tag), token.LSS, call("int64", call("len", id(n))))
						if !isBasic(t, types.IsUnsigned) {
							x = bin(bin(s.Tag, token.GEQ, num(0)), token.LAND, x)
						}
						ix := &ast.IndexExpr{X: id(n), Index: s.Tag}
						out = append(out, &ast.IfStmt{Cond: bin(x, token.LAND, bin(ix, token.NEQ, str(""))), Body: blockOf(ret(ix))})
					} else {
						out = append(out, &ast.IfStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{id(v), id(okn)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: id(n), Index: s.Tag}}}, Cond: id(okn), Body: blockOf(ret(id(v)))})
					}
					r.n++
					out = append(append([]ast.Stmt{}, l[:k]...), out...)
					return append(append(out, def...), l[k+1:]...)
				}
				return l
			})
		}
	}
	kinds["switch-map"] = table(false)
	kinds["switch-array"] = table(true)
	kinds["extract-cond"] = func(r *rw) {
		r.post(func(c *astutil.Cursor) {
			s, ok := c.Node().(*ast.IfStmt)
			if !ok || s.Init != nil {
				return
			}
			if x := r.extract(s.Cond); x != nil {
				s.Cond = x
				r.n++
			}
		})
	}
	kinds["extract-value"] = func(r *rw) {
		r.post(func(c *astutil.Cursor) {
			s, ok := c.Node().(*ast.KeyValueExpr)
			if !ok {
				return
			}
			if _, ok := s.Value.(*ast.Ident); ok {
				return
			}
			if x := r.extract(s.Value); x != nil {
				s.Value = x
				r.n++
			}
		})
	}
	kinds["extract-rhs"] = func(r *rw) {
		r.post(func(c *astutil.Cursor) {
			s, ok := c.Node().(*ast.AssignStmt)
			if !ok || len(s.Rhs) != 1 || len(s.Lhs) != 1 {
				return
			}
			if x := r.extract(s.Rhs[0]); x != nil {
				s.Rhs[0] = x
				r.n++
			}
		})
	}
	kinds["extract-return"] = func(r *rw) {
		r.post(func(c *astutil.Cursor) {
			s, ok := c.Node().(*ast.ReturnStmt)
			if !ok {
				return
			}
			for k, e := range s.Results {
				if _, ok := e.(*ast.Ident); ok {
					continue
				}
				if len(s.Results) != len(r.results()) {
					continue
				}
				if x := r.extract(e); x != nil {
					s.Results[k] = x
					r.n++
				}
			}
		})
	}
	kinds["range-index"] = func(r *rw) {
		r.post(func(c *astutil.Cursor) {
			s, ok := c.Node().(*ast.RangeStmt)
			if !ok || s.Tok != token.DEFINE {
				return
			}
			switch r.typeOf(s.X).Underlying().(type) {
			case *types.Slice, *types.Array:
			default:
				return
			}
			if _, ok := s.X.(*ast.Ident); !ok {
				return
			}
			k := r.name("k")
			var pre []ast.Stmt
			if i, ok := s.Key.(*ast.Ident); ok && i.Name != "_" {
				pre = append(pre, define(i.Name, id(k)))
			}
			if s.Value != nil {
				if i, ok := s.Value.(*ast.Ident); ok && i.Name != "_" {
					pre = append(pre, define(i.Name, &ast.IndexExpr{X: s.X, Index: id(k)}))
				}
			}
			r.n++
			s.Body.List = append(pre, s.Body.List...)
			c.Replace(&ast.ForStmt{Init: define(k, num(0)), Cond: bin(id(k), token.LSS, call("len", s.X)), Post: &ast.IncDecStmt{X: id(k), Tok: token.INC}, Body: s.Body})
		})
	}
	kinds["for-loop"] = func(r *rw) {
		r.post(func(c *astutil.Cursor) {
			s, ok := c.Node().(*ast.ForStmt)
			if !ok || s.Cond == nil || branches(s.Body) {
				return
			}
			l := append([]ast.Stmt{&ast.IfStmt{Cond: not(s.Cond), Body: blockOf(&ast.BranchStmt{Tok: token.BREAK})}}, s.Body.List...)
			if s.Post != nil {
				l = append(l, s.Post)
			}
			f := &ast.ForStmt{Body: blockOf(l...)}
			r.n++
			if s.Init != nil {
				c.Replace(blockOf(s.Init, f))
			} else {
				c.Replace(f)
			}
		})
	}
	kinds["op-assign"] = func(r *rw) {
		r.post(func(c *astutil.Cursor) {
			s, ok := c.Node().(*ast.AssignStmt)
			if !ok || len(s.Lhs) != 1 || s.Tok == token.ASSIGN || s.Tok == token.DEFINE {
				return
			}
			op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.AND_ASSIGN: token.AND, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL}[s.Tok]
			if op == 0 {
				return
			}
			r.n++
			s.Rhs[0] = bin(s.Lhs[0], op, s.Rhs[0])
			s.Tok = token.ASSIGN
		})
	}
	kinds["big-endian"] = func(r *rw) {
		r.post(func(c *astutil.Cursor) {
			x, ok := c.Node().(*ast.CallExpr)
			if !ok {
				return
			}
			lit := func(a ...ast.Expr) ast.Expr { return &ast.CompositeLit{Type: id("[]byte"), Elts: a} }
			switch r.callee(x) {
			case "bitutils.Pack2Bytes":
				c.Replace(call("binary.BigEndian.Uint16", lit(x.Args...)))
			case "bitutils.Pack3Bytes":
				c.Replace(call("binary.BigEndian.Uint32", lit(append([]ast.Expr{num(0)}, x.Args...)...)))
			case "bitutils.Pack4Bytes":
				c.Replace(call("binary.BigEndian.Uint32", lit(x.Args...)))
			default:
				return
			}
			r.n++
			r.imps["encoding/binary"] = true
		})
	}
	wide := func(t string) func(r *rw) {
		return func(r *rw) {
			r.post(func(c *astutil.Cursor) {
				x, ok := c.Node().(*ast.BinaryExpr)
				if !ok || (x.Op != token.AND && x.Op != token.OR && x.Op != token.SHR) {
					return
				}
				ty := r.typeOf(x)
				b, ok := ty.(*types.Basic)
				if !ok || b.Info()&types.IsUnsigned == 0 || b.Info()&types.IsUntyped != 0 || r.pkg.TypesInfo.Types[x].Value != nil {
					return
				}
				y := x.Y
				if _, ok := r.intConst(y); !ok && x.Op != token.SHR {
					y = call(t, y)
				}
				r.n++
				c.Replace(call(b.Name(), bin(call(t, x.X), x.Op, y)))
			})
		}
	}
	kinds["wide-uint64"] = wide("uint64")
	kinds["wide-int"] = wide("int")
	kinds["bool-if"] = func(r *rw) {
		r.post(func(c *astutil.Cursor) {
			x, ok := c.Node().(*ast.BinaryExpr)
			if !ok || !isBasic(r.typeOf(x), types.IsBoolean) && r.typeOf(x) != types.Typ[types.UntypedBool] {
				return
			}
			switch c.Parent().(type) {
			case *ast.KeyValueExpr, *ast.AssignStmt, *ast.ReturnStmt, *ast.CallExpr:
			default:
				return
			}
			r.n++
			c.Replace(closure(id("bool"), &ast.IfStmt{Cond: x, Body: blockOf(ret(id("true")))}, ret(id("false"))))
		})
	}
	kinds["shift-div"] = func(r *rw) {
		r.post(func(c *astutil.Cursor) {
			x, ok := c.Node().(*ast.BinaryExpr)
			if !ok || !isBasic(r.typeOf(x), types.IsUnsigned) || r.pkg.TypesInfo.Types[x].Value != nil {
				return
			}
			n, ok := r.intConst(x.Y)
			if !ok {
				return
			}
			var width uint = 64
			switch r.typeOf(x).Underlying().(*types.Basic).Kind() {
			case types.Uint8:
				width = 8
			case types.Uint16:
				width = 16
			case types.Uint32:
				width = 32
			}
			switch {
			case x.Op == token.SHR && uint(n) < width && n < 31:
				c.Replace(bin(x.X, token.QUO, num(1<<uint(n))))
			case x.Op == token.SHL && uint(n) < width && n < 31:
				c.Replace(bin(x.X, token.MUL, num(1<<uint(n))))
			case x.Op == token.AND && n > 0 && n&(n+1) == 0 && n < 1<<30 && (width > 8 || n < 255):
				c.Replace(bin(x.X, token.REM, num(n+1)))
			default:
				return
			}
			r.n++
		})
	}
	kinds["var-decl"] = func(r *rw) {
		r.lists0(func(s ast.Stmt) []ast.Stmt {
			x, ok := s.(*ast.AssignStmt)
			if !ok || x.Tok != token.DEFINE {
				return nil
			}
			var out []ast.Stmt
			for _, l := range x.Lhs {
				i := l.(*ast.Ident)
				if i.Name == "_" {
					continue
				}
				o := r.pkg.TypesInfo.Defs[i]
				if o == nil {
					continue
				}
				t, ok := r.typeExpr(o.Type())
				if !ok {
					return nil
				}
				out = append(out, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(i.Name)}, Type: t}}}})
			}
			r.n++
			x.Tok = token.ASSIGN
			return append(out, x)
		})
	}
	kinds["and-split"] = func(r *rw) {
		r.post(func(c *astutil.Cursor) {
			s, ok := c.Node().(*ast.IfStmt)
			if !ok || s.Init != nil {
				return
			}
			x, ok := s.Cond.(*ast.BinaryExpr)
			if ok && x.Op == token.LAND && s.Else == nil {
				s.Cond = x.X
				s.Body = blockOf(&ast.IfStmt{Cond: x.Y, Body: s.Body})
				r.n++
			}
			if ok && x.Op == token.LOR {
				s.Cond = x.X
				s.Else = &ast.IfStmt{Cond: x.Y, Body: s.Body, Else: s.Else}
				r.n++
			}
		})
	}
	kinds["de-morgan"] = func(r *rw) {
		r.post(func(c *astutil.Cursor) {
			x, ok := c.Node().(*ast.BinaryExpr)
			if !ok {
				return
			}
			switch x.Op {
			case token.LAND:
				c.Replace(not(bin(not(x.X), token.LOR, not(x.Y))))
			case token.LOR:
				c.Replace(not(bin(not(x.X), token.LAND, not(x.Y))))
			default:
				return
			}
			r.n++
		})
	}
	kinds["flip"] = func(r *rw) {
		r.post(func(c *astutil.Cursor) {
			x, ok := c.Node().(*ast.BinaryExpr)
			if !ok {
				return
			}
			op, ok := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[x.Op]
			if !ok {
				return
			}
			r.n++
			x.X, x.Y, x.Op = x.Y, x.X, op
		})
	}
	kinds["int-bounds"] = func(r *rw) { // x <= 5 -> x < 6, x > 5 -> x >= 6
		r.post(func(c *astutil.Cursor) {
			x, ok := c.Node().(*ast.BinaryExpr)
			if !ok || !isBasic(r.typeOf(x.X), types.IsInteger) {
				return
			}
			n, ok := r.intConst(x.Y)
			if !ok || n > 100000 || n < -100000 {
				return
			}
			b := r.typeOf(x.X).Underlying().(*types.Basic)
			if b.Kind() == types.Uint8 && n >= 255 || b.Kind() == types.Int8 && n >= 127 {
				return
			}
			switch x.Op {
			case token.LEQ:
				x.Op, x.Y = token.LSS, num(n+1)
			case token.GTR:
				x.Op, x.Y = token.GEQ, num(n+1)
			default:
				return
			}
			r.n++
		})
	}
	kinds["mul-div"] = func(r *rw) { // x * 0.25 -> x / 4
		r.post(func(c *astutil.Cursor) {
			x, ok := c.Node().(*ast.BinaryExpr)
			if !ok || !isBasic(r.typeOf(x), types.IsFloat) || r.pkg.TypesInfo.Types[x].Value != nil {
				return
			}
			tv := r.pkg.TypesInfo.Types[x.Y]
			if tv.Value == nil {
				return
			}
			f, _ := constant.Float64Val(tv.Value)
			m, e := math.Frexp(f)
			if m != 0.5 || e > 12 || e < -12 {
				return
			}
			lit := &ast.BasicLit{Kind: token.FLOAT, Value: constant.MakeFloat64(1 / f).ExactString()}
			if strings.Contains(lit.Value, "/") {
				lit.Value = "(" + strings.Replace(lit.Value, "/", ".0/", 1) + ")"
			}
			switch x.Op {
			case token.MUL:
				x.Op, x.Y = token.QUO, lit
			case token.QUO:
				x.Op, x.Y = token.MUL, lit
			default:
				return
			}
			r.n++
		})
	}
	kinds["copy-data"] = func(r *rw) {
		r.funcs(func(d *ast.FuncDecl) {
			for _, f := range d.Type.Params.List {
				for _, n := range f.Names {
					if n.Name == "data" && types.ExprString(f.Type) == "[]byte" {
						d.Body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id("data")}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.CallExpr{Fun: id("append"), Args: []ast.Expr{id("[]byte{}"), id("data")}, Ellipsis: 1}}}}, d.Body.List...)
						r.n++
					}
				}
			}
		})
	}
	kinds["locals"] = func(r *rw) { // data[k] read once into a variable
		r.funcs(func(d *ast.FuncDecl) {
			uses := map[int64]bool{}
			guarded := false
			ast.Inspect(d.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.IndexExpr:
					if i, ok := x.X.(*ast.Ident); ok && i.Name == "data" {
						k, ok := r.intConst(x.Index)
						if ok {
							uses[k] = true
						} else {
							guarded = true
						}
					}
				case *ast.CallExpr:
					if r.callee(x) == "len" {
						guarded = true
					}
				case *ast.AssignStmt:
					for _, l := range x.Lhs {
						if _, ok := l.(*ast.IndexExpr); ok {
							guarded = true
						}
					}
				}
				return true
			})
			if guarded || len(uses) == 0 || !strings.HasPrefix(d.Name.Name, "Read") {
				return
			}
			names := map[int64]string{}
			var pre []ast.Stmt
			for k := int64(0); k < 16; k++ {
				if uses[k] {
					names[k] = r.name("b")
					pre = append(pre, define(names[k], &ast.IndexExpr{X: id("data"), Index: num(k)}))
				}
			}
			astutil.Apply(d.Body, nil, func(c *astutil.Cursor) bool {
				if x, ok := c.Node().(*ast.IndexExpr); ok {
					if i, ok := x.X.(*ast.Ident); ok && i.Name == "data" {
						if k, ok := r.intConst(x.Index); ok {
							c.Replace(id(names[k]))
							r.n++
						}
					}
				}
				return true
			})
			d.Body.List = append(pre, d.Body.List...)
		})
	}
	kinds["swap"] = func(r *rw) { // independent definitions change places
		r.listsOnce(func(l []ast.Stmt) []ast.Stmt {
			for k := 0; k+1 < len(l); k++ {
				a, ok1 := l[k].(*ast.AssignStmt)
				b, ok2 := l[k+1].(*ast.AssignStmt)
				if !ok1 || !ok2 || a.Tok != token.DEFINE || b.Tok != token.DEFINE {
					continue
				}
				defs := map[string]bool{}
				for _, x := range a.Lhs {
					defs[x.(*ast.Ident).Name] = true
				}
				if has(b, func(n ast.Node) bool { i, ok := n.(*ast.Ident); return ok && i.Name != "_" && defs[i.Name] }) {
					continue
				}
				r.n++
				l[k], l[k+1] = l[k+1], l[k]
				k++
			}
			return l
		})
	}
	kinds["method-expr"] = func(r *rw) { // x.M(a) -> T.M(x, a)
		r.post(func(c *astutil.Cursor) {
			x, ok := c.Node().(*ast.CallExpr)
			if !ok {
				return
			}
			s, ok := x.Fun.(*ast.SelectorExpr)
			if !ok {
				return
			}
			sel := r.pkg.TypesInfo.Selections[s]
			if sel == nil || sel.Kind() != types.MethodVal || len(sel.Index()) != 1 {
				return
			}
			recv := sel.Recv()
			if _, ptr := sel.Obj().Type().(*types.Signature).Recv().Type().(*types.Pointer); ptr {
				if _, is := recv.(*types.Pointer); !is {
					return
				}
			}
			t, ok := r.typeExpr(recv)
			if !ok {
				return
			}
			r.n++
			c.Replace(&ast.CallExpr{Fun: &ast.SelectorExpr{X: par2(t), Sel: s.Sel}, Args: append([]ast.Expr{s.X}, x.Args...)})
		})
	}
	kinds["method-value"] = func(r *rw) {
		r.post(func(c *astutil.Cursor) {
			x, ok := c.Node().(*ast.CallExpr)
			if !ok || len(x.Args) > 0 {
				return
			}
			s, ok := x.Fun.(*ast.SelectorExpr)
			if !ok {
				return
			}
			sel := r.pkg.TypesInfo.Selections[s]
			if sel == nil || sel.Kind() != types.MethodVal {
				return
			}
			sig := sel.Type().(*types.Signature)
			if sig.Results().Len() != 1 {
				return
			}
			t, ok := r.typeExpr(sig.Results().At(0).Type())
			if !ok {
				return
			}
			r.n++
			c.Replace(closure(t, define("get", s), ret(call("get"))))
		})
	}
	kinds["defer"] = func(r *rw) {
		r.funcs(func(d *ast.FuncDecl) {
			r.n++
			d.Body.List = append([]ast.Stmt{&ast.DeferStmt{Call: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: blockOf()}}}}, d.Body.List...)
		})
	}
	kinds["default-var"] = func(r *rw) { // if c { return a } return b -> v := b; if c { v = a } return v
		r.listsOnce(func(l []ast.Stmt) []ast.Stmt {
			n := len(l)
			ts := r.results()
			if n < 2 || len(ts) != 1 {
				return l
			}
			a, ok1 := l[n-2].(*ast.IfStmt)
			b, ok2 := l[n-1].(*ast.ReturnStmt)
			if !ok1 || !ok2 || a.Else != nil || a.Init != nil || len(a.Body.List) != 1 || !r.pure(b.Results[0]) {
				return l
			}
			x, ok := a.Body.List[0].(*ast.ReturnStmt)
			if !ok {
				return l
			}
			v := r.name("v")
			r.n++
			out := append([]ast.Stmt{}, l[:n-2]...)
			out = append(out, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(v)}, Type: ts[0], Values: b.Results}}}})
			a.Body.List[0] = &ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: token.ASSIGN, Rhs: x.Results}
			return append(out, a, ret(id(v)))
		})
	}
	kinds["loop-once"] = func(r *rw) { // error guards as a loop left by break: for { if c { break } return } ...
		r.funcs(func(d *ast.FuncDecl) {
			if !ends(d.Body.List) || d.Type.Results == nil || branches(d.Body) {
				return
			}
			r.n++
			d.Body.List = []ast.Stmt{&ast.ForStmt{Body: blockOf(d.Body.List...)}}
		})
	}
	kinds["param-struct"] = func(r *rw) { // a copy of each value receiver through a pointer
		r.funcs(func(d *ast.FuncDecl) {
			if d.Recv == nil || len(d.Recv.List[0].Names) == 0 {
				return
			}
			n := d.Recv.List[0].Names[0]
			o := r.pkg.TypesInfo.Defs[n]
			if o == nil {
				return
			}
			if _, ok := o.Type().Underlying().(*types.Struct); !ok {
				return
			}
			p := r.name("p")
			uses := 0
			astutil.Apply(d.Body, nil, func(c *astutil.Cursor) bool {
				if i, ok := c.Node().(*ast.Ident); ok && r.pkg.TypesInfo.Uses[i] == o {
					c.Replace(&ast.ParenExpr{X: &ast.StarExpr{X: id(p)}})
					uses++
				}
				return true
			})
			if uses == 0 {
				return
			}
			r.n++
			d.Body.List = append([]ast.Stmt{define(p, &ast.UnaryExpr{Op: token.AND, X: id(n.Name)})}, d.Body.List...)
		})
	}
	kinds["consts"] = func(r *rw) { // number literals become package constants
		r.post(func(c *astutil.Cursor) {
			x, ok := c.Node().(*ast.BasicLit)
			if !ok || (x.Kind != token.INT && x.Kind != token.FLOAT) {
				return
			}
			n := r.name("value")
			r.add = append(r.add, &ast.GenDecl{Tok: token.CONST, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(n)}, Values: []ast.Expr{x}}}})
			r.n++
			c.Replace(id(n))
		})
	}
	kinds["hoist"] = func(r *rw) { // operands of calls go to variables before the statement
		r.lists0(func(s ast.Stmt) []ast.Stmt {
			var xs *[]ast.Expr
			switch y := s.(type) {
			case *ast.ReturnStmt:
				if len(y.Results) == 1 {
					if c, ok := y.Results[0].(*ast.CallExpr); ok && !r.pkg.TypesInfo.Types[c.Fun].IsType() {
						xs = &c.Args
					}
				}
			case *ast.AssignStmt:
				if len(y.Rhs) == 1 {
					if c, ok := y.Rhs[0].(*ast.CallExpr); ok && !r.pkg.TypesInfo.Types[c.Fun].IsType() {
						xs = &c.Args
					}
				}
			}
			if xs == nil {
				return nil
			}
			var out []ast.Stmt
			for k, e := range *xs {
				tv := r.pkg.TypesInfo.Types[e]
				if tv.Value != nil || tv.IsType() || tv.IsNil() {
					continue
				}
				if _, ok := e.(*ast.Ident); ok {
					continue
				}
				n := r.name("arg")
				out = append(out, define(n, e))
				(*xs)[k] = id(n)
			}
			if out == nil {
				return nil
			}
			r.n++
			return append(out, s)
		})
	}
}

func par2(t ast.Expr) ast.Expr { return &ast.ParenExpr{X: t} }

// lists0 replaces single statements of lists.
func (r *rw) lists0(f func(s ast.Stmt) []ast.Stmt) {
	r.listsOnce(func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			if n := f(s); n != nil {
				out = append(out, n...)
			} else {
				out = append(out, s)
			}
		}
		return out
	})
}
