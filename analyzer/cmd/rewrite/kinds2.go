package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
)

// defined lists the local variables a statement of a list defines.
func (r *rw) defined(s ast.Stmt) []*ast.Ident {
	a, ok := s.(*ast.AssignStmt)
	if !ok || a.Tok != token.DEFINE {
		return nil
	}
	var out []*ast.Ident
	for _, l := range a.Lhs {
		if i := l.(*ast.Ident); i.Name != "_" && r.pkg.TypesInfo.Defs[i] != nil {
			out = append(out, i)
		}
	}
	return out
}

// through replaces the uses of the local variables by what use gives, defined by the statement of def.
func (r *rw) through(prefix string, assigned bool, def func(n string, v *ast.Ident) ast.Stmt, use func(n string) ast.Expr) {
	names := map[types.Object]string{}
	inner := map[*ast.AssignStmt]bool{}
	r.listsOnce(func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			out = append(out, s)
			for _, v := range r.defined(s) {
				o := r.pkg.TypesInfo.Defs[v]
				if names[o] != "" {
					continue
				}
				if _, ok := r.typeExpr(o.Type()); !ok {
					continue
				}
				reads := false
				r.funcs(func(d *ast.FuncDecl) {
					ast.Inspect(d.Body, func(n ast.Node) bool {
						if a, ok := n.(*ast.AssignStmt); ok && !assigned {
							for _, x := range a.Lhs {
								if _, ok := x.(*ast.Ident); !ok && has(x, func(n ast.Node) bool { i, ok := n.(*ast.Ident); return ok && r.pkg.TypesInfo.Uses[i] == o }) {
									inner[a] = true
								}
							}
						}
						if i, ok := n.(*ast.Ident); ok && r.pkg.TypesInfo.Uses[i] == o {
							reads = true
						}
						return true
					})
				})
				if !reads {
					continue
				}
				names[o] = r.name(prefix)
				out = append(out, def(names[o], v))
			}
		}
		return out
	})
	used := map[string]bool{}
	own := map[ast.Node]bool{}
	r.funcs(func(d *ast.FuncDecl) {
		astutil.Apply(d.Body, func(c *astutil.Cursor) bool {
			if a, ok := c.Node().(*ast.AssignStmt); ok && a.Tok == token.DEFINE {
				for _, x := range a.Lhs {
					own[x] = true
				}
			}
			if a, ok := c.Node().(*ast.AssignStmt); ok && !assigned {
				for _, x := range a.Lhs {
					own[x] = true
					if _, ok := x.(*ast.Ident); !ok {
						ast.Inspect(x, func(n ast.Node) bool { own[n] = true; return true })
					}
				}
			}
			if u, ok := c.Node().(*ast.UnaryExpr); ok && u.Op == token.AND && !assigned {
				ast.Inspect(u, func(n ast.Node) bool { own[n] = true; return true })
			}
			if u, ok := c.Node().(*ast.IncDecStmt); ok && !assigned {
				own[u.X] = true
			}
			if u, ok := c.Node().(*ast.SliceExpr); ok && !assigned {
				own[u.X] = true
			}
			if u, ok := c.Node().(*ast.SelectorExpr); ok && !assigned { // a method may need the address
				own[u.X] = true
			}
			return true
		}, func(c *astutil.Cursor) bool {
			i, ok := c.Node().(*ast.Ident)
			if !ok || own[i] {
				return true
			}
			if n := names[r.pkg.TypesInfo.Uses[i]]; n != "" && r.pkg.TypesInfo.Uses[i] != nil {
				used[n] = true
				r.n++
				c.Replace(use(n))
			}
			return true
		})
	})
	// the definitions nobody uses
	r.listsOnce(func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			if a, ok := s.(*ast.AssignStmt); ok && a.Tok == token.DEFINE && len(a.Lhs) == 1 {
				drop := false
				for _, n := range names {
					drop = drop || n == a.Lhs[0].(*ast.Ident).Name && !used[n]
				}
				if drop {
					continue
				}
			}
			out = append(out, s)
		}
		return out
	})
}

func init() {
	kinds["getter"] = func(r *rw) { // local variables are read by closures
		r.through("get", false, func(n string, v *ast.Ident) ast.Stmt {
			t, _ := r.typeExpr(r.pkg.TypesInfo.Defs[v].Type())
			return define(n, &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Type: t}}}}, Body: blockOf(ret(id(v.Name)))})
		}, func(n string) ast.Expr { return call(n) })
	}
	kinds["pointer"] = func(r *rw) { // local variables are used through pointers
		r.through("at", true, func(n string, v *ast.Ident) ast.Stmt {
			return define(n, &ast.UnaryExpr{Op: token.AND, X: id(v.Name)})
		}, func(n string) ast.Expr { return &ast.ParenExpr{X: &ast.StarExpr{X: id(n)}} })
	}
	kinds["call-table"] = func(r *rw) { // f(x) -> [1]func(...){f}[0](x)
		r.post(func(c *astutil.Cursor) {
			x, ok := c.Node().(*ast.CallExpr)
			if !ok {
				return
			}
			var o types.Object
			switch f := x.Fun.(type) {
			case *ast.Ident:
				o = r.pkg.TypesInfo.Uses[f]
			case *ast.SelectorExpr:
				o = r.pkg.TypesInfo.Uses[f.Sel]
			}
			fn, ok := o.(*types.Func)
			if !ok || fn.Type().(*types.Signature).Recv() != nil {
				return
			}
			t, ok := r.typeExpr(fn.Type())
			if !ok || strings.Contains(t.(*ast.Ident).Name, "any") {
				return
			}
			r.n++
			x.Fun = &ast.IndexExpr{X: &ast.CompositeLit{Type: &ast.ArrayType{Len: num(1), Elt: t}, Elts: []ast.Expr{x.Fun}}, Index: num(0)}
		})
	}
	kinds["fallthrough"] = func(r *rw) { // case a, b: S -> case a: fallthrough; case b: S
		r.post(func(c *astutil.Cursor) {
			x, ok := c.Node().(*ast.SwitchStmt)
			if !ok {
				return
			}
			var l []ast.Stmt
			for _, s := range x.Body.List {
				cc := s.(*ast.CaseClause)
				for len(cc.List) > 1 {
					r.n++
					l = append(l, &ast.CaseClause{List: cc.List[:1], Body: []ast.Stmt{&ast.BranchStmt{Tok: token.FALLTHROUGH}}})
					cc.List = cc.List[1:]
				}
				l = append(l, cc)
			}
			x.Body.List = l
		})
	}
	kinds["reverse-cases"] = func(r *rw) {
		r.post(func(c *astutil.Cursor) {
			x, ok := c.Node().(*ast.SwitchStmt)
			if !ok || x.Tag == nil || has(x, func(n ast.Node) bool {
				b, ok := n.(*ast.BranchStmt)
				return ok && b.Tok == token.FALLTHROUGH
			}) {
				return
			}
			for _, s := range x.Body.List {
				for _, e := range s.(*ast.CaseClause).List {
					if r.pkg.TypesInfo.Types[e].Value == nil {
						return
					}
				}
			}
			r.n++
			l := x.Body.List
			for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
				l[i], l[j] = l[j], l[i]
			}
		})
	}
	kinds["parallel"] = func(r *rw) { // a := x; b := y -> a, b := x, y
		r.listsOnce(func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range l {
				b, ok := s.(*ast.AssignStmt)
				if ok && len(out) > 0 && b.Tok == token.DEFINE && len(b.Lhs) == len(b.Rhs) {
					a, ok := out[len(out)-1].(*ast.AssignStmt)
					if ok && a.Tok == token.DEFINE && len(a.Lhs) == len(a.Rhs) {
						defs := map[string]bool{}
						for _, x := range a.Lhs {
							defs[x.(*ast.Ident).Name] = true
						}
						if !has(b, func(n ast.Node) bool { i, ok := n.(*ast.Ident); return ok && defs[i.Name] }) {
							r.n++
							a.Lhs = append(a.Lhs, b.Lhs...)
							a.Rhs = append(a.Rhs, b.Rhs...)
							continue
						}
					}
				}
				out = append(out, s)
			}
			return out
		})
	}
	vars := func(f func(r *rw, g *ast.GenDecl, s *ast.ValueSpec, t ast.Expr)) func(r *rw) {
		return func(r *rw) {
			for _, d := range r.file.Decls {
				g, ok := d.(*ast.GenDecl)
				if !ok || g.Tok != token.VAR {
					continue
				}
				for _, s := range g.Specs {
					v := s.(*ast.ValueSpec)
					if len(v.Names) != 1 || len(v.Values) != 1 || v.Names[0].Name == "_" {
						continue
					}
					if t, ok := r.typeExpr(r.pkg.TypesInfo.Defs[v.Names[0]].Type()); ok {
						f(r, g, v, t)
					}
				}
			}
		}
	}
	kinds["var-function"] = vars(func(r *rw, g *ast.GenDecl, v *ast.ValueSpec, t ast.Expr) {
		r.n++
		v.Values[0] = closure(t, ret(v.Values[0]))
	})
	kinds["var-init"] = vars(func(r *rw, g *ast.GenDecl, v *ast.ValueSpec, t ast.Expr) {
		r.n++
		v.Type = t
		r.add = append(r.add, &ast.FuncDecl{Name: id("init"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: blockOf(&ast.AssignStmt{Lhs: []ast.Expr{id(v.Names[0].Name)}, Tok: token.ASSIGN, Rhs: v.Values})})
		v.Values = nil
	})
	failure := func(ptr bool) func(r *rw) {
		return func(r *rw) {
			n := r.name("failure")
			r.post(func(c *astutil.Cursor) {
				x, ok := c.Node().(*ast.CallExpr)
				if !ok || (r.callee(x) != "errors.New" && r.callee(x) != "fmt.Errorf") {
					return
				}
				r.n++
				var s ast.Expr = x.Args[0]
				if r.callee(x) == "fmt.Errorf" {
					s = call("fmt.Sprintf", x.Args...)
				}
				if ptr {
					c.Replace(&ast.UnaryExpr{Op: token.AND, X: &ast.CompositeLit{Type: id(n), Elts: []ast.Expr{&ast.KeyValueExpr{Key: id("text"), Value: s}}}})
				} else {
					c.Replace(call(n, s))
				}
			})
			if r.n == 0 {
				return
			}
			var t ast.Expr = id("string")
			var rt ast.Expr = id(n)
			var v ast.Expr = call("string", id("f"))
			if ptr {
				t = &ast.StructType{Fields: &ast.FieldList{List: []*ast.Field{{Names: []*ast.Ident{id("text")}, Type: id("string")}}}}
				rt = &ast.StarExpr{X: id(n)}
				v = &ast.SelectorExpr{X: id("f"), Sel: id("text")}
			}
			r.add = append(r.add,
				&ast.GenDecl{Tok: token.TYPE, Specs: []ast.Spec{&ast.TypeSpec{Name: id(n), Type: t}}},
				&ast.FuncDecl{Recv: &ast.FieldList{List: []*ast.Field{{Names: []*ast.Ident{id("f")}, Type: rt}}}, Name: id("Error"), Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Type: id("string")}}}}, Body: blockOf(ret(v))})
		}
	}
	kinds["error-type"] = failure(false)
	kinds["error-pointer"] = failure(true)
	named := func(deferred bool) func(r *rw) {
		return func(r *rw) {
			r.funcs(func(d *ast.FuncDecl) {
				if d.Type.Results == nil || len(d.Type.Results.List) == 0 || d.Type.Results.List[0].Names != nil {
					return
				}
				var ns []ast.Expr
				for _, f := range d.Type.Results.List {
					n := r.name("out")
					f.Names = []*ast.Ident{id(n)}
					ns = append(ns, id(n))
				}
				r.n++
				skip := map[ast.Node]bool{}
				astutil.Apply(d.Body, func(c *astutil.Cursor) bool {
					if _, ok := c.Node().(*ast.FuncLit); ok {
						return false
					}
					return true
				}, func(c *astutil.Cursor) bool {
					x, ok := c.Node().(*ast.ReturnStmt)
					if !ok || skip[x] || deferred {
						return true
					}
					s := &ast.ReturnStmt{}
					skip[s] = true
					c.Replace(blockOf(&ast.AssignStmt{Lhs: ns, Tok: token.ASSIGN, Rhs: x.Results}, s))
					return true
				})
				if deferred {
					d.Body.List = append([]ast.Stmt{&ast.DeferStmt{Call: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: blockOf(&ast.AssignStmt{Lhs: ns, Tok: token.ASSIGN, Rhs: ns})}}}}, d.Body.List...)
				}
			})
		}
	}
	kinds["named-results"] = named(false)
	kinds["defer-results"] = named(true)
	kinds["identity-args"] = func(r *rw) { // f(x) -> f(func(v T) T { return v }(x))
		r.post(func(c *astutil.Cursor) {
			x, ok := c.Node().(*ast.CallExpr)
			if !ok || r.pkg.TypesInfo.Types[x.Fun].IsType() || r.pkg.TypesInfo.Types[x.Fun].IsBuiltin() || x.Ellipsis != token.NoPos {
				return
			}
			for k, a := range x.Args {
				tv := r.pkg.TypesInfo.Types[a]
				if tv.Type == nil || tv.Value != nil || tv.IsNil() {
					continue
				}
				t, ok := r.typeExpr(types.Default(tv.Type))
				if !ok {
					continue
				}
				r.n++
				x.Args[k] = &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{List: []*ast.Field{{Names: []*ast.Ident{id("v")}, Type: t}}}, Results: &ast.FieldList{List: []*ast.Field{{Type: t}}}}, Body: blockOf(ret(id("v")))}, Args: []ast.Expr{a}}
			}
		})
	}
	kinds["interface-call"] = func(r *rw) { // x.ToString() -> interface{ ToString() string }(x).ToString()
		r.post(func(c *astutil.Cursor) {
			x, ok := c.Node().(*ast.CallExpr)
			if !ok || len(x.Args) > 0 {
				return
			}
			s, ok := x.Fun.(*ast.SelectorExpr)
			if !ok || s.Sel.Name != "ToString" {
				return
			}
			m := r.pkg.TypesInfo.Selections[s]
			if m == nil || m.Kind() != types.MethodVal {
				return
			}
			if types.NewMethodSet(r.typeOf(s.X)).Lookup(r.pkg.Types, "ToString") == nil {
				return
			}
			r.n++
			s.X = &ast.CallExpr{Fun: &ast.InterfaceType{Methods: &ast.FieldList{List: []*ast.Field{{Names: []*ast.Ident{id("ToString")}, Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Type: id("string")}}}}}}}}, Args: []ast.Expr{s.X}}
		})
	}
	kinds["while"] = func(r *rw) { // for i; c; p { S } -> i; for { if !c { break }; S; p }
		r.lists0(func(s ast.Stmt) []ast.Stmt {
			x, ok := s.(*ast.ForStmt)
			if !ok || x.Cond == nil || has(x.Body, func(n ast.Node) bool { b, ok := n.(*ast.BranchStmt); return ok && b.Tok == token.CONTINUE }) {
				return nil
			}
			r.n++
			l := []ast.Stmt{&ast.IfStmt{Cond: not(x.Cond), Body: blockOf(&ast.BranchStmt{Tok: token.BREAK})}}
			l = append(l, x.Body.List...)
			if x.Post != nil {
				l = append(l, x.Post)
			}
			f := &ast.ForStmt{Body: blockOf(l...)}
			if x.Init == nil {
				return []ast.Stmt{f}
			}
			return []ast.Stmt{blockOf(x.Init, f)}
		})
	}
	kinds["down"] = func(r *rw) { // for i := 0; i < n; i++ -> for r := n; r > 0; r-- { i := n - r
		r.post(func(c *astutil.Cursor) {
			x, ok := c.Node().(*ast.ForStmt)
			if !ok || x.Init == nil || x.Cond == nil || x.Post == nil {
				return
			}
			a, ok1 := x.Init.(*ast.AssignStmt)
			b, ok2 := x.Cond.(*ast.BinaryExpr)
			p, ok3 := x.Post.(*ast.IncDecStmt)
			if !ok1 || !ok2 || !ok3 || b.Op != token.LSS || p.Tok != token.INC || len(a.Lhs) != 1 {
				return
			}
			k, ok := r.intConst(a.Rhs[0])
			if !ok || k != 0 {
				return
			}
			t, ok := r.typeExpr(r.typeOf(a.Lhs[0]))
			if !ok || !r.pure(b.Y) {
				return
			}
			v := a.Lhs[0].(*ast.Ident)
			if has(x.Body, func(n ast.Node) bool {
				switch s := n.(type) {
				case *ast.AssignStmt:
					for _, l := range s.Lhs {
						if i, ok := l.(*ast.Ident); ok && i.Name == v.Name {
							return true
						}
					}
				case *ast.IncDecStmt:
					i, ok := s.X.(*ast.Ident)
					return ok && i.Name == v.Name
				}
				return false
			}) {
				return
			}
			r.n++
			left := r.name("left")
			x.Init = define(left, &ast.CallExpr{Fun: t, Args: []ast.Expr{b.Y}})
			x.Cond = bin(id(left), token.GTR, num(0))
			x.Post = &ast.IncDecStmt{X: id(left), Tok: token.DEC}
			x.Body.List = append([]ast.Stmt{define(v.Name, bin(&ast.CallExpr{Fun: t, Args: []ast.Expr{b.Y}}, token.SUB, id(left)))}, x.Body.List...)
		})
	}
	kinds["xor-swap"] = func(r *rw) { // a != b of booleans, a ^ b -> (a|b)-(a&b); a + b of disjoint stays
		r.post(func(c *astutil.Cursor) {
			x, ok := c.Node().(*ast.BinaryExpr)
			if !ok || r.pkg.TypesInfo.Types[x].Value != nil {
				return
			}
			if !isBasic(r.typeOf(x), types.IsInteger) || !r.pure(x) {
				return
			}
			switch x.Op {
			case token.OR: // a|b = a + b - a&b
				r.n++
				c.Replace(&ast.ParenExpr{X: bin(bin(x.X, token.ADD, x.Y), token.SUB, bin(x.X, token.AND, x.Y))})
			case token.XOR:
				r.n++
				c.Replace(&ast.ParenExpr{X: bin(bin(x.X, token.OR, x.Y), token.AND_NOT, bin(x.X, token.AND, x.Y))})
			}
		})
	}
}
