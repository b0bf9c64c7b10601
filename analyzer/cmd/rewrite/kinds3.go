package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
)

// tested lists the identifiers the tests of the package use.
func (r *rw) tested() map[string]bool {
	out := map[string]bool{}
	dir := filepath.Dir(r.pkg.GoFiles[0])
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if !strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(dir, e.Name()), nil, 0)
		if err != nil {
			continue
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if i, ok := n.(*ast.Ident); ok {
				out[i.Name] = true
			}
			return true
		})
	}
	return out
}

func (r *rw) renamed(want func(o types.Object) bool) {
	test := r.tested()
	info := r.pkg.TypesInfo
	name := func(o types.Object) (string, bool) {
		if o == nil || o.Pkg() != r.pkg.Types || o.Name() == "_" || o.Name() == "init" || o.Name() == "main" || !want(o) || test[o.Name()] && o.Parent() == r.pkg.Types.Scope() {
			return "", false
		}
		return o.Name() + "Renamed", true
	}
	var embedded func(n ast.Node) bool
	embedded = func(n ast.Node) bool {
		i, ok := n.(*ast.Ident)
		if !ok {
			return true
		}
		o := info.Defs[i]
		if o == nil {
			o = info.Uses[i]
		}
		if s, ok := name(o); ok {
			i.Name = s
			r.n++
		}
		return true
	}
	for _, d := range r.file.Decls {
		ast.Inspect(d, embedded)
	}
	// variables of type switches have no object of their own
	for _, d := range r.file.Decls {
		ast.Inspect(d, func(n ast.Node) bool {
			x, ok := n.(*ast.TypeSwitchStmt)
			if !ok {
				return true
			}
			if a, ok := x.Assign.(*ast.AssignStmt); ok {
				i := a.Lhs[0].(*ast.Ident)
				for _, c := range x.Body.List {
					if o := info.Implicits[c]; o != nil && want(o) && !strings.HasSuffix(i.Name, "Renamed") {
						i.Name += "Renamed"
					}
				}
			}
			return true
		})
	}
}

func init() {
	kinds["rename-private"] = func(r *rw) { // unexported functions, methods, types, variables and constants
		r.renamed(func(o types.Object) bool {
			if o.Exported() {
				return false
			}
			if f, ok := o.(*types.Func); ok && f.Type().(*types.Signature).Recv() != nil {
				return !types.IsInterface(f.Type().(*types.Signature).Recv().Type())
			}
			return o.Parent() == r.pkg.Types.Scope()
		})
	}
	kinds["rename-locals"] = func(r *rw) { // parameters, receivers and local variables
		r.renamed(func(o types.Object) bool {
			v, ok := o.(*types.Var)
			return ok && !v.IsField() && o.Parent() != r.pkg.Types.Scope()
		})
	}
	kinds["reverse-decls"] = func(r *rw) {
		var imports, others []ast.Decl
		for _, d := range r.file.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
				imports = append(imports, d)
			} else {
				others = append([]ast.Decl{d}, others...)
			}
		}
		r.n += len(others)
		r.file.Decls = append(imports, others...)
	}
	kinds["reverse-fields"] = func(r *rw) { // the fields of structures, which literals name
		unnamed := map[types.Type]bool{} // by a literal without names
		for _, f := range r.pkg.Syntax {
			ast.Inspect(f, func(n ast.Node) bool {
				if x, ok := n.(*ast.CompositeLit); ok && len(x.Elts) > 0 {
					if _, is := x.Elts[0].(*ast.KeyValueExpr); !is && r.typeOf(x) != nil {
						unnamed[r.typeOf(x).Underlying()] = true
					}
				}
				return true
			})
		}
		for _, d := range r.file.Decls {
			ast.Inspect(d, func(n ast.Node) bool {
				if t, ok := n.(ast.Expr); ok && r.typeOf(t) != nil && unnamed[r.typeOf(t).Underlying()] {
					return true
				}
				if s, ok := n.(*ast.StructType); ok && len(s.Fields.List) > 1 {
					r.n++
					l := s.Fields.List
					for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
						l[i], l[j] = l[j], l[i]
					}
				}
				return true
			})
		}
	}
	kinds["private-wrapper"] = func(r *rw) { // each function hands over to an unexported one
		for _, d := range r.file.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || fd.Body == nil || fd.Name.Name == "init" || fd.Name.Name == "main" || fd.Type.Results == nil {
				continue
			}
			var args []ast.Expr
			good := true
			for _, p := range fd.Type.Params.List {
				if _, is := p.Type.(*ast.Ellipsis); is || len(p.Names) == 0 {
					good = false
				}
				for _, n := range p.Names {
					good = good && n.Name != "_"
					args = append(args, id(n.Name))
				}
			}
			if !good {
				continue
			}
			r.n++
			n := r.name("do" + fd.Name.Name)
			r.add = append(r.add, &ast.FuncDecl{Name: id(n), Type: fd.Type, Body: fd.Body})
			fd.Body = blockOf(ret(call(n, args...)))
		}
	}
	kinds["result-struct"] = func(r *rw) { // several results travel in a structure
		for _, d := range r.file.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || fd.Body == nil || fd.Type.Results == nil || len(fd.Type.Results.List) < 2 || fd.Type.Results.List[0].Names != nil {
				continue
			}
			good := true
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				if x, ok := n.(*ast.ReturnStmt); ok && len(x.Results) != len(fd.Type.Results.List) {
					good = false
				}
				_, lit := n.(*ast.FuncLit)
				return !lit
			})
			if !good {
				continue
			}
			var args []ast.Expr
			for _, p := range fd.Type.Params.List {
				for _, n := range p.Names {
					good = good && n.Name != "_"
					args = append(args, id(n.Name))
				}
			}
			if !good {
				continue
			}
			r.n++
			n := r.name("all" + fd.Name.Name)
			st := &ast.StructType{Fields: &ast.FieldList{}}
			var outs []ast.Expr
			for k, f := range fd.Type.Results.List {
				fn := "r" + string(rune('0'+k))
				st.Fields.List = append(st.Fields.List, &ast.Field{Names: []*ast.Ident{id(fn)}, Type: f.Type})
				outs = append(outs, &ast.SelectorExpr{X: id("all"), Sel: id(fn)})
			}
			r.add = append(r.add, &ast.GenDecl{Tok: token.TYPE, Specs: []ast.Spec{&ast.TypeSpec{Name: id(n + "Type"), Type: st}}},
				&ast.FuncDecl{Name: id(n), Type: &ast.FuncType{Params: fd.Type.Params, Results: &ast.FieldList{List: []*ast.Field{{Type: id(n + "Type")}}}}, Body: fd.Body})
			astutil.Apply(fd.Body, func(c *astutil.Cursor) bool {
				_, lit := c.Node().(*ast.FuncLit)
				return !lit
			}, func(c *astutil.Cursor) bool {
				if x, ok := c.Node().(*ast.ReturnStmt); ok {
					x.Results = []ast.Expr{&ast.CompositeLit{Type: id(n + "Type"), Elts: x.Results}}
				}
				return true
			})
			fd.Body = blockOf(define("all", call(n, args...)), ret(outs...))
		}
	}
}
