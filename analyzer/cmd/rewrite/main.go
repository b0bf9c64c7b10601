// Command rewrite applies one behaviour-preserving rewriting everywhere in a module. It makes
// programs on which the checks have to stay quiet.
//
//	rewrite DIR KIND    rewrites the module in DIR in place
//	rewrite list        lists the kinds
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/constant"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

type rw struct {
	pkg  *packages.Package
	file *ast.File
	fset *token.FileSet
	n    int // sites
	id   int
	add  []ast.Decl
	imps map[string]bool
	sig  []*ast.FuncType
}

var kinds = map[string]func(*rw){}

func main() {
	if os.Args[1] == "list" {
		var ks []string
		for k := range kinds {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Println(strings.Join(ks, "\n"))
		return
	}
	f := kinds[os.Args[2]]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no such kind")
		os.Exit(2)
	}
	pk, err := packages.Load(&packages.Config{Mode: packages.LoadSyntax, Dir: os.Args[1]}, "./...")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	total := 0
	for _, p := range pk {
		id := 0
		for k, file := range p.Syntax {
			file.Comments = nil
			r := &rw{pkg: p, file: file, fset: p.Fset, imps: map[string]bool{}, id: id}
			f(r)
			id = r.id
			if r.n == 0 {
				continue
			}
			total += r.n
			file.Decls = append(file.Decls, r.add...)
			for i := range r.imps {
				astutil.AddImport(p.Fset, file, i)
			}
			for _, s := range append([]*ast.ImportSpec{}, file.Imports...) {
				v, _ := strconv.Unquote(s.Path.Value)
				if s.Name == nil && !astutil.UsesImport(file, v) {
					astutil.DeleteImport(p.Fset, file, v)
				}
			}
			var b bytes.Buffer
			if err := format.Node(&b, token.NewFileSet(), clean(file)); err != nil {
				fmt.Fprintln(os.Stderr, p.CompiledGoFiles[k], err)
				os.Exit(2)
			}
			if err := os.WriteFile(filepath.Clean(p.CompiledGoFiles[k]), b.Bytes(), 0644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
		}
	}
	fmt.Println(os.Args[2], total, "sites")
}

// clean prepares the tree for printing without its positions.
func clean(f *ast.File) *ast.File {
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			x.Doc = nil
		case *ast.FuncDecl:
			x.Doc = nil
		case *ast.Field:
			x.Doc, x.Comment = nil, nil
		case *ast.ValueSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.TypeSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ImportSpec:
			x.Doc, x.Comment = nil, nil
		}
		return true
	})
	f.Doc = nil
	return f
}

func (r *rw) name(s string) string { r.id++; return fmt.Sprintf("%s%d%s", s, r.id, "x") }

func id(s string) *ast.Ident { return ast.NewIdent(s) }

func num(n int64) ast.Expr {
	return &ast.BasicLit{Kind: token.INT, Value: strconv.FormatInt(n, 10)}
}

func str(s string) ast.Expr { return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(s)} }

func par(x ast.Expr) ast.Expr {
	switch x.(type) {
	case *ast.Ident, *ast.ParenExpr, *ast.CallExpr, *ast.IndexExpr, *ast.SelectorExpr, *ast.BasicLit:
		return x
	}
	return &ast.ParenExpr{X: x}
}

func not(x ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.NOT, X: par(x)} }

func bin(a ast.Expr, op token.Token, b ast.Expr) ast.Expr {
	return &ast.BinaryExpr{X: par(a), Op: op, Y: par(b)}
}

func call(f string, args ...ast.Expr) *ast.CallExpr {
	var fun ast.Expr = id(f)
	if i := strings.Index(f, "."); i >= 0 {
		fun = &ast.SelectorExpr{X: id(f[:i]), Sel: id(f[i+1:])}
		if j := strings.LastIndex(f, "."); j != i {
			fun = &ast.SelectorExpr{X: fun, Sel: id(f[j+1:])}
			fun.(*ast.SelectorExpr).X.(*ast.SelectorExpr).Sel = id(f[i+1 : j])
		}
	}
	return &ast.CallExpr{Fun: fun, Args: args}
}

func ret(xs ...ast.Expr) ast.Stmt { return &ast.ReturnStmt{Results: xs} }

func define(n string, x ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{x}}
}

func blockOf(s ...ast.Stmt) *ast.BlockStmt { return &ast.BlockStmt{List: s} }

func (r *rw) typeOf(x ast.Expr) types.Type { return r.pkg.TypesInfo.TypeOf(x) }

// constant tells the integer value of a constant expression.
func (r *rw) intConst(x ast.Expr) (int64, bool) {
	tv, ok := r.pkg.TypesInfo.Types[x]
	if !ok || tv.Value == nil {
		return 0, false
	}
	v := constant.ToInt(tv.Value)
	if v.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(v)
}

func (r *rw) strConst(x ast.Expr) (string, bool) {
	tv, ok := r.pkg.TypesInfo.Types[x]
	if !ok || tv.Value == nil || tv.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(tv.Value), true
}

func isBasic(t types.Type, f types.BasicInfo) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&f != 0 && b.Info()&types.IsUntyped == 0
}

// typeExpr writes a type in this file, if its packages are imported.
func (r *rw) typeExpr(t types.Type) (ast.Expr, bool) {
	ok := true
	s := types.TypeString(t, func(p *types.Package) string {
		if p == r.pkg.Types {
			return ""
		}
		for _, i := range r.file.Imports {
			v, _ := strconv.Unquote(i.Path.Value)
			if v == p.Path() {
				if i.Name != nil {
					return i.Name.Name
				}
				return p.Name()
			}
		}
		ok = false
		return p.Name()
	})
	if strings.Contains(s, "untyped") || strings.Contains(s, "{") || strings.Contains(s, "invalid") {
		return nil, false
	}
	if b, is := t.(*types.Basic); is && b.Kind() == types.UntypedNil {
		return nil, false
	}
	if n, is := t.(*types.Named); is && n.Obj().Pkg() != nil && n.Obj().Pkg() != r.pkg.Types && !n.Obj().Exported() {
		return nil, false
	}
	return id(s), ok
}

func (r *rw) callee(c *ast.CallExpr) string {
	switch f := c.Fun.(type) {
	case *ast.SelectorExpr:
		if o, ok := r.pkg.TypesInfo.Uses[f.Sel].(*types.Func); ok && o.Type().(*types.Signature).Recv() == nil {
			return o.Pkg().Name() + "." + o.Name()
		}
	case *ast.Ident:
		if o := r.pkg.TypesInfo.Uses[f]; o != nil {
			return o.Name()
		}
	}
	return ""
}

// funcs calls f on every function body.
func (r *rw) funcs(f func(d *ast.FuncDecl)) {
	for _, d := range r.file.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			f(fd)
		}
	}
}

// post rewrites every node of the function bodies, inner nodes first.
func (r *rw) post(f func(c *astutil.Cursor)) {
	r.funcs(func(d *ast.FuncDecl) {
		r.sig = []*ast.FuncType{d.Type}
		astutil.Apply(d.Body, func(c *astutil.Cursor) bool {
			if x, ok := c.Node().(*ast.FuncLit); ok {
				r.sig = append(r.sig, x.Type)
			}
			return true
		}, func(c *astutil.Cursor) bool {
			f(c)
			if _, ok := c.Node().(*ast.FuncLit); ok {
				r.sig = r.sig[:len(r.sig)-1]
			}
			return true
		})
	})
}

func has(n ast.Node, f func(ast.Node) bool) bool {
	found := false
	ast.Inspect(n, func(n ast.Node) bool {
		if n != nil && f(n) {
			found = true
		}
		return !found
	})
	return found
}

func branches(n ast.Node) bool {
	return has(n, func(n ast.Node) bool { _, ok := n.(*ast.BranchStmt); return ok })
}

// ends tells whether a list of statements ends in a return or panic.
func ends(l []ast.Stmt) bool {
	if len(l) == 0 {
		return false
	}
	switch s := l[len(l)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BlockStmt:
		return ends(s.List)
	case *ast.IfStmt:
		if !ends(s.Body.List) || s.Else == nil {
			return false
		}
		return ends([]ast.Stmt{s.Else})
	case *ast.SwitchStmt:
		def := false
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			def = def || cc.List == nil
			if !ends(cc.Body) || branches(cc) {
				return false
			}
		}
		return def
	}
	return false
}

// pure tells whether an expression has no effect and may be evaluated anywhere.
func (r *rw) pure(x ast.Expr) bool {
	return !has(x, func(n ast.Node) bool {
		switch y := n.(type) {
		case *ast.IndexExpr, *ast.StarExpr, *ast.SliceExpr, *ast.FuncLit, *ast.TypeAssertExpr:
			return true
		case *ast.CallExpr:
			return !r.pkg.TypesInfo.Types[y.Fun].IsType()
		case *ast.UnaryExpr:
			return y.Op == token.AND
		case *ast.BinaryExpr:
			return y.Op == token.QUO || y.Op == token.REM
		}
		return false
	})
}

// results lists the types of the results of the function around.
func (r *rw) results() []ast.Expr {
	ft := r.sig[len(r.sig)-1]
	var out []ast.Expr
	if ft.Results == nil {
		return nil
	}
	for _, f := range ft.Results.List {
		for k := 0; k < len(f.Names) || k == 0; k++ {
			out = append(out, f.Type)
		}
	}
	return out
}

// free lists the local variables an expression uses.
func (r *rw) free(x ast.Node) ([]*types.Var, bool) {
	var out []*types.Var
	ok := true
	seen := map[types.Object]bool{}
	ast.Inspect(x, func(n ast.Node) bool {
		i, is := n.(*ast.Ident)
		if !is {
			return true
		}
		o := r.pkg.TypesInfo.Uses[i]
		if o == nil {
			if r.pkg.TypesInfo.Defs[i] != nil {
				ok = false
			}
			return true
		}
		v, is := o.(*types.Var)
		if !is || v.IsField() || seen[o] || v.Parent() == r.pkg.Types.Scope() || v.Pkg() != r.pkg.Types {
			if c, is := o.(*types.Const); is && c.Parent() != r.pkg.Types.Scope() && c.Pkg() == r.pkg.Types {
				ok = false
			}
			return true
		}
		seen[o] = true
		out = append(out, v)
		return true
	})
	if has(x, func(n ast.Node) bool { _, is := n.(*ast.FuncLit); return is }) {
		ok = false
	}
	return out, ok
}

// extract moves an expression to a function of its own and returns the call.
func (r *rw) extract(x ast.Expr) ast.Expr {
	t := r.typeOf(x)
	if t == nil {
		return nil
	}
	if tv := r.pkg.TypesInfo.Types[x]; tv.Value != nil || tv.IsType() {
		return nil
	}
	te, ok := r.typeExpr(types.Default(t))
	if !ok {
		return nil
	}
	vs, ok := r.free(x)
	if !ok {
		return nil
	}
	var ps []*ast.Field
	var args []ast.Expr
	for _, v := range vs {
		pt, ok := r.typeExpr(v.Type())
		if !ok {
			return nil
		}
		ps = append(ps, &ast.Field{Names: []*ast.Ident{id(v.Name())}, Type: pt})
		args = append(args, id(v.Name()))
	}
	n := r.name("part")
	r.add = append(r.add, &ast.FuncDecl{Name: id(n), Type: &ast.FuncType{Params: &ast.FieldList{List: ps}, Results: &ast.FieldList{List: []*ast.Field{{Type: te}}}}, Body: blockOf(ret(x))})
	return call(n, args...)
}

func closure(t ast.Expr, l ...ast.Stmt) ast.Expr {
	return &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Type: t}}}}, Body: blockOf(l...)}}
}
