// Command mutate lists small changes of a module, one JSON object per line, for tools/mutants.py:
// the checks have to notice each of them that changes the behaviour.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

type mutant struct {
	ID         int
	File, Func string
	Line       int
	Kind       string
	Start, End int
	Repl       string
	Old        string
}

func main() {
	dir := os.Args[1]
	pk, err := packages.Load(&packages.Config{Mode: packages.LoadSyntax, Dir: dir}, "./...")
	if err != nil {
		panic(err)
	}
	sort.Slice(pk, func(i, j int) bool { return pk[i].PkgPath < pk[j].PkgPath })
	mod := ""
	for _, p := range pk {
		if i := strings.Index(p.PkgPath, "/pkg/"); i >= 0 {
			mod = p.PkgPath[:i]
			break
		}
	}
	enc := json.NewEncoder(os.Stdout)
	id := 0
	for _, p := range pk {
		for _, f := range p.Syntax {
			name := p.Fset.File(f.Pos()).Name()
			src, _ := os.ReadFile(name)
			rel, _ := filepath.Rel(dir, name)
			for _, d := range f.Decls {
				fn := ""
				if fd, ok := d.(*ast.FuncDecl); ok {
					fn = p.TypesInfo.Defs[fd.Name].(*types.Func).FullName()
				} else if gd := d.(*ast.GenDecl); gd.Tok == token.IMPORT || gd.Tok == token.TYPE {
					continue
				} else {
					fn = p.PkgPath + ".init"
				}
				fn = strings.ReplaceAll(fn, mod+"/", "")
				emit := func(n ast.Node, kind, repl string) {
					s, e := p.Fset.Position(n.Pos()).Offset, p.Fset.Position(n.End()).Offset
					id++
					enc.Encode(mutant{id, rel, fn, p.Fset.Position(n.Pos()).Line, kind, s, e, repl, string(src[s:e])})
				}
				text := func(n ast.Node) string {
					return string(src[p.Fset.Position(n.Pos()).Offset:p.Fset.Position(n.End()).Offset])
				}
				walk(p, d, emit, text)
			}
		}
	}
}

var ops = map[token.Token][]string{
	token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.AND: {"|"}, token.OR: {"&", "^"}, token.XOR: {"|"},
	token.SHL: {">>"}, token.SHR: {"<<"}, token.LAND: {"||"}, token.LOR: {"&&"},
}

func walk(p *packages.Package, d ast.Decl, emit func(ast.Node, string, string), text func(ast.Node) string) {
	info := p.TypesInfo
	astutil.Apply(d, func(c *astutil.Cursor) bool {
		switch n := c.Node().(type) {
		case *ast.CallExpr:
			if s, ok := n.Fun.(*ast.SelectorExpr); ok {
				if t := text(s); t == "errors.New" || t == "fmt.Errorf" {
					return false
				}
			}
			for i := 0; i+1 < len(n.Args); i++ {
				a, b := info.TypeOf(n.Args[i]), info.TypeOf(n.Args[i+1])
				if types.Identical(a, b) && text(n.Args[i]) != text(n.Args[i+1]) && !strings.HasPrefix(text(n.Args[i]), "\"") {
					emit(&span{n.Args[i].Pos(), n.Args[i+1].End()}, "swap-args", text(n.Args[i+1])+", "+text(n.Args[i]))
				}
			}
			// another function of the same signature
			var fid *ast.Ident
			switch f := n.Fun.(type) {
			case *ast.Ident:
				fid = f
			case *ast.SelectorExpr:
				fid = f.Sel
			}
			if fid != nil {
				if fo, ok := info.Uses[fid].(*types.Func); ok && fo.Pkg() != nil && strings.Contains(fo.Pkg().Path(), "modes") && fo.Type().(*types.Signature).Recv() == nil {
					sc := fo.Pkg().Scope()
					k := 0
					for _, nm := range sc.Names() {
						o, ok := sc.Lookup(nm).(*types.Func)
						if ok && o != fo && (o.Exported() || o.Pkg() == p.Types) && types.Identical(o.Type(), fo.Type()) && k < 1 && nm > fid.Name {
							emit(fid, "other-func", nm)
							k++
						}
					}
				}
			}
		case *ast.BasicLit:
			if _, ok := c.Parent().(*ast.ImportSpec); ok {
				return false
			}
			switch n.Kind {
			case token.INT:
				emit(n, "int+1", "("+n.Value+"+1)")
				if n.Value != "0" {
					emit(n, "int-1", "("+n.Value+"-1)")
				}
				if strings.HasPrefix(n.Value, "0x") || strings.HasPrefix(n.Value, "0X") {
					emit(n, "drop-low", fmt.Sprintf("(%s&(%s-1))", n.Value, n.Value))
					var v uint64
					fmt.Sscanf(n.Value, "%v", &v)
					top := uint64(1)
					for top<<1 <= v {
						top <<= 1
					}
					emit(n, "drop-top", fmt.Sprintf("0x%x", v&^top))
					emit(n, "more-top", fmt.Sprintf("0x%x", v|top<<1))
				}
			case token.FLOAT:
				emit(n, "float", "("+n.Value+"+1.0)")
				emit(n, "float*", "("+n.Value+"*1.01)")
			case token.STRING:
				if len(n.Value) > 2 {
					emit(n, "string", n.Value[:len(n.Value)-1]+"~"+n.Value[len(n.Value)-1:])
				}
			}
		case *ast.BinaryExpr:
			for _, o := range ops[n.Op] {
				emit(&span{n.OpPos, n.OpPos + token.Pos(len(n.Op.String()))}, "op "+n.Op.String()+" to "+o, o)
			}
		case *ast.UnaryExpr:
			if n.Op == token.NOT || n.Op == token.SUB {
				emit(n, "drop-unary", text(n.X))
			}
		case *ast.IfStmt:
			emit(n.Cond, "if-true", "true || ("+text(n.Cond)+")")
			emit(n.Cond, "if-false", "false && ("+text(n.Cond)+")")
		case *ast.AssignStmt:
			if n.Tok != token.DEFINE {
				emit(n, "drop-stmt", "{}")
			}
			if t := n.Tok.String(); len(t) > 1 && n.Tok != token.DEFINE {
				emit(&span{n.TokPos, n.TokPos + token.Pos(len(t))}, "assign-op", "=")
			}
		case *ast.IncDecStmt:
			emit(n, "drop-stmt", "{}")
		case *ast.ExprStmt:
			emit(n, "drop-stmt", "{}")
		case *ast.ReturnStmt:
			for i, e := range n.Results {
				if b, ok := info.TypeOf(e).Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
					emit(e, "return+1", text(e)+" + 1")
				}
				if i == 0 && len(n.Results) == 2 && text(n.Results[1]) == "nil" && text(e) != "nil" {
					if _, ok := info.TypeOf(e).Underlying().(*types.Pointer); ok {
						emit(e, "return-nil", "nil")
					}
				}
			}
		case *ast.KeyValueExpr:
			if _, ok := n.Key.(*ast.Ident); ok {
				emit(n, "drop-field", "")
			}
			return true
		case *ast.BranchStmt:
			if n.Label == nil && n.Tok == token.BREAK {
				emit(n, "break", "{}")
			}
		case *ast.SelectorExpr:
			if s, ok := info.Selections[n]; ok && s.Kind() == types.FieldVal {
				if st, ok := deref(s.Recv()).Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						if st.Field(i) == s.Obj() {
							for j := i + 1; j < i+st.NumFields(); j++ {
								f := st.Field(j % st.NumFields())
								if types.Identical(f.Type(), s.Obj().Type()) && !f.Embedded() {
									emit(n.Sel, "other-field", f.Name())
									break
								}
							}
						}
					}
				}
				return true
			}
			constant(info, n.Sel, emit)
			return false
		case *ast.Ident:
			if n.Name == "true" || n.Name == "false" {
				emit(n, "bool", map[string]string{"true": "false", "false": "true"}[n.Name])
				return true
			}
			if _, ok := c.Parent().(*ast.ValueSpec); !ok {
				constant(info, n, emit)
			}
		}
		return true
	}, nil)
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// constant replaces a named constant by the next one of its type.
func constant(info *types.Info, n *ast.Ident, emit func(ast.Node, string, string)) {
	k, ok := info.Uses[n].(*types.Const)
	if !ok || k.Pkg() == nil || !strings.Contains(k.Pkg().Path(), "modes") {
		return
	}
	sc := k.Pkg().Scope()
	var names []string
	for _, nm := range sc.Names() {
		if o, ok := sc.Lookup(nm).(*types.Const); ok && types.Identical(o.Type(), k.Type()) {
			names = append(names, nm)
		}
	}
	for i, nm := range names {
		if nm == n.Name && len(names) > 1 {
			emit(n, "other-const", names[(i+1)%len(names)])
		}
	}
}

type span struct{ a, b token.Pos }

func (s *span) Pos() token.Pos { return s.a }
func (s *span) End() token.Pos { return s.b }
