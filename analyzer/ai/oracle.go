package ai

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// OraclePath is the path of the package of reviewed reference functions.
const OraclePath = "verif/oracle"

type importFn func(string) (*types.Package, error)

func (f importFn) Import(p string) (*types.Package, error) { return f(p) }

// AddOracle adds a package of reference functions to the program, to be interpreted next to it.
func (p *Program) AddOracle(name, src string) (*ssa.Package, error) {
	return p.addSource(OraclePath, name, src)
}

// addSource adds a package to the program.
func (p *Program) addSource(path, name, src string) (*ssa.Package, error) {
	f, err := parser.ParseFile(p.SSA.Fset, name, src, parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{},
		Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
	}
	conf := types.Config{Importer: importFn(func(path string) (*types.Package, error) {
		if q := p.By[path]; q != nil {
			return q.Pkg, nil
		}
		return nil, fmt.Errorf("package %s is not part of the program", path)
	})}
	tp, err := conf.Check(path, p.SSA.Fset, []*ast.File{f}, info)
	if err != nil {
		return nil, err
	}
	sp := p.SSA.CreatePackage(tp, []*ast.File{f}, info, false)
	sp.Build()
	return sp, nil
}
