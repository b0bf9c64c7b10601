package checks

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// packageState reports every construct of the module (the command line excepted) that keeps
// something between calls or shares something between goroutines: a write to a package variable
// after initialisation, goroutines, channels, locks, unsafe memory.
func packageState(c *Ctx) {
	all := ssautil.AllFunctions(c.P.SSA)
	n := 0
	for fn := range all {
		pk := fn.Pkg
		if pk == nil && fn.Parent() != nil {
			pk = fn.Parent().Pkg
		}
		if pk == nil || pk.Pkg.Name() == "main" || !strings.HasPrefix(pk.Pkg.Path()+"/", c.P.Mod+"/") {
			continue
		}
		n++
		f := c.fname(fn)
		bad := func(instr ssa.Instruction, rule, what string) {
			c.R.Bad(Viol{Key: rule + "|" + f + "|" + what, Rule: rule, Where: f + " at " + c.rel(c.P.SSA.Fset.Position(instr.Pos()).String()), Detail: what})
		}
		isInit := func() bool {
			for g := fn; g != nil; g = g.Parent() {
				// initialisers may write package variables
				if strings.HasPrefix(g.Name(), "init#") || g.Name() == "init" {
					return true
				}
			}
			return false
		}()
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				for _, o := range i.Operands(nil) {
					if g, ok := (*o).(*ssa.Global); ok && g.Pkg != nil && outside[g.Pkg.Pkg.Path()] && !types.Implements(g.Type().(*types.Pointer).Elem(), errorType) {
						bad(i, "state", "uses "+g.String())
					}
				}
				switch x := i.(type) {
				case *ssa.Store:
					if g := globalOf(x.Addr, 0); g != nil && !isInit {
						bad(i, "state", "writes to the package variable "+g.String())
					}
				case *ssa.MapUpdate:
					if g := globalOf(x.Map, 0); g != nil && !isInit {
						bad(i, "state", "writes to the map in the package variable "+g.String())
					}
				case *ssa.Go:
					bad(i, "state", "starts a goroutine")
				case *ssa.Send, *ssa.Select, *ssa.MakeChan:
					bad(i, "state", "uses a channel")
				case *ssa.Convert:
					if isUnsafe(x.Type()) || isUnsafe(x.X.Type()) {
						bad(i, "state", "uses unsafe memory")
					}
				case ssa.CallInstruction:
					if s := x.Common().StaticCallee(); s != nil && s.Pkg != nil {
						if outside[s.Pkg.Pkg.Path()] && s.Name() != "init" {
							bad(i, "state", "calls "+s.String())
						}
					}
				}
			}
		}
	}
	c.R.Obligation("state", "no function keeps or shares state", true)
	c.R.Count("functions scanned", n)
}

// outside are the packages through which a function can keep state or see its environment.
var outside = map[string]bool{"sync": true, "sync/atomic": true, "time": true, "math/rand": true, "math/rand/v2": true, "crypto/rand": true, "os": true, "net": true,
	"runtime": true, "runtime/debug": true, "unsafe": true, "log": true, "flag": true, "syscall": true, "os/exec": true, "os/user": true, "expvar": true}

var errorType = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func isUnsafe(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

// globalOf finds the package variable that an address or a map comes from.
func globalOf(v ssa.Value, depth int) *ssa.Global {
	if depth > 20 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Global:
		return x
	case *ssa.FieldAddr:
		return globalOf(x.X, depth+1)
	case *ssa.IndexAddr:
		return globalOf(x.X, depth+1)
	case *ssa.UnOp:
		return globalOf(x.X, depth+1)
	case *ssa.Slice:
		return globalOf(x.X, depth+1)
	case *ssa.Field:
		return globalOf(x.X, depth+1)
	case *ssa.Index:
		return globalOf(x.X, depth+1)
	case *ssa.Lookup:
		return globalOf(x.X, depth+1)
	case *ssa.ChangeType:
		return globalOf(x.X, depth+1)
	case *ssa.Extract:
		return globalOf(x.Tuple, depth+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if g := globalOf(e, depth+8); g != nil {
				return g
			}
		}
	}
	return nil
}
