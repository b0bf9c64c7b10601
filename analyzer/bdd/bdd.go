// Package bdd is the canonical representation of the Boolean functions that the
// bit-level dataflow domain attaches to every bit of an abstract value.
package bdd

import "fmt"

// Node identifies a Boolean function. Two functions are equal iff their nodes are.
type Node int32

const (
	False Node = 0
	True  Node = 1
)

type rec struct {
	v      int32
	lo, hi Node
}

type iteKey struct{ f, g, h Node }

// B is a BDD manager.
type B struct {
	nodes []rec
	uniq  map[rec]Node
	cache map[iteKey]Node
	names []string
	Limit int
}

// ErrLimit is the panic value when the domain would exceed its size bound.
type ErrLimit struct{}

func (ErrLimit) Error() string { return "bit-domain size bound exceeded" }

func New() *B {
	b := &B{uniq: map[rec]Node{}, cache: map[iteKey]Node{}, Limit: 12000000}
	b.nodes = append(b.nodes, rec{1 << 30, 0, 0}, rec{1 << 30, 1, 1})
	return b
}

// Var allocates a new variable and returns its positive literal.
func (b *B) Var(name string) Node {
	v := int32(len(b.names))
	b.names = append(b.names, name)
	return b.mk(v, False, True)
}

func (b *B) NumVars() int                 { return len(b.names) }
func (b *B) Name(v int) string            { return b.names[v] }
func (b *B) Size() int                    { return len(b.nodes) }
func (b *B) Level(n Node) int             { return int(b.nodes[n].v) }
func (b *B) Children(n Node) (Node, Node) { return b.nodes[n].lo, b.nodes[n].hi }

func (b *B) mk(v int32, lo, hi Node) Node {
	if lo == hi {
		return lo
	}
	k := rec{v, lo, hi}
	if n, ok := b.uniq[k]; ok {
		return n
	}
	if len(b.nodes) > b.Limit {
		panic(ErrLimit{})
	}
	n := Node(len(b.nodes))
	b.nodes = append(b.nodes, k)
	b.uniq[k] = n
	return n
}

func (b *B) Ite(f, g, h Node) Node {
	switch {
	case f == True:
		return g
	case f == False:
		return h
	case g == h:
		return g
	case g == True && h == False:
		return f
	}
	if f == g {
		g = True
	}
	if f == h {
		h = False
	}
	if g == True && h == False {
		return f
	}
	if g == h {
		return g
	}
	k := iteKey{f, g, h}
	if r, ok := b.cache[k]; ok {
		return r
	}
	v := b.nodes[f].v
	if x := b.nodes[g].v; x < v {
		v = x
	}
	if x := b.nodes[h].v; x < v {
		v = x
	}
	f0, f1 := b.cof(f, v)
	g0, g1 := b.cof(g, v)
	h0, h1 := b.cof(h, v)
	r := b.mk(v, b.Ite(f0, g0, h0), b.Ite(f1, g1, h1))
	b.cache[k] = r
	return r
}

func (b *B) cof(n Node, v int32) (Node, Node) {
	r := &b.nodes[n]
	if r.v != v {
		return n, n
	}
	return r.lo, r.hi
}

func (b *B) Not(f Node) Node        { return b.Ite(f, False, True) }
func (b *B) And(f, g Node) Node     { return b.Ite(f, g, False) }
func (b *B) Or(f, g Node) Node      { return b.Ite(f, True, g) }
func (b *B) Xor(f, g Node) Node     { return b.Ite(f, b.Not(g), g) }
func (b *B) Eqv(f, g Node) Node     { return b.Ite(f, g, b.Not(g)) }
func (b *B) Diff(f, g Node) Node    { return b.And(f, b.Not(g)) }
func (b *B) Implies(f, g Node) bool { return b.Ite(f, b.Not(g), False) == False }

// AndN folds And.
func (b *B) AndN(ns ...Node) Node {
	r := True
	for _, n := range ns {
		r = b.And(r, n)
	}
	return r
}

// OrN folds Or.
func (b *B) OrN(ns ...Node) Node {
	r := False
	for _, n := range ns {
		r = b.Or(r, n)
	}
	return r
}

// Under gives the value of n where it is constant under g: 0, 1, or -1 when it is not.
func (b *B) Under(n, g Node) int {
	if n == True {
		return 1
	}
	if n == False {
		return 0
	}
	if b.Implies(g, n) {
		return 1
	}
	if b.And(g, n) == False {
		return 0
	}
	return -1
}

// SatOne returns one assignment (variable -> value) of a satisfiable function.
func (b *B) SatOne(n Node) map[int]bool {
	m := map[int]bool{}
	for n != True {
		if n == False {
			return nil
		}
		r := b.nodes[n]
		if r.lo != False {
			m[int(r.v)] = false
			n = r.lo
		} else {
			m[int(r.v)] = true
			n = r.hi
		}
	}
	return m
}

// Restrict substitutes constants for variables.
func (b *B) Restrict(n Node, m map[int]bool) Node {
	memo := map[Node]Node{}
	var f func(Node) Node
	f = func(n Node) Node {
		if n <= 1 {
			return n
		}
		if r, ok := memo[n]; ok {
			return r
		}
		r := b.nodes[n]
		var out Node
		if v, ok := m[int(r.v)]; ok {
			if v {
				out = f(r.hi)
			} else {
				out = f(r.lo)
			}
		} else {
			out = b.mk(r.v, f(r.lo), f(r.hi))
		}
		memo[n] = out
		return out
	}
	return f(n)
}

// At is the value of a function where the variables have the given values.
func (b *B) At(n Node, f func(v int) bool) bool {
	for n > 1 {
		if r := b.nodes[n]; f(int(r.v)) {
			n = r.hi
		} else {
			n = r.lo
		}
	}
	return n == True
}

// Support is the set of variables a function depends on.
func (b *B) Support(ns ...Node) map[int]bool {
	seen := map[Node]bool{}
	s := map[int]bool{}
	var f func(Node)
	f = func(n Node) {
		if n <= 1 || seen[n] {
			return
		}
		seen[n] = true
		r := b.nodes[n]
		s[int(r.v)] = true
		f(r.lo)
		f(r.hi)
	}
	for _, n := range ns {
		f(n)
	}
	return s
}

// Exists quantifies the variables of vs out of n.
func (b *B) Exists(n Node, vs map[int]bool) Node {
	memo := map[Node]Node{}
	var f func(Node) Node
	f = func(n Node) Node {
		if n <= 1 {
			return n
		}
		if r, ok := memo[n]; ok {
			return r
		}
		r := b.nodes[n]
		lo, hi := f(r.lo), f(r.hi)
		var out Node
		if vs[int(r.v)] {
			out = b.Or(lo, hi)
		} else {
			out = b.mk2(r.v, lo, hi)
		}
		memo[n] = out
		return out
	}
	return f(n)
}

func (b *B) mk2(v int32, lo, hi Node) Node { return b.mk(v, lo, hi) }

// String gives a short description, for reports.
func (b *B) String(n Node) string {
	switch n {
	case True:
		return "1"
	case False:
		return "0"
	}
	r := b.nodes[n]
	if r.lo == False && r.hi == True {
		return b.names[r.v]
	}
	if r.lo == True && r.hi == False {
		return "!" + b.names[r.v]
	}
	// a pure conjunction of literals
	s := ""
	m := n
	for m > 1 {
		r := b.nodes[m]
		sep := ""
		if s != "" {
			sep = "&"
		}
		if r.lo == False {
			s += sep + b.names[r.v]
			m = r.hi
		} else if r.hi == False {
			s += sep + "!" + b.names[r.v]
			m = r.lo
		} else {
			return fmt.Sprintf("f%d(%d vars)", n, len(b.Support(n)))
		}
	}
	return s
}

// Simplify is a smaller function that agrees with f wherever care holds.
func (b *B) Simplify(f, care Node) Node {
	memo := map[[2]Node]Node{}
	var r func(f, c Node) Node
	r = func(f, c Node) Node {
		if f <= 1 || c == True || c == False {
			return f
		}
		k := [2]Node{f, c}
		if x, ok := memo[k]; ok {
			return x
		}
		fv, cv := b.nodes[f].v, b.nodes[c].v
		var out Node
		if cv < fv {
			out = r(f, b.Or(b.nodes[c].lo, b.nodes[c].hi))
		} else {
			c0, c1 := b.cof(c, fv)
			f0, f1 := b.nodes[f].lo, b.nodes[f].hi
			if c0 == False {
				out = r(f1, c1)
			} else if c1 == False {
				out = r(f0, c0)
			} else {
				out = b.mk(fv, r(f0, c0), r(f1, c1))
			}
		}
		memo[k] = out
		return out
	}
	return r(f, care)
}

// VarNode is the positive literal of a variable.
func (b *B) VarNode(v int) Node { return b.mk(int32(v), False, True) }
