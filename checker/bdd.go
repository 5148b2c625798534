package main

// Canonical boolean functions over atomic tests (reduced ordered decision
// diagrams).  A Node is an index into the table; equal functions have equal
// indices, so comparing conditions is comparing integers.

type Node int32

const (
	False Node = 0
	True  Node = 1
)

type bddNode struct {
	v      int32
	lo, hi Node
}

type BDD struct {
	nodes  []bddNode
	unique map[bddNode]Node
	iteC   map[[3]Node]Node
	resC   map[[2]Node]Node
}

const termVar = int32(1) << 30

func NewBDD() *BDD {
	b := &BDD{unique: map[bddNode]Node{}, iteC: map[[3]Node]Node{}, resC: map[[2]Node]Node{}}
	b.nodes = append(b.nodes, bddNode{v: termVar}, bddNode{v: termVar})
	return b
}

func (b *BDD) mk(v int32, lo, hi Node) Node {
	if lo == hi {
		return lo
	}
	n := bddNode{v, lo, hi}
	if x, ok := b.unique[n]; ok {
		return x
	}
	b.nodes = append(b.nodes, n)
	x := Node(len(b.nodes) - 1)
	b.unique[n] = x
	return x
}

func (b *BDD) Var(v int) Node { return b.mk(int32(v), False, True) }

func (b *BDD) Ite(f, g, h Node) Node {
	switch {
	case f == True:
		return g
	case f == False:
		return h
	case g == h:
		return g
	case g == True && h == False:
		return f
	}
	k := [3]Node{f, g, h}
	if r, ok := b.iteC[k]; ok {
		return r
	}
	v := min(b.nodes[f].v, b.nodes[g].v, b.nodes[h].v)
	co := func(n Node, hi bool) Node {
		if b.nodes[n].v != v {
			return n
		}
		if hi {
			return b.nodes[n].hi
		}
		return b.nodes[n].lo
	}
	lo := b.Ite(co(f, false), co(g, false), co(h, false))
	hi := b.Ite(co(f, true), co(g, true), co(h, true))
	r := b.mk(v, lo, hi)
	b.iteC[k] = r
	return r
}

func (b *BDD) And(xs ...Node) Node {
	r := True
	for _, x := range xs {
		r = b.Ite(r, x, False)
	}
	return r
}
func (b *BDD) Or(xs ...Node) Node {
	r := False
	for _, x := range xs {
		r = b.Ite(r, True, x)
	}
	return r
}
func (b *BDD) Not(x Node) Node        { return b.Ite(x, False, True) }
func (b *BDD) Implies(x, y Node) bool { return b.And(x, b.Not(y)) == False }

// Restrict simplifies f given that c holds: the result agrees with f wherever
// c is true, and depends on no variable f does not depend on.
func (b *BDD) Restrict(f, c Node) Node {
	if c == True || f == True || f == False {
		return f
	}
	if c == False {
		return False
	}
	k := [2]Node{f, c}
	if r, ok := b.resC[k]; ok {
		return r
	}
	var r Node
	nf, nc := b.nodes[f], b.nodes[c]
	switch {
	case nc.v < nf.v:
		r = b.Restrict(f, b.Or(nc.lo, nc.hi))
	case nc.v == nf.v:
		if nc.lo == False {
			r = b.Restrict(nf.hi, nc.hi)
		} else if nc.hi == False {
			r = b.Restrict(nf.lo, nc.lo)
		} else {
			r = b.mk(nf.v, b.Restrict(nf.lo, nc.lo), b.Restrict(nf.hi, nc.hi))
		}
	default:
		r = b.mk(nf.v, b.Restrict(nf.lo, c), b.Restrict(nf.hi, c))
	}
	b.resC[k] = r
	return r
}

// Support lists the variables f depends on, in order.
func (b *BDD) Support(f Node) []int {
	seen := map[Node]bool{}
	vars := map[int]bool{}
	var rec func(Node)
	rec = func(n Node) {
		if n <= True || seen[n] {
			return
		}
		seen[n] = true
		vars[int(b.nodes[n].v)] = true
		rec(b.nodes[n].lo)
		rec(b.nodes[n].hi)
	}
	rec(f)
	var out []int
	for v := range vars {
		out = append(out, v)
	}
	sortInts(out)
	return out
}

// Compose replaces every variable v in f by sub(v).
func (b *BDD) Compose(f Node, sub func(v int) Node) Node {
	memo := map[Node]Node{}
	var rec func(Node) Node
	rec = func(n Node) Node {
		if n <= True {
			return n
		}
		if r, ok := memo[n]; ok {
			return r
		}
		x := b.nodes[n]
		r := b.Ite(sub(int(x.v)), rec(x.hi), rec(x.lo))
		memo[n] = r
		return r
	}
	return rec(f)
}

// Exists quantifies variable v away.
func (b *BDD) Exists(f Node, v int) Node {
	lo := b.Compose(f, func(x int) Node {
		if x == v {
			return False
		}
		return b.Var(x)
	})
	hi := b.Compose(f, func(x int) Node {
		if x == v {
			return True
		}
		return b.Var(x)
	})
	return b.Or(lo, hi)
}

// Cubes enumerates paths to True as maps var->value, up to max.
func (b *BDD) Cubes(f Node, max int) []map[int]bool {
	var out []map[int]bool
	cur := map[int]bool{}
	var rec func(Node)
	rec = func(n Node) {
		if len(out) >= max || n == False {
			return
		}
		if n == True {
			m := map[int]bool{}
			for k, v := range cur {
				m[k] = v
			}
			out = append(out, m)
			return
		}
		x := b.nodes[n]
		cur[int(x.v)] = true
		rec(x.hi)
		cur[int(x.v)] = false
		rec(x.lo)
		delete(cur, int(x.v))
	}
	rec(f)
	return out
}

func sortInts(a []int) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

func (b *BDD) Xor(x, y Node) Node { return b.Ite(x, b.Not(y), y) }

// Cofactor is f with variable v fixed.
func (b *BDD) Cofactor(f Node, v int, val bool) Node {
	return b.Compose(f, func(u int) Node {
		if u == v {
			if val {
				return True
			}
			return False
		}
		return b.Var(u)
	})
}
