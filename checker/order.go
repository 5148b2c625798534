package main

import (
	"fmt"
	"strings"
)

// comparing is what a sort compares: whether element a goes before element b,
// as a boolean function, and the same with the elements exchanged.
type comparing struct {
	s    *Sem
	ef   *Effect
	a, b *Term
	less Node // a before b
	more Node // b before a
}

// comparing reads the comparison of a sort effect; nil if it is not known.
func (s *Sem) comparing(ef *Effect) *comparing {
	e := s.e
	elem := sliceElem(ef.args[0].typ)
	c := &comparing{s: s, ef: ef}
	c.a = e.mk(ONamed, "one element", elem)
	c.b = e.mk(ONamed, "another element", elem)
	if ef.res == nil {
		switch ef.name {
		case "sort.Strings", "sort.Ints", "slices.Sort":
			c.less = e.Cond(e.Lt(c.a, c.b))
		default:
			return nil
		}
	} else {
		var L *Loop
		for _, l := range e.allLoops {
			if l.kind == ef.name && l.frame == ef.frame && l.pos == ef.instr.Pos() && l.ret == ef.res {
				L = l
			}
		}
		if L == nil {
			return nil
		}
		pa, pb := e.mk(OParam, fmt.Sprintf("cmp%d.a", L.id), nil), e.mk(OParam, fmt.Sprintf("cmp%d.b", L.id), nil)
		r := ef.res
		var n Node
		if isBoolTerm(r) {
			n = e.Cond(r)
		} else {
			n = e.Cond(e.Lt(r, e.Int(0)))
		}
		if strings.HasPrefix(ef.name, "sort.") {
			n = s.elements(n, pa, c.a)
			n = s.elements(n, pb, c.b)
		} else {
			n = e.SubstNode(n, map[*Term]*Term{pa: c.a, pb: c.b})
		}
		c.less = n
	}
	c.less = s.comparisons(c.less)
	// exchange the two
	t := e.mk(ONamed, "third element", elem)
	c.more = e.SubstNode(e.SubstNode(e.SubstNode(c.less, map[*Term]*Term{c.a: t}), map[*Term]*Term{c.b: c.a}), map[*Term]*Term{t: c.b})
	c.more = s.comparisons(c.more)
	return c
}

// elements replaces the elements at index i by x.
func (s *Sem) elements(n Node, i, x *Term) Node {
	sb := &substituter{u: s.e.U, m: map[*Term]*Term{}, memo: map[*Term]*Term{}, nmemo: map[Node]Node{}}
	sb.f = func(t *Term) *Term {
		if t.op == OIndex && t.args[1] == i {
			return x
		}
		return nil
	}
	return sb.nodeS(n)
}

// threeWay recognises a call that compares two values and gives a negative,
// zero or positive number.
func threeWay(t *Term) (x, y *Term, ok bool) {
	t = unconv(t)
	if t.op == OCall && len(t.args) == 2 && (t.aux == "strings.Compare" || strings.HasPrefix(t.aux, "cmp.Compare") || t.aux == "bytes.Compare") {
		return t.args[0], t.args[1], true
	}
	if t.op == OBin && t.aux == "-" {
		return unconv(t.args[0]), unconv(t.args[1]), true
	}
	return nil, nil, false
}

func isThreeWay(t *Term) bool {
	_, _, ok := threeWay(t)
	return ok
}

// comparisons rewrites tests on the result of three-way comparisons as tests
// on what they compare.
func (s *Sem) comparisons(n Node) Node {
	e := s.e
	b := e.bdd
	sb := &substituter{u: e.U, m: map[*Term]*Term{}, memo: map[*Term]*Term{}, nmemo: map[Node]Node{}}
	lt := func(x, y *Term) Node { return e.Cond(e.Lt(x, y)) }
	sb.f = func(t *Term) *Term {
		if t.op == OCall && strings.HasPrefix(t.aux, "cmp.Less") && len(t.args) == 2 {
			return e.Bool(s.comparisons(lt(t.args[0], t.args[1])))
		}
		if t.op != OLt && t.op != OEq {
			return nil
		}
		for i := range t.args {
			// case by case
			if g := unconv(t.args[i]); g.op == OGate && t.args[1-i].op == OConst {
				r := False
				for _, a := range e.alts(g) {
					k := e.Eq(a.t, t.args[1-i])
					if t.op == OLt && i == 0 {
						k = e.Lt(a.t, t.args[1])
					} else if t.op == OLt {
						k = e.Lt(t.args[0], a.t)
					}
					r = b.Or(r, b.And(sb.nodeS(a.c), s.comparisons(e.Cond(k))))
				}
				return e.Bool(r)
			}
		}
		if t.op == OLt {
			if x, y := unconv(t.args[0]), unconv(t.args[1]); x != t.args[0] || y != t.args[1] {
				return e.Bool(s.comparisons(lt(x, y)))
			}
			// of two values one is smaller or they are equal
			switch x, y := t.args[0], t.args[1]; {
			case y.op == OConst && y.aux == `""`:
				return e.Bool(False)
			case x.op == OConst && x.aux == `""`:
				return e.Bool(b.Not(e.Cond(e.Eq(x, y))))
			case x.op == OConst || y.op == OConst:
			case isThreeWay(x) || isThreeWay(y):
			case x.id < y.id:
				return e.Bool(b.And(e.Atom(t), b.Not(e.Cond(e.Eq(x, y)))))
			default:
				return e.Bool(b.And(b.Not(lt(y, x)), b.Not(e.Cond(e.Eq(x, y)))))
			}
		}
		if x, y, ok := threeWay(t.args[0]); ok && t.args[1].op == OConst {
			switch {
			case t.op == OLt && t.args[1].aux == "0", t.op == OEq && t.args[1].aux == "-1" && unconv(t.args[0]).op == OCall:
				return e.Bool(s.comparisons(lt(x, y)))
			case t.op == OLt && t.args[1].aux == "1":
				return e.Bool(b.Not(s.comparisons(lt(y, x))))
			case t.op == OEq && t.args[1].aux == "0":
				return e.Eq(x, y)
			case t.op == OEq && t.args[1].aux == "1" && unconv(t.args[0]).op == OCall:
				return e.Bool(s.comparisons(lt(y, x)))
			}
		}
		if x, y, ok := threeWay(t.args[1]); ok && t.op == OLt && t.args[0].op == OConst && t.args[0].aux == "0" {
			return e.Bool(s.comparisons(lt(y, x)))
		}
		return nil
	}
	return sb.nodeS(n)
}

// tie is the condition that the sort takes the two elements for equal.
func (c *comparing) tie() Node {
	b := c.s.e.bdd
	return b.And(b.Not(c.less), b.Not(c.more))
}

// consistent: no two elements go before each other.
func (c *comparing) consistent() (bool, string) {
	b := c.s.e.bdd
	if n := b.And(c.less, c.more, c.s.care(c.less, c.more)); n != False {
		return false, "each of two elements can go before the other: " + c.s.cube(n)
	}
	return true, ""
}

// by reports whether elements are ordered by key first of all.
func (c *comparing) by(key func(x *Term) *Term) (bool, string) {
	s, e := c.s, c.s.e
	b := e.bdd
	ka, kb := key(c.a), key(c.b)
	up := s.comparisons(e.Cond(e.Lt(ka, kb)))
	down := s.comparisons(e.Cond(e.Lt(kb, ka)))
	if n := b.And(up, b.Not(c.less)); n != False {
		return false, "an element with a smaller key need not go first"
	}
	if n := b.And(down, c.less); n != False {
		return false, "an element with a larger key can go first"
	}
	return true, ""
}

// sorting is how a list got its order.
type sorting struct {
	list *Term   // the list that was sorted
	ef   *Effect // the sort; nil if the list is made sorted by natural order
	put  *Effect // if the list was derived from it in order: where its elements are added
	elem *Term   // and the element of the sorted list they are added for
}

// sorted finds the sort that decides the order of list at effect at; nil if
// the list is not sorted.
func (s *Sem) sorted(list *Term, at *Effect, pc Node) *sorting {
	return s.sortedAt(list, at, pc, 0)
}

func (s *Sem) sortedAt(list *Term, at *Effect, pc Node, depth int) *sorting {
	e := s.e
	list = original(list)
	if depth > 6 {
		return nil
	}
	if list.op == OGate {
		var found *sorting
		for _, a := range e.alts(list) {
			if e.isNil(a.t) {
				continue
			}
			k := e.bdd.And(pc, a.c)
			if k == False {
				continue
			}
			x := s.sortedAt(a.t, at, k, depth+1)
			if x == nil || found != nil {
				return nil
			}
			found = x
		}
		return found
	}
	var last *Effect
	for _, ef := range e.effects {
		if at != nil && ef.seq >= at.seq || len(ef.args) == 0 {
			continue
		}
		switch ef.kind {
		case "sort":
			if original(ef.args[0]) == list && e.bdd.And(pc, e.bdd.Not(ef.pc), s.loopCare(ef.pc, ef.loops, nil)) == False && s.around(ef, at) {
				last = ef
			}
		case "reverse", "copy", "clear":
			if original(ef.args[0]) == list {
				last = nil
			}
		case "store", "fieldset":
			if ef.args[0].op == OIAddr && original(ef.args[0].args[0]) == list && last != nil {
				last = nil
			}
		}
	}
	if last != nil {
		return &sorting{list: list, ef: last}
	}
	switch list.op {
	case OFilter:
		return s.sortedAt(list.args[0], at, pc, depth+1)
	case OCall:
		if strings.HasPrefix(list.aux, "sorted:") {
			return &sorting{list: list}
		}
		if list.aux == "slices.Compact" {
			return s.sortedAt(list.args[0], at, pc, depth+1)
		}
	}
	// built from a sorted list in order
	srcs := s.q.elems(list, nil)
	if len(srcs) != 1 || srcs[0].eff == nil || srcs[0].partial || len(srcs[0].loops) == 0 {
		return nil
	}
	src := srcs[0]
	L := src.loops[len(src.loops)-1]
	if L.kind != "index" || L.container == nil || L.reversed {
		return nil
	}
	switch list.op {
	case OLV:
		if list.loop != L {
			return nil
		}
	case OObj:
		if src.key == nil || src.key.op != OIdx || src.key.loop != L {
			return nil
		}
	default:
		return nil
	}
	x := s.sortedAt(L.container, src.eff, src.pc, depth+1)
	if x == nil || x.put != nil {
		return nil
	}
	x.put = src.eff
	x.elem = s.q.elemOf(L.container, L)
	return x
}

// around: the loops around a sort are around its use, too.
func (s *Sem) around(sort, use *Effect) bool {
	if use == nil {
		return len(sort.loops) == 0
	}
	for _, l := range sort.loops {
		if !hasLoop(use.loops, l) {
			return false
		}
	}
	return true
}
