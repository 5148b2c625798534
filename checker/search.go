package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Search is a worklist loop that walks the call graph.
type Search struct {
	s       *Sem
	w       *Worklist
	dir     string // "In" when callers are explored, "Out" when callees are
	visited *Term
	pushes  []Event // terms[0] is the node pushed
	seeds   []Event
	marks   []*Effect
	base    Node // the search is made at all; False means always
}

// given is the condition under which the search is made.
func (sr *Search) given() Node {
	if sr.base == False {
		return True
	}
	return sr.base
}

func (sr *Search) where() string { return sr.s.c.pos(sr.w.loop.pos) }
func (sr *Search) fnName() string {
	if sr.w.loop.frame != nil {
		return sr.w.loop.frame.fn.Name()
	}
	return sr.s.fn
}

// edgeEnd splits a node term into the call edge and the end it names.
func edgeEnd(t *Term) (edge *Term, end string) {
	if t.op == OField && (t.aux == "Caller" || t.aux == "Callee") {
		return t.args[0], t.aux
	}
	return nil, ""
}

// searches lists the worklist loops over call graph nodes.
func (s *Sem) searches() []*Search {
	if s.found != nil {
		return s.found
	}
	for _, w := range s.wl {
		var el types.Type
		if w.lv != nil {
			el = sliceElem(w.lv.typ)
		} else if w.item != nil {
			el = w.item.typ
		}
		if !isNodeType(el) {
			continue
		}
		sr := &Search{s: s, w: w}
		for _, b := range w.back {
			sr.pushes = append(sr.pushes, s.sourceEvents(b)...)
		}
		for _, b := range w.seed {
			sr.seeds = append(sr.seeds, s.sourceEvents(b)...)
		}
		for _, p := range sr.pushes {
			edge, _ := edgeEnd(p.terms[0])
			if edge == nil || edge.op != OElem {
				continue
			}
			c := edge.args[0]
			if c.op == OField && (c.aux == "In" || c.aux == "Out") {
				sr.dir = c.aux
			}
		}
		sr.findVisited()
		s.found = append(s.found, sr)
	}
	return s.found
}

// sourceEvents turns the way an element gets into a list into events.
func (s *Sem) sourceEvents(b Source) []Event {
	if b.eff == nil {
		return []Event{{pc: b.pc, loops: b.loops, terms: []*Term{b.val}, cont: map[*Loop]*Term{}, cut: b.partial}}
	}
	ev := Event{pc: b.pc, loops: b.loops, terms: []*Term{b.val}, eff: b.eff, cont: map[*Loop]*Term{}, cut: b.partial}
	if b.sym && b.cont != nil {
		return []Event{ev}
	}
	var out []Event
	for _, x := range s.q.expand(ev) {
		x.terms[0] = s.norm(x.terms[0], x.eff)
		out = append(out, x)
	}
	return out
}

// findVisited finds the set that keeps a node from being pushed twice.
func (sr *Search) findVisited() {
	s := sr.s
	for _, p := range sr.pushes {
		for _, v := range s.e.bdd.Support(p.pc) {
			m, k, ok := s.q.member(s.e.atoms[v])
			if !ok {
				m, k, ok = s.q.nilEntry(s.e.atoms[v])
			}
			if !ok || m.op != OObj || s.norm(k, nil) != p.terms[0] {
				continue
			}
			// written inside the search itself
			for _, ef := range s.q.mi.sets[m] {
				for _, L := range ef.loops {
					if L == sr.w.loop {
						sr.visited = m
						s.keep[m] = true
						s.q.stop[m] = true
					}
				}
			}
		}
	}
}

// checkVisited checks that nodes are marked exactly when they are put on the
// list, for this search only.
func (sr *Search) checkVisited(rule string) {
	s, c := sr.s, sr.s.c
	e := s.e
	if sr.visited == nil {
		c.fail(rule, sr.where(), sr.fnName(), "no set of visited nodes guards the search list, so a node can be processed more than once or the search may not end")
		return
	}
	oi := sr.visited.obj.(*ObjInfo)
	for _, L := range sr.w.loop.parents {
		in := false
		for _, x := range oi.loops {
			in = in || x == L
		}
		if !in {
			c.fail(rule, c.pos(oi.instr.Pos()), sr.fnName(), "the set of visited nodes is shared between the iterations of the loop at %s, so nodes reached in one search are missed in the next", c.pos(L.pos))
		}
	}
	if len(s.q.mi.dels[sr.visited]) > 0 {
		c.failEff(rule, s.q.mi.dels[sr.visited][0], "nodes are removed from the set of visited nodes")
	}
	type group struct {
		mark, push Node
		where      *Effect
		care       Node
	}
	gs := map[string]*group{}
	add := func(x Event, mark bool) {
		k := s.normKey(x)
		g := gs[k]
		if g == nil {
			g = &group{mark: False, push: False, care: True}
			gs[k] = g
		}
		pc := s.normN(x.pc, x.eff)
		g.care = e.bdd.And(g.care, s.loopCare(pc, append(append([]*Loop(nil), x.loops...), x.via...), x.cont))
		if mark {
			g.mark = e.bdd.Or(g.mark, pc)
		} else {
			g.push = e.bdd.Or(g.push, pc)
		}
		if g.where == nil {
			g.where = x.eff
		}
	}
	for _, ef := range s.q.mi.sets[sr.visited] {
		ev := s.q.event(ef, ef.args[1])
		for _, x := range s.q.expand(ev) {
			x.terms[0] = s.norm(x.terms[0], x.eff)
			add(x, true)
		}
		sr.marks = append(sr.marks, ef)
	}
	for _, x := range sr.pushes {
		add(x, false)
	}
	for _, x := range sr.seeds {
		if x.eff != nil {
			add(x, false)
		}
	}
	for _, g := range gs {
		if ok, why := s.same(g.mark, g.push, g.care); !ok {
			c.failEff(rule, g.where, "marking a node as visited does not coincide with putting it on the search list: %s", why)
		} else {
			c.okEff(rule, g.where)
		}
	}
}

// normKey identifies the node of an event and the loops it is found in.
func (s *Sem) normKey(x Event) string {
	var ls []string
	for _, L := range x.loops {
		ls = append(ls, fmt.Sprint(L.id))
	}
	return fmt.Sprint(x.terms[0].id) + "/" + strings.Join(ls, ",")
}

// loopsOK checks that an event happens only inside the given kinds of loops,
// none of which can be left early and none of which runs over a cut list.
func (s *Sem) loopsOK(rule string, x Event, allowed func(L *Loop, c *Term) bool) bool {
	c := s.c
	good := true
	for _, L := range x.loops {
		if !allowed(L, x.container(L)) {
			c.failEff(rule, x.eff, "this happens inside an unexpected loop at %s over %s", c.pos(L.pos), s.short(orNil(s.e, x.container(L))))
			good = false
		}
	}
	for _, why := range s.exitsOf(x) {
		c.failEff(rule, x.eff, "items can be missed: %s", shorten.Replace(why))
		good = false
	}
	if x.cut {
		c.failEff(rule, x.eff, "only part of a list is used")
		good = false
	}
	return good
}

func orNil(e *Eval, t *Term) *Term {
	if t == nil {
		return e.Nil()
	}
	return t
}
