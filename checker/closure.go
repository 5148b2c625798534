package main

import (
	"fmt"
	"go/token"
	"go/types"
)

// closure is a walk over some packages and everything they import: a call to
// packages.Visit, or a function that calls itself for the imports.
type closure struct {
	s      *Sem
	roots  *Term   // the packages it starts from
	pkg    *Term   // the package at hand
	loops  []*Loop // what the walk is made of, outermost first
	seen   Node    // the package was met before, so nothing happens
	base   Node    // the walk is made at all
	pos    token.Pos
	fn     string
	starts []step
	bad    []string // why it does not visit every package exactly once
}

func isPackagePtr(t types.Type) bool {
	return t != nil && t.String() == "*golang.org/x/tools/go/packages.Package"
}

// closures lists the walks over packages of the evaluated entry point.
func (s *Sem) closures() []*closure {
	if s.walks != nil {
		return s.walks
	}
	e := s.e
	s.walks = []*closure{}
	for _, l := range e.allLoops {
		switch {
		case l.kind == visitCall+".pre" || l.kind == visitCall+".post":
			cl := &closure{s: s, roots: l.container, pkg: s.q.closureElem(l), loops: []*Loop{l}, seen: False, base: l.pc, pos: l.pos, fn: l.frame.fn.Name()}
			for _, p := range e.allLoops {
				if p.kind == visitCall+".pre" && p.frame == l.frame && p.pos == l.pos && p.ret != nil && e.bdd.And(p.pc, e.bdd.Not(e.Cond(p.ret))) != False {
					cl.bad = append(cl.bad, "the imports of some packages are not visited")
				}
			}
			s.walks = append(s.walks, cl)
		case l.kind == "rec":
			for _, p := range l.recParams {
				if isPackagePtr(p.typ) && p.op == OLV && p.loop == l {
					s.walks = append(s.walks, s.recClosure(l, p))
				}
			}
		}
	}
	for _, w := range s.wl {
		if w.lv != nil && isPackagePtr(sliceElem(w.lv.typ)) {
			s.walks = append(s.walks, s.listClosure(w))
		}
	}
	for _, l := range e.allLoops {
		if cl := s.collectedClosure(l); cl != nil {
			s.walks = append(s.walks, cl)
			s.q.stop[l.container] = true
		}
	}
	return s.walks
}

// collectedClosure recognises a loop over a list another walk has put every
// package on.
func (s *Sem) collectedClosure(l *Loop) *closure {
	e := s.e
	c := l.container
	if l.kind != "index" || c == nil || c.op != OLV || !isPackagePtr(sliceElem(c.typ)) {
		return nil
	}
	srcs := s.q.elems(c, nil)
	if len(srcs) != 1 {
		return nil
	}
	inner, rest := s.walkOf(srcs[0].loops)
	if inner == nil || len(rest) > 0 || srcs[0].val != inner.pkg {
		return nil
	}
	cl := &closure{s: s, roots: inner.roots, pkg: s.q.elemOf(c, l), loops: []*Loop{l}, seen: False, base: l.pc, pos: l.pos, fn: l.frame.fn.Name(), bad: inner.bad}
	n, ok := inner.within(srcs[0].pc)
	if !ok || e.bdd.And(inner.baseCare(), e.bdd.Not(n)) != False {
		cl.fault("some packages are left out of the list, or are put on it twice")
	}
	return cl
}

// step is one move of a walk from a package to another.
type step struct {
	to    *Term
	pc    Node
	loops []*Loop
	pos   token.Pos
}

// recClosure examines a function that calls itself for the imports of a
// package.
func (s *Sem) recClosure(R *Loop, p *Term) *closure {
	e := s.e
	cl := &closure{s: s, pkg: p, seen: False, base: R.pc, pos: R.pos, fn: R.frame.fn.Name()}
	cl.loops = []*Loop{R}
	// the start
	start := R.init[p]
	if start == nil || start.op != OElem {
		cl.fault("the walk starts from something else than the elements of a list")
		return cl
	}
	O := start.loop
	cl.roots = start.args[0]
	cl.loops = []*Loop{O, R}
	if cl.roots.op == OSlice || !hasLoop(R.parents, O) {
		cl.fault("the walk starts from a part of the list only")
	}
	var steps []step
	for _, ef := range e.effects {
		if ef.kind != "reccall" || !hasLoop(ef.loops, R) || ef.name != R.frame.fn.String() {
			continue
		}
		st := step{pc: s.normN(ef.pc, ef), loops: ef.loops, pos: posOf(ef)}
		for _, a := range ef.args {
			if isPackagePtr(a.typ) || a.op == OLookup {
				st.to = a
			}
		}
		steps = append(steps, st)
	}
	cl.examine(R, steps, start)
	return cl
}

// listClosure examines a loop that takes packages off a list and adds their
// imports.
func (s *Sem) listClosure(w *Worklist) *closure {
	cl := &closure{s: s, pkg: w.item, seen: False, base: w.loop.pc, pos: w.loop.pos, fn: w.loop.frame.fn.Name(), loops: []*Loop{w.loop}}
	if w.inner != nil {
		cl.loops = append(cl.loops, w.inner)
	}
	if len(w.seed) == 0 {
		cl.fault("the walk starts from nothing")
		return cl
	}
	var first *Term
	for _, src := range w.seed {
		t := src.val
		if t.op != OElem || cl.roots != nil && cl.roots != t.args[0] || src.partial {
			cl.fault("the walk starts from something else than the elements of a list")
			return cl
		}
		cl.roots = t.args[0]
		first = t
		st := step{to: t, pc: s.normN(src.pc, src.eff), loops: src.loops, pos: w.loop.pos}
		if src.eff != nil {
			st.pos = posOf(src.eff)
		}
		cl.starts = append(cl.starts, st)
	}
	var steps []step
	for _, src := range w.back {
		st := step{to: src.val, pc: s.normN(src.pc, src.eff), loops: src.loops, pos: w.loop.pos}
		if src.eff != nil {
			st.pos = posOf(src.eff)
		}
		steps = append(steps, st)
	}
	cl.examine(w.loop, steps, first)
	return cl
}

func (cl *closure) fault(format string, a ...any) { cl.bad = append(cl.bad, fmt.Sprintf(format, a...)) }

// examine checks that a walk goes on to all imports of every package once.
func (cl *closure) examine(R *Loop, steps []step, start *Term) {
	s, e, b := cl.s, cl.s.e, cl.s.e.bdd
	p := cl.pkg
	if len(s.q.earlyExits(cl.loops)) > 0 {
		cl.fault("the walk can end before all packages were visited")
	}
	inside := func(l *Loop) bool { return hasLoop(l.parents, R) && !hasLoop(cl.loops, l) }
	// the set of packages met before, keyed by the package or its ID
	var V *Term
	byID := false
	key := func(x *Term) *Term {
		if byID {
			return e.Field(x, "ID", types.Typ[types.String])
		}
		return x
	}
	mark := False
	for _, ef := range e.effects {
		if ef.kind != "mapset" || !hasLoop(ef.loops, R) || ef.args[1] != p && ef.args[1] != e.Field(p, "ID", types.Typ[types.String]) {
			continue
		}
		deeper := false
		for _, l := range ef.loops {
			deeper = deeper || inside(l)
		}
		if deeper || ef.args[0].op != OObj || V != nil && V != ef.args[0] {
			continue
		}
		if v := ef.args[2]; v.op == OBool && v.node != True {
			continue
		}
		V = ef.args[0]
		byID = ef.args[1] != p
		mark = b.Or(mark, ef.pc)
	}
	early := false // marked when put on the list
	if V == nil && R.kind != "rec" {
		for _, ef := range e.effects {
			if ef.kind != "mapset" || !hasLoop(ef.loops, R) || ef.args[0].op != OObj || V != nil && V != ef.args[0] {
				continue
			}
			for _, st := range steps {
				if st.to != nil && (ef.args[1] == st.to || ef.args[1] == e.Field(st.to, "ID", types.Typ[types.String])) {
					V, byID, early = ef.args[0], ef.args[1] != st.to, true
				}
			}
		}
	}
	if V == nil {
		cl.fault("packages already visited are not remembered, so a package imported twice is visited twice")
		return
	}
	s.keep[V] = true
	for _, l := range V.obj.(*ObjInfo).loops {
		if hasLoop(cl.loops, l) {
			cl.fault("the set of packages already visited is not kept for the whole walk")
		}
	}
	if len(s.q.mi.dels[V]) > 0 {
		cl.fault("packages are removed from the set of packages already visited")
	}
	for _, ef := range s.q.mi.sets[V] {
		if !early && (!hasLoop(ef.loops, R) || ef.args[1] != key(p)) {
			cl.fault("%s: other packages are entered into the set of packages already visited", e.prog.pos(posOf(ef)))
		}
	}
	seenBy := func(x *Term) Node { return e.Atom(e.mk(OIn, "", types.Typ[types.Bool], V, key(x))) }
	cl.seen = seenBy(p)
	if early {
		cl.seen = False
	}
	rpc := s.normN(R.pc, nil)
	// the steps
	imports := e.mk(OField, "Imports", nil, p)
	atCall := false
	for _, st := range steps {
		child := st.to
		if child == nil || child.op != OLookup || child.args[0] != imports || child.args[1].op != OKey || child.args[1].args[0] != imports {
			cl.fault("%s: the walk goes on to something else than the imports of a package", e.prog.pos(st.pos))
			continue
		}
		I := child.args[1].loop
		if len(s.q.earlyExits([]*Loop{I})) > 0 {
			cl.fault("%s: some imports can be left out", e.prog.pos(I.pos))
		}
		for _, l := range st.loops {
			if l != I && inside(l) {
				cl.fault("%s: imports are visited inside an unexpected loop", e.prog.pos(l.pos))
			}
		}
		pc := st.pc
		for _, v := range b.Support(pc) {
			if e.Atom(e.atoms[v]) == seenBy(child) {
				atCall = true
			}
		}
		care := b.And(s.loopCare(pc, st.loops, nil), b.Not(e.Cond(e.Eq(key(child), key(p))))) // no package imports itself
		want := b.And(rpc, b.Not(cl.seen))
		if atCall || early {
			care = b.And(care, b.Not(seenBy(child)))
			if b.And(pc, seenBy(child)) != False {
				cl.fault("%s: the test whether an import was visited before does not decide alone", e.prog.pos(st.pos))
			}
		}
		if b.And(pc, cl.seen) == False && b.And(care, want, b.Not(pc)) != False || b.And(pc, cl.seen) != False && b.And(care, rpc, b.Not(pc)) != False {
			cl.fault("%s: the imports of some packages are not visited", e.prog.pos(st.pos))
		}
	}
	if len(steps) == 0 {
		cl.fault("imports are not visited")
	}
	if early {
		cl.checkEarly(V, R, steps, start, key)
		return
	}
	m := s.normN(mark, nil)
	switch {
	case b.And(m, cl.seen) != False || atCall && b.And(rpc, b.Not(m)) == False:
		// marked without a test on entry: every call must be preceded by one
		first := seenBy(start)
		if !atCall || R.kind != "rec" || b.And(rpc, first) != False {
			cl.fault("packages are visited again when they are imported more than once")
		}
		cl.seen = first
		cl.base = b.Exists(rpc, e.atomIndex(first))
	default:
		if b.And(rpc, b.Not(cl.seen), b.Not(m), s.loopCare(m, nil, nil)) != False {
			cl.fault("some packages are not marked as visited, so they can be visited again")
		}
	}
}

// checkEarly checks that packages are marked exactly when they are put on the
// list, including those the walk starts from.
func (cl *closure) checkEarly(V *Term, R *Loop, steps []step, start *Term, key func(*Term) *Term) {
	s, e, b := cl.s, cl.s.e, cl.s.e.bdd
	type place struct {
		put, mark Node
		pos       token.Pos
	}
	at := map[*Term]*place{}
	for _, st := range append(steps, cl.starts...) {
		p := at[key(st.to)]
		if p == nil {
			p = &place{False, False, st.pos}
			at[key(st.to)] = p
		}
		p.put = b.Or(p.put, st.pc)
	}
	for _, ef := range s.q.mi.sets[V] {
		p := at[ef.args[1]]
		if v := ef.args[2]; p == nil || v.op == OBool && v.node != True {
			cl.fault("%s: other packages are entered into the set of packages already visited", e.prog.pos(posOf(ef)))
			continue
		}
		p.mark = b.Or(p.mark, s.normN(ef.pc, ef))
	}
	for k, p := range at {
		care := s.loopCare(b.Or(p.put, p.mark), nil, nil)
		if b.And(b.Xor(p.put, p.mark), care) != False {
			cl.fault("%s: packages are put on the list without being marked, or marked without being put on it", e.prog.pos(p.pos))
		}
		if in := e.Atom(e.mk(OIn, "", types.Typ[types.Bool], V, k)); b.And(p.put, in) != False {
			cl.fault("%s: packages can be put on the list twice", e.prog.pos(p.pos))
		}
	}
	// the start of the walk: every package given unless met before
	for _, st := range cl.starts {
		in := e.Atom(e.mk(OIn, "", types.Typ[types.Bool], V, key(st.to)))
		for _, l := range st.loops {
			if b.And(l.pc, b.Not(in), b.Not(st.pc), s.loopCare(st.pc, st.loops, nil)) != False || len(s.q.earlyExits([]*Loop{l})) > 0 {
				cl.fault("%s: the walk does not start from every package given", e.prog.pos(st.pos))
			}
		}
	}
}

func (e *Eval) atomIndex(n Node) int {
	vs := e.bdd.Support(n)
	if len(vs) == 1 {
		return vs[0]
	}
	return 0
}

// walkOf finds the walk over packages that the loops of an event belong to.
func (s *Sem) walkOf(loops []*Loop) (*closure, []*Loop) {
	for _, cl := range s.closures() {
		all := true
		for _, l := range cl.loops {
			all = all && hasLoop(loops, l)
		}
		if !all {
			continue
		}
		var rest []*Loop
		for _, l := range loops {
			if !hasLoop(cl.loops, l) {
				rest = append(rest, l)
			}
		}
		return cl, rest
	}
	return nil, loops
}

// within strips the test for packages met before from a condition; ok is
// false when the condition holds for such packages too.
func (cl *closure) within(pc Node) (Node, bool) {
	b := cl.s.e.bdd
	n := cl.s.normN(pc, nil)
	if cl.seen == False {
		return n, true
	}
	if b.And(n, cl.seen) != False {
		return n, false
	}
	return b.Cofactor(n, cl.s.e.atomIndex(cl.seen), false), true
}

// check reports what is wrong with a walk.
func (cl *closure) check(rule string, roots *Term) bool {
	c := cl.s.c
	for _, w := range cl.bad {
		c.fail(rule, c.pos(cl.pos), cl.fn, "not every package is visited exactly once: %s", shorten.Replace(w))
	}
	if len(cl.bad) > 0 {
		return false
	}
	if roots != nil && cl.roots != roots {
		c.fail(rule, c.pos(cl.pos), cl.fn, "the walk starts from %s, not from the packages given", cl.s.short(cl.roots))
		return false
	}
	c.ok(rule, c.pos(cl.pos)+" "+cl.fn)
	return true
}
