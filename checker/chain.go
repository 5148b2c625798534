package main

import (
	"go/types"
	"strings"
)

// A chain is a loop that walks from a call graph node along the edges a
// search has recorded.
type chain struct {
	L     *Loop
	v     *Term // the node the walk is at; nil when the loop keeps the edge only
	edge  *Term // the recorded edge leading on from v
	dir   string
	start *Term // where the walk begins
	state *Term // what the search recorded: node to edge
	field string
	init  *Term // for walks that keep the edge, the first one
}

func isEdgeTerm(t *Term) bool {
	return t.typ != nil && t.typ.String() == "*golang.org/x/tools/go/callgraph.Edge"
}

// recordedEdge splits a term that reads the edge recorded for a node.
func recordedEdge(t *Term) (state, node *Term, field string, ok bool) {
	if t.op == OField && t.args[0].op == OLookup {
		field, t = t.aux, t.args[0]
	}
	if t.op != OLookup || !isNodeType(t.args[1].typ) && edgeless(t.args[1]) {
		return nil, nil, "", false
	}
	return t.args[0], t.args[1], field, true
}

// edgeless reports whether t cannot be a call graph node.
func edgeless(t *Term) bool { return !(t.op == OField && (t.aux == "Caller" || t.aux == "Callee")) }

// chainOf recognises a walk along recorded edges.  It returns nil for other
// loops, and says why for walks that can stop early or go astray.
func (s *Sem) chainOf(L *Loop) (*chain, string) { return s.chainBut(L, nil) }

// chainBut is chainOf for a walk that may be left by way of one exit.
func (s *Sem) chainBut(L *Loop, but *Term) (*chain, string) {
	e, b := s.e, s.e.bdd
	if L.kind == "index" && L.container != nil && L.container.op == OLV {
		return s.collected(L, but)
	}
	if L.kind != "while" {
		return nil, ""
	}
	for lv, init := range L.init {
		back := L.back[lv]
		if back == nil {
			continue
		}
		switch {
		case isNodeType(lv.typ):
			ch := &chain{L: L, v: lv, start: init}
			why := ""
			on := False
			for _, a := range e.alts(back) {
				if e.isNil(a.t) {
					continue
				}
				on = b.Or(on, a.c)
				edge, end := edgeEnd(a.t)
				if edge == nil {
					why = "it goes on to " + s.short(a.t)
					continue
				}
				state, node, field, ok := recordedEdge(edge)
				if !ok || ch.edge != nil && ch.edge != edge {
					why = "it goes on to " + s.short(a.t)
					continue
				}
				ch.edge, ch.dir, ch.state, ch.field = edge, end, state, field
				if node != lv {
					why = "it goes on along the edge recorded for " + s.short(node)
				}
			}
			if ch.edge == nil {
				continue
			}
			if why != "" {
				return ch, why
			}
			none := e.Cond(e.Eq(ch.edge, e.Nil()))
			at := b.Not(e.Cond(e.Eq(lv, e.Nil())))
			stop := b.Not(L.cont)
			for _, x := range L.exits {
				if x.atom != but || but == nil {
					stop = b.Or(stop, x.cond)
				}
			}
			if d := b.And(stop, at, b.Not(none), s.care(stop, none)); d != False {
				return ch, "it can stop early: " + s.cube(d)
			}
			// going on happens whenever there is an edge
			if d := b.And(L.cont, at, b.Not(stop), b.Not(none), b.Not(on), s.care(stop, on, none)); d != False {
				return ch, "it does not go on although an edge is recorded: " + s.cube(d)
			}
			return ch, ""
		case isEdgeTerm(lv):
			ch := &chain{L: L, edge: lv, init: init}
			state, node, field, ok := recordedEdge(unGateNil(e, back))
			if !ok {
				continue
			}
			from, end := edgeEnd(node)
			if from != lv {
				continue
			}
			ch.dir, ch.state, ch.field = end, state, field
			st0, node0, f0, ok := recordedEdge(unGateNil(e, init))
			if !ok || st0 != state || f0 != field {
				// the edge just recorded
				if node0 = s.recordedFor(state, field, init); node0 == nil {
					return ch, "it begins at " + s.short(init)
				}
			}
			ch.start = node0
			none := e.Cond(e.Eq(lv, e.Nil()))
			stop := b.Not(L.cont)
			for _, x := range L.exits {
				if x.atom != but || but == nil {
					stop = b.Or(stop, x.cond)
				}
			}
			if d := b.And(stop, b.Not(none), s.care(stop, none)); d != False {
				return ch, "it can stop early: " + s.cube(d)
			}
			return ch, ""
		}
	}
	return nil, ""
}

// collected recognises a loop over the nodes met by a walk, put into a list
// before.
func (s *Sem) collected(L *Loop, but *Term) (*chain, string) {
	e, b := s.e, s.e.bdd
	segs, why := s.segments(L.container)
	if why != "" || len(segs) != 1 || segs[0].ch == nil || segs[0].ch.v == nil || segs[0].val != segs[0].ch.v {
		return nil, ""
	}
	g := segs[0]
	in := g.ch
	ch := &chain{L: L, dir: in.dir, start: in.start, state: in.state, field: in.field}
	ch.v = e.intern(Term{op: OElem, args: []*Term{L.container}, loop: L})
	ch.edge = e.mk(OLookup, "", nil, in.state, ch.v)
	if in.field != "" {
		ch.edge = e.Field(ch.edge, in.field, nil)
	}
	want := b.And(in.L.pc, in.L.cont)
	if g.why == "" && (g.rev || in.leaves(e) && g.onExit != "all" || g.eff == nil || b.And(want, b.Not(g.eff.pc), s.care(want, g.eff.pc)) != False) {
		return ch, "the list at " + s.c.pos(in.L.pos) + " does not hold every node of the walk in order"
	}
	for _, x := range L.exits {
		if but == nil || x.atom != but {
			return ch, "it can stop early: " + s.cube(x.cond)
		}
	}
	if L.reversed {
		return ch, "it goes backwards"
	}
	return ch, g.why
}

// leaves reports whether a walk can end at a node without another pass.
func (ch *chain) leaves(e *Eval) bool {
	b := e.bdd
	return len(ch.L.exits) > 0 || ch.v != nil && b.And(b.Not(ch.L.cont), b.Not(e.Cond(e.Eq(ch.v, e.Nil())))) != False
}

// recordedFor finds the one node an edge is recorded for.
func (s *Sem) recordedFor(state *Term, field string, edge *Term) *Term {
	var node *Term
	for _, ef := range s.q.mi.sets[state] {
		v := ef.args[2]
		if field != "" {
			v = s.fieldRaw(v, field, ef)
		}
		if v == edge {
			if node != nil && node != ef.args[1] {
				return nil
			}
			node = ef.args[1]
		}
	}
	return node
}

// unGateNil drops nil alternatives.
func unGateNil(e *Eval, t *Term) *Term {
	var out *Term
	for _, a := range e.alts(t) {
		if e.isNil(a.t) {
			continue
		}
		if out != nil {
			return t
		}
		out = a.t
	}
	if out == nil {
		return t
	}
	return out
}

// seg is part of a list of functions: one element for each step of a walk, or
// a single element.
type seg struct {
	ch     *chain
	why    string // what is wrong with the walk
	rev    bool
	eff    *Effect
	get    func(fields ...string) *Term // reads a field of the element
	val    *Term
	prev   *Term  // for walks over nodes collected before, the node before this one
	onExit string // whether the step that leaves the walk adds an element: all, none, some
}

// segments takes a list of functions apart, in order.
func (s *Sem) segments(t *Term) ([]seg, string) {
	return s.segs(t, 0)
}

func (s *Sem) segs(t *Term, depth int) ([]seg, string) {
	if depth > 12 {
		return nil, "the list is built in too complicated a way"
	}
	out, why := s.segs1(t, depth)
	if why != "" {
		return nil, why
	}
	swapped := map[*Loop]bool{}
	for _, ef := range s.e.effects {
		rev := ef.kind == "reverse" && len(ef.args) > 0 && ef.args[0] == t
		if ef.kind == "store" && s.slotOf(ef.args[0], 0) == t {
			L := s.swapLoop(t, ef)
			if L == nil {
				return nil, "an element is replaced at " + s.c.pos(posOf(ef))
			}
			rev = !swapped[L]
			swapped[L] = true
		}
		if rev {
			var r []seg
			for i := len(out) - 1; i >= 0; i-- {
				x := out[i]
				x.rev = !x.rev
				r = append(r, x)
			}
			out = r
		}
	}
	return out, ""
}

// slotOf gives the list (0) or the position (1) of an element or its address.
func (s *Sem) slotOf(t *Term, k int) *Term {
	return s.e.dist(t, nil, func(t *Term) *Term {
		if t.op == OIAddr || t.op == OIndex {
			return t.args[k]
		}
		return s.e.Str("")
	})
}

// swapLoop recognises a store that is part of reversing a list in place.
func (s *Sem) swapLoop(list *Term, ef *Effect) *Loop {
	e := s.e
	if len(ef.loops) == 0 {
		return nil
	}
	L := ef.loops[len(ef.loops)-1]
	if L.kind != "while" || len(L.exits) > 0 {
		return nil
	}
	var i, j *Term
	for lv, init := range L.init {
		base, n, _ := plusMinus(orNil(e, L.back[lv]))
		if base != lv {
			continue
		}
		if n == 1 && init == e.Int(0) {
			i = lv
		}
		end := e.dist(list, nil, func(x *Term) *Term {
			return e.mk(OBin, "-", types.Typ[types.Int], e.Len(x), e.Int(1))
		})
		if n == -1 && init == end {
			j = lv
		}
	}
	if i == nil || j == nil || L.cont != e.Cond(e.Lt(i, j)) {
		return nil
	}
	// exactly the two stores of a swap, each of the other's old value
	n := 0
	for _, x := range e.effects {
		if x.kind != "store" || s.slotOf(x.args[0], 0) != list || !hasLoop(x.loops, L) {
			continue
		}
		at, from := s.slotOf(x.args[0], 1), s.slotOf(x.args[1], 1)
		if s.slotOf(x.args[1], 0) != list || !(at == i && from == j || at == j && from == i) || s.e.bdd.And(L.pc, L.cont, s.e.bdd.Not(x.pc)) != False {
			return nil
		}
		n++
	}
	if n != 2 {
		return nil
	}
	return L
}

func (s *Sem) segs1(t *Term, depth int) ([]seg, string) {
	e := s.e
	t = original(t)
	switch t.op {
	case OConst:
		return nil, ""
	case OSlice:
		if t.aux == "empty" {
			return nil, ""
		}
	case OObj:
		if oi, ok := t.obj.(*ObjInfo); ok && oi.kind == "slice" && len(s.q.mi.slots[t]) == 0 {
			return nil, ""
		}
	case OGate:
		return s.segsGate(t, depth)
	case OList:
		var out []seg
		for _, x := range t.args {
			out = append(out, s.oneSeg(x, nil))
		}
		return out, ""
	case OAppend:
		ef := e.appendE[t]
		out, why := s.segs(t.args[0], depth+1)
		if why != "" {
			return nil, why
		}
		if t.args[1].op == OList {
			if lv := t.args[0]; lv.op == OLV && ef != nil && hasLoop(ef.loops, lv.loop) && len(out) > 0 && len(t.args[1].args) == 1 {
				// the step that leaves the walk
				if last := &out[len(out)-1]; last.ch != nil && last.ch.L == lv.loop && last.val == t.args[1].args[0] {
					last.onExit = "all"
					return out, ""
				}
			}
			for _, x := range t.args[1].args {
				out = append(out, s.oneSeg(x, ef))
			}
			return out, ""
		}
		more, why := s.segs(t.args[1], depth+1)
		return append(out, more...), why
	case OLV:
		L := t.loop
		out, why := s.segs(L.init[t], depth+1)
		if why != "" {
			return nil, why
		}
		body, front, why := s.bodySeg(t)
		if why != "" {
			return nil, why
		}
		if body == nil {
			return out, ""
		}
		if ch, why := s.chainOf(L); ch != nil {
			body.ch, body.why = ch, why
			body.rev = front
			if L.kind == "index" {
				body.prev = e.mk(OIndex, "", nil, L.container, e.mk(OBin, "-", types.Typ[types.Int], e.intern(Term{op: OIdx, loop: L, typ: types.Typ[types.Int]}), e.Int(1)))
			}
			if len(L.exits) > 0 {
				body.onExit = "none"
			}
			if front {
				return append([]seg{*body}, out...), ""
			}
			return append(out, *body), ""
		}
		if L.kind == "index" && L.container != nil {
			in, why := s.segs(L.container, depth+1)
			if why != "" {
				return nil, why
			}
			if len(L.exits) > 0 {
				return nil, "the loop over the list at " + s.c.pos(L.pos) + " can be left early"
			}
			el := e.intern(Term{op: OElem, args: []*Term{L.container}, loop: L})
			var mapped []seg
			for _, x := range in {
				x := x
				y := *body
				y.ch, y.why, y.rev, y.onExit = x.ch, x.why, x.rev, x.onExit
				get := body.get
				y.get = func(fields ...string) *Term {
					return s.q.substT(get(fields...), map[*Term]*Term{el: x.val}, x.eff)
				}
				mapped = append(mapped, y)
			}
			if front != L.reversed {
				for i, j := 0, len(mapped)-1; i < j; i, j = i+1, j-1 {
					mapped[i], mapped[j] = mapped[j], mapped[i]
				}
				for i := range mapped {
					mapped[i].rev = !mapped[i].rev
				}
			}
			if front {
				return append(mapped, out...), ""
			}
			return append(out, mapped...), ""
		}
		return nil, "the list is filled in a loop at " + s.c.pos(L.pos) + " that does not walk along recorded calls"
	}
	return nil, "the list is " + s.short(t)
}

// segsGate handles the value of a list after a loop that is left in the
// middle of a step.
func (s *Sem) segsGate(t *Term, depth int) ([]seg, string) {
	e := s.e
	var lv *Term
	all, none := true, true
	alts := e.alts(t)
	for _, a := range alts {
		x, added := a.t, false
		if x.op == OAppend && x.args[0].op == OLV {
			x, added = x.args[0], true
		} else if x.op == OAppend && x.args[1].op == OLV && single(e, x.args[0]) != nil {
			x, added = x.args[1], true
		}
		if x.op != OLV || lv != nil && x != lv {
			lv = nil
			break
		}
		lv = x
		exit := false
		for _, v := range e.bdd.Support(a.c) {
			if at := e.atoms[v]; at.op == OExists && at.loop == x.loop {
				// alternatives taken when the loop ran to its end lack it
				exit = exit || e.bdd.And(a.c, e.bdd.Not(e.bdd.Var(v))) == False
			}
		}
		if exit {
			all, none = all && added, none && !added
		} else if added {
			lv = nil
			break
		}
	}
	if lv != nil {
		out, why := s.segs(lv, depth+1)
		if why != "" || len(out) == 0 {
			return out, why
		}
		last := &out[len(out)-1]
		for i := range out {
			if out[i].ch != nil && out[i].ch.L == lv.loop {
				last = &out[i]
			}
		}
		switch {
		case all && !none:
			last.onExit = "all"
		case none:
			last.onExit = "none"
		default:
			last.onExit = "some"
		}
		return out, ""
	}
	// otherwise only one alternative may hold anything
	var out []seg
	for _, a := range alts {
		x, why := s.segs(a.t, depth+1)
		if why != "" {
			return nil, why
		}
		if len(x) == 0 {
			continue
		}
		if out != nil {
			return nil, "the list is built in different ways"
		}
		out = x
	}
	return out, ""
}

// bodySeg finds the element one pass through a loop adds to list lv.
func (s *Sem) bodySeg(lv *Term) (*seg, bool, string) {
	e := s.e
	var out *seg
	front := false
	for _, a := range e.alts(lv.loop.back[lv]) {
		t := a.t
		if t == lv {
			continue
		}
		var x *Term
		fr := false
		switch {
		case t.op == OAppend && t.args[0] == lv && t.args[1].op == OList && len(t.args[1].args) == 1:
			x = t.args[1].args[0]
		case t.op == OAppend && t.args[1] == lv && single(e, t.args[0]) != nil:
			x, fr = single(e, t.args[0]), true
		case t.op == OCall && t.aux == "slices.Insert" && len(t.args) == 3 && t.args[0] == lv && t.args[1] == e.Int(0) && t.args[2].op == OList && len(t.args[2].args) == 1:
			x, fr = t.args[2].args[0], true
		default:
			return nil, false, "a step turns the list into " + s.short(t)
		}
		if out != nil && (out.val != x || front != fr) {
			return nil, false, "a step adds different elements to the list"
		}
		g := s.oneSeg(x, e.appendE[t])
		out, front = &g, fr
	}
	return out, front, ""
}

// single is the element of a list of one.
func single(e *Eval, t *Term) *Term {
	if t.op == OAppend && (e.isNil(t.args[0]) || t.args[0].op == OSlice && t.args[0].aux == "empty") {
		t = t.args[1]
	}
	if t.op == OList && len(t.args) == 1 {
		return t.args[0]
	}
	return nil
}

func (s *Sem) oneSeg(x *Term, ef *Effect) seg {
	return seg{val: x, eff: ef, get: func(fields ...string) *Term {
		v := x
		for _, f := range fields {
			v = s.fieldRaw(v, f, ef)
		}
		return v
	}}
}

// fieldRaw reads a field of v at effect ef.
func (s *Sem) fieldRaw(v *Term, field string, ef *Effect) *Term {
	e := s.e
	return e.dist(v, nil, func(v *Term) *Term {
		if isAddr(v) && ef != nil {
			return s.q.deptr(ef.mem, e.load(ef.mem, e.FAddr(v, field, nil), nil), nil)
		}
		if e.isNil(v) {
			return v
		}
		return e.Field(v, field, nil)
	})
}

// pathStep says which function and which call an element of a path stands for.
type pathStep struct {
	node *Term
	edge *Term // nil when the element has no call site
	bad  string
}

const (
	posCall = "(*go/token.FileSet).Position"
	edgePos = "golang.org/x/tools/go/callgraph.Edge).Pos"
)

// step reads the function and call of a list element off its fields.
func (s *Sem) step(g seg) pathStep {
	e, b := s.e, s.e.bdd
	var st pathStep
	name := s.norm(g.get("Name"), g.eff)
	for _, a := range e.alts(name) {
		if a.t.op != OCall || a.t.aux != ssaFn+".String" {
			st.bad = "its name is " + s.short(a.t) + ", not that of a function"
			return st
		}
		n := s.nodeOf(a.t.args[0])
		if st.node != nil && st.node != n {
			st.bad = "its name is that of different functions"
			return st
		}
		st.node = n
	}
	if st.node == nil {
		st.bad = "it has no name"
		return st
	}
	// package
	fn := s.funcOf(st.node)
	at := True
	if g.eff != nil {
		at = s.normN(g.eff.pc, g.eff)
	}
	for _, a := range e.alts(s.norm(g.get("Package"), g.eff)) {
		n := b.And(a.c, at)
		if e.isNil(a.t) {
			n = b.And(n, s.hasPackage(fn))
			if b.And(n, s.care(n)) != False {
				st.bad = "it has no package although its function does"
				return st
			}
			continue
		}
		if n = b.And(n, s.care(n)); n != False && !(a.t.op == OCall && a.t.aux == pkgPath && s.isPackageOf(a.t, fn, n)) {
			st.bad = "its package is " + s.short(a.t) + ", not that of its function"
			return st
		}
	}
	// call site
	site := g.get("Site")
	set := False
	for _, a := range e.alts(site) {
		if !e.isNil(a.t) {
			set = b.Or(set, a.c)
		}
	}
	if set == False {
		return st
	}
	var position *Term
	for _, f := range []string{"Line", "Column", "Filename"} {
		for _, a := range e.alts(s.norm(g.get("Site", f), g.eff)) {
			t := a.t
			if f == "Filename" && t.op == OCall && (t.aux == "path.Base" || t.aux == "path/filepath.Base") {
				t = t.args[0]
			} else if f == "Filename" && !e.isNil(t) {
				st.bad = "the file of its call site is given as " + s.short(t)
				return st
			}
			t = unconv(t)
			if t.op == OConst {
				continue
			}
			if t.op != OField || t.aux != f || t.args[0].op != OCall || t.args[0].aux != posCall {
				st.bad = "the " + f + " of its call site is " + s.short(t)
				return st
			}
			if position != nil && position != t.args[0] {
				st.bad = "its call site mixes two positions"
				return st
			}
			position = t.args[0]
		}
	}
	if position == nil {
		st.bad = "its call site is constant"
		return st
	}
	pos := position.args[1]
	if pos.op != OCall || !strings.HasSuffix(pos.aux, edgePos) {
		st.bad = "its call site is the position of " + s.short(pos)
		return st
	}
	st.edge = pos.args[0]
	if st.edge.op == ODeref {
		st.edge = st.edge.args[0]
	}
	// a site is given whenever there is a position
	known := b.Not(e.Cond(e.Eq(st.edge, e.Nil())))
	if _, node, _, ok := recordedEdge(st.edge); ok && g.prev != nil && node == g.prev {
		known = b.And(known, b.Not(e.Cond(e.Eq(g.prev.args[1].args[0], e.Int(0)))))
	}
	caller := e.Field(s.funcOf(e.Field(st.edge, "Caller", nil)), "Prog", nil)
	for _, x := range []*Term{caller, e.Field(caller, "Fset", nil)} {
		known = b.And(known, b.Not(e.Cond(e.Eq(x, e.Nil()))))
	}
	for _, v := range b.Support(set) {
		line := e.Field(position, "Line", nil)
		if t := e.atoms[v]; t.op == OLt && t.args[0] == e.Int(0) && t.args[1] == line {
			known = b.And(known, b.Var(v))
		}
		if t := e.atoms[v]; t.op == OLt && t.args[0] == line && (t.args[1] == e.Int(1) || t.args[1] == e.Int(0)) {
			known = b.And(known, b.Not(b.Var(v)))
		}
		if t := e.atoms[v]; t.op == OEq && t.args[0].op == OField && t.args[0].aux == "Line" && t.args[0].args[0] == position {
			known = b.And(known, b.Not(b.Var(v)))
		}
	}
	set, known = s.normN(set, g.eff), b.And(s.normN(known, g.eff), at)
	if d := b.And(known, b.Not(set), s.care(known, set)); d != False {
		st.bad = "its call site is left out: " + s.cube(d)
	}
	return st
}
