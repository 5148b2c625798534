package main

import (
	"strings"
)

func init() {
	register("C10", "In each entry point that outputs call paths (GetCapabilityInfo at every granularity, GetCapabilityStats) the list of "+
		"path elements is taken apart into walks along the edges recorded by the searches. Each walk must begin at the reported "+
		"function, follow the recorded edge of the function it is at, run until no edge is recorded and add every function it "+
		"meets with the edge that led to it; every edge recorded by a search must connect the function being added to the one taken "+
		"from the list; the path text must be the names of the same list in the same order.", ruleC10)
}

// pathOf is a path that is output.
type pathOf struct {
	list  *Term
	put   *Effect // where the list is complete
	node  *Term   // the function reported
	loops []*Loop // the loops of the entry, expanded
	where string
}

func ruleC10(c *Check) {
	gran := func(g string) string { return c.constVal(modulePath+"/analyzer", "Granularity"+g) }
	for _, g := range []string{"Function", "Package", "Intermediate"} {
		gv := given{"Granularity": gran(g), "OmitPaths": "false"}
		if g == "Intermediate" {
			gv["CapabilitySet"] = "nil"
		}
		s, f := c.semWith("/analyzer", "GetCapabilityInfo", gv)
		if s == nil {
			continue
		}
		back := s.backward("one search")
		if back == nil {
			continue
		}
		_, seed, _, ok := back.checkSeeds("path ends at a function with the capability")
		if !ok {
			continue
		}
		back.checkRecorded("edges recorded")
		var fw *Search
		if g == "Intermediate" {
			if fw = s.forward("one search"); fw == nil {
				continue
			}
			fw.checkRecorded("edges recorded")
			if back.visited != nil {
				fw.forwardSeeds(back, True)
			}
		}
		n := 0
		for _, in := range s.infos(f, "Path", "DepPath") {
			p := pathOf{list: s.fieldRaw(in.obj, "Path", in.put), put: in.put, loops: in.ev.loops, where: "GetCapabilityInfo (" + g + ")"}
			if fw != nil {
				p.node = fw.w.item
			} else {
				p.node = back.entryNode(in.ev, seed)
			}
			s.checkPath(p, back, fw)
			if g != "Intermediate" {
				s.checkDepPath(p, s.fieldRaw(in.obj, "DepPath", in.put), in)
			}
			n++
			c.count("paths", 1)
		}
		if n == 0 {
			c.fail("paths", "-", s.fn, "no path is output at granularity %s", g)
		}
		c.problems(s.e, "GetCapabilityInfo")
	}
	s, f := c.semWith("/analyzer", "GetCapabilityStats", given{"OmitPaths": "false"})
	if s != nil {
		s.statPaths(f)
		c.problems(s.e, "GetCapabilityStats")
	}
	c.need("vacuity", "paths", c.stats["paths"], 7)
	c.need("vacuity", "recorded edges", c.stats["recorded"], 10)
}

// checkRecorded checks the edges a search records.
func (sr *Search) checkRecorded(rule string) {
	s, c, e := sr.s, sr.s.c, sr.s.e
	sr.checkVisited(rule) // a node's edge is recorded once
	if sr.visited == nil {
		return
	}
	end := "Caller"
	if sr.dir == "Out" {
		end = "Callee"
	}
	field := sr.edgeField()
	for _, ef := range s.q.mi.sets[sr.visited] {
		v := ef.args[2]
		if field != "" {
			v = s.fieldRaw(v, field, ef)
		}
		for _, x := range s.q.expand(s.q.event(ef, ef.args[1], v)) {
			c.count("recorded", 1)
			node := s.norm(x.terms[0], x.eff)
			in := false
			for _, L := range x.loops {
				in = in || L == sr.w.loop
			}
			for _, a := range e.alts(s.norm(x.terms[1], x.eff)) {
				pc := e.bdd.And(s.normN(x.pc, x.eff), a.c)
				if e.bdd.And(pc, s.care(pc)) == False {
					continue
				}
				edge, got := edgeEnd(node)
				switch {
				case !in && e.isNil(a.t):
				case !in:
					c.failEff(rule, ef, "the edge %s is recorded for a function the search starts from", s.short(a.t))
					continue
				case edge == nil || got != end || a.t != edge || edge.op != OElem || edge.args[0] != e.mk(OField, sr.dir, nil, sr.w.item):
					c.failEff(rule, ef, "the edge recorded for %s is %s, not the call that connects it to the function taken from the list", s.short(node), s.short(a.t))
					continue
				}
				c.okEff(rule, ef)
			}
		}
	}
}

// edgeField is the field of the values recorded that holds the edge, "" if the
// values are edges.
func (sr *Search) edgeField() string {
	for _, f := range structFields(mapElem(sr.visited.typ)) {
		if f.Type().String() == "*golang.org/x/tools/go/callgraph.Edge" {
			return f.Name()
		}
	}
	return ""
}

// startsAt checks that a walk's first node is the function reported.
func (s *Sem) startsAt(p pathOf, t *Term) bool {
	for _, x := range s.q.expand(s.q.event(p.put, t)) {
		if !sameLoops(x.loops, p.loops) {
			continue
		}
		got := s.norm(x.terms[0], x.eff)
		for _, a := range s.e.alts(got) {
			if s.e.bdd.And(a.c, x.pc) != False && a.t != p.node {
				return false
			}
		}
		return true
	}
	return s.norm(t, p.put) == p.node
}

// checkPath checks that a list of path elements is a chain of calls through
// the reported function.
func (s *Sem) checkPath(p pathOf, back, fw *Search) {
	c, e, b := s.c, s.e, s.e.bdd
	rule := "path of " + p.where
	if back.visited == nil {
		return
	}
	segs, why := s.segments(p.list)
	if why != "" {
		c.failEff(rule, p.put, "how the path is put together could not be determined: %s", why)
		return
	}
	if len(segs) == 0 {
		c.failEff(rule, p.put, "the path is empty")
		return
	}
	// which parts cover the reported function itself
	covers := 0
	stage := 0 // 0 before, 1 at, 2 after the reported function
	for i, g := range segs {
		at := p.put
		if g.eff != nil {
			at = g.eff
		}
		st := s.step(g)
		if st.bad != "" {
			c.failEff(rule, at, "an element of the path is wrong: %s", st.bad)
			return
		}
		if g.ch == nil {
			if !s.startsAt(p, st.node) {
				c.failEff(rule, at, "the path contains %s, which is not the reported function", s.short(st.node))
				return
			}
			if stage > 0 {
				c.failEff(rule, at, "the reported function comes after functions it calls")
				return
			}
			if !s.startEdge(p, st.edge, fw) {
				c.failEff(rule, at, "the call site given with the reported function is that of %s", s.short(st.edge))
				return
			}
			if g.eff != nil {
				if d := b.And(p.put.pc, b.Not(g.eff.pc), s.care(p.put.pc, g.eff.pc)); d != False {
					c.failEff(rule, at, "the reported function is left out of the path: %s", s.cube(d))
					return
				}
			}
			covers++
			stage = 1
			continue
		}
		ch := g.ch
		if g.why != "" {
			c.fail(rule, c.pos(ch.L.pos), ch.L.frame.fn.Name(), "the walk along the recorded calls is wrong: %s", g.why)
			return
		}
		if !s.startsAt(p, ch.start) {
			c.fail(rule, c.pos(ch.L.pos), ch.L.frame.fn.Name(), "the walk begins at %s, not at the reported function", s.short(ch.start))
			return
		}
		var sr *Search
		switch {
		case ch.state == back.visited && ch.dir == "Callee":
			sr = back
		case fw != nil && ch.state == fw.visited && ch.dir == "Caller":
			sr = fw
		default:
			c.fail(rule, c.pos(ch.L.pos), ch.L.frame.fn.Name(), "the walk follows the %s of the edges recorded in %s, which do not lead that way", ch.dir, s.short(ch.state))
			return
		}
		if g.rev != (sr == fw) {
			c.failEff(rule, at, "the functions are listed in reverse order of the calls")
			return
		}
		if sr == fw && (stage > 0 || i > 0) || sr == back && stage > 1 {
			c.failEff(rule, at, "the parts of the path are joined in the wrong order")
			return
		}
		next := e.mk(OField, ch.dir, nil, ch.edge)
		incl := ch.v != nil && st.node == ch.v
		if !incl && st.node != next {
			c.failEff(rule, at, "the walk adds %s, not the function it is at", s.short(st.node))
			return
		}
		if incl {
			covers++
		}
		if !s.edgeInto(p, g, st, incl, sr == back, fw) {
			c.failEff(rule, at, "the call site given for a function is that of %s, not of the call from the function before it", s.short(orNil(e, st.edge)))
			return
		}
		// every step adds its function
		want := b.And(ch.L.pc, ch.L.cont)
		none := e.Cond(e.Eq(ch.edge, e.Nil()))
		if !incl {
			want = b.And(want, b.Not(none))
		}
		if ch.v != nil {
			want = b.And(want, b.Not(e.Cond(e.Eq(ch.v, e.Nil()))))
		}
		if d := b.And(want, b.Not(g.eff.pc), s.care(want, g.eff.pc)); d != False {
			c.failEff(rule, at, "a function of the walk is left out of the path: %s", s.cube(d))
			return
		}
		if incl && ch.leaves(e) && g.onExit != "all" {
			c.failEff(rule, at, "the last function of the walk is left out of the path")
			return
		}
		if sr == fw {
			stage = 0
			if incl {
				stage = 1
			}
		} else {
			stage = 2
		}
	}
	if covers != 1 {
		c.failEff(rule, p.put, "the reported function is in the path %d times", covers)
		return
	}
	last := segs[len(segs)-1]
	if last.ch == nil || last.ch.state != back.visited {
		c.failEff(rule, p.put, "the path does not go on to a function with the capability")
		return
	}
	if fw != nil && (segs[0].ch == nil || segs[0].ch.state != fw.visited) {
		c.failEff(rule, p.put, "the path does not begin at a queried function")
		return
	}
	c.okEff(rule, p.put)
}

// startEdge reports whether edge may be given as the call of the reported
// function: none, or the call recorded by the forward search.
func (s *Sem) startEdge(p pathOf, edge *Term, fw *Search) bool {
	if edge == nil || s.e.isNil(edge) {
		return true
	}
	st, node, _, ok := recordedEdge(edge)
	return fw != nil && ok && st == fw.visited && s.startsAt(p, node)
}

// edgeInto reports whether a step's edge is the call into its function.
func (s *Sem) edgeInto(p pathOf, g seg, st pathStep, incl, back bool, fw *Search) bool {
	e, b, ch := s.e, s.e.bdd, g.ch
	if st.edge == nil {
		return false
	}
	switch {
	case back && !incl:
		return st.edge == ch.edge
	case back:
		// the edge followed in the step before
		lv := st.edge
		if state, node, field, ok := recordedEdge(lv); ok && g.prev != nil && node == g.prev && state == ch.state && field == ch.field {
			return true
		}
		if lv.op != OLV || lv.loop != ch.L {
			return false
		}
		for _, a := range e.alts(ch.L.back[lv]) {
			n := b.And(a.c, b.Not(e.Cond(e.Eq(ch.edge, e.Nil()))))
			if a.t != ch.edge && b.And(n, s.care(n)) != False {
				return false
			}
		}
		return s.startEdge(p, ch.L.init[lv], fw)
	case incl:
		return st.edge == ch.edge
	}
	// the edge recorded for the next function
	state, node, _, ok := recordedEdge(st.edge)
	return ok && state == ch.state && node == e.mk(OField, ch.dir, nil, ch.edge)
}

// checkDepPath checks the path text.
func (s *Sem) checkDepPath(p pathOf, text *Term, in infoEntry) {
	c, e := s.c, s.e
	rule := "path text of " + p.where
	text = s.behind(text, p.put)
	for _, a := range e.alts(text) {
		if !s.namesText(a.t, p) {
			c.failEff(rule, p.put, "the path text is %s, which is not the names of the path joined by spaces", s.short(a.t))
			return
		}
	}
	c.okEff(rule, p.put)
}

// namesText reports whether t is the names of the elements of a list, in
// order, with spaces between them.
func (s *Sem) namesText(t *Term, p pathOf) bool {
	e := s.e
	if t.op != OCall {
		return s.joinedLV(t, p)
	}
	switch {
	case t.aux == "strings.Join" && len(t.args) == 2:
		if sep, ok := unquote(t.args[1]); !ok || sep != " " {
			return false
		}
		srcs := s.q.elems(t.args[0], nil)
		if len(srcs) != 1 || srcs[0].partial || srcs[0].eff == nil {
			return false
		}
		src := srcs[0]
		L := src.loops[len(src.loops)-1]
		return s.overList(L, p) && s.isName(src.val, L, src.eff) && src.pc == src.eff.pc && s.always(L, src.eff) && s.inOrderOf(t.args[0], L)
	case strings.HasPrefix(t.aux, "(*strings.Builder).String"), strings.HasPrefix(t.aux, "(*bytes.Buffer).String"):
		var L *Loop
		var ws []write
		for _, w := range e.writes() {
			if w.to != t.args[0] {
				continue
			}
			l := w.ef.loops[len(w.ef.loops)-1]
			if L != nil && l != L {
				return false
			}
			L = l
			ws = append(ws, w)
		}
		if L == nil || !s.overList(L, p) {
			return false
		}
		idx := e.Cond(e.Eq(e.intern(Term{op: OIdx, loop: L}), e.Int(0)))
		return s.spelt(ws, L, idx, true) && s.spelt(ws, L, e.bdd.Not(idx), false)
	}
	return false
}

// spelt reports whether the writes of one pass print the element's name,
// after a space unless it is the first.
func (s *Sem) spelt(ws []write, L *Loop, when Node, first bool) bool {
	b := s.e.bdd
	var got strings.Builder
	for _, w := range ws {
		pc := b.And(w.ef.pc, when)
		if pc == False {
			continue
		}
		if b.And(when, L.pc, b.Not(w.ef.pc), s.care(w.ef.pc)) != False {
			return false
		}
		for _, x := range w.pieces {
			switch {
			case x.term == nil:
				got.WriteString(x.text)
			case s.isName(x.term, L, w.ef):
				got.WriteString("\x00")
			default:
				return false
			}
		}
	}
	if first {
		return got.String() == "\x00"
	}
	return got.String() == " \x00"
}

// joinedLV accepts a text built up by concatenation.
func (s *Sem) joinedLV(t *Term, p pathOf) bool {
	e, b := s.e, s.e.bdd
	if t.op != OLV || !s.overList(t.loop, p) {
		return false
	}
	L := t.loop
	if x, ok := unquote(L.init[t]); !ok || x != "" {
		return false
	}
	idx := e.Cond(e.Eq(e.intern(Term{op: OIdx, loop: L}), e.Int(0)))
	empty := e.Cond(e.Eq(t, e.Const(`""`, nil)))
	for _, a := range e.alts(L.back[t]) {
		var got strings.Builder
		for i, x := range flat(e, a.t, "s") {
			switch {
			case x.term == nil:
				got.WriteString(x.text)
			case x.term == t && i == 0:
				got.WriteString("\x01")
			case s.isName(x.term, L, nil):
				got.WriteString("\x00")
			default:
				return false
			}
		}
		first := b.And(a.c, b.Or(idx, empty)) == a.c
		later := b.And(a.c, idx) == False || b.And(a.c, empty) == False
		switch {
		case got.String() == "\x01\x00" && first, got.String() == "\x00" && first, got.String() == "\x01 \x00" && later:
		default:
			return false
		}
	}
	return true
}

// overList reports whether a loop runs over the whole of the path, in order.
func (s *Sem) overList(L *Loop, p pathOf) bool {
	return L.kind == "index" && !L.reversed && len(L.exits) == 0 && L.container != nil && L.container == p.list
}

func (s *Sem) always(L *Loop, ef *Effect) bool {
	b := s.e.bdd
	return b.And(L.pc, b.Not(ef.pc), s.care(L.pc, ef.pc), s.loopCare(b.And(L.pc, b.Not(ef.pc)), []*Loop{L}, nil)) == False
}

// inOrderOf reports whether list is appended to in loop L only.
func (s *Sem) inOrderOf(list *Term, L *Loop) bool {
	for _, ef := range s.e.effects {
		if (ef.kind == "reverse" || ef.kind == "sort") && len(ef.args) > 0 && ef.args[0] == list {
			return false
		}
	}
	if list.op == OLV {
		_, front, why := s.bodySeg(list)
		return list.loop == L && !front && why == ""
	}
	if list.op == OObj {
		// names[i] = ...
		for _, ef := range s.q.mi.slots[list] {
			if ef.args[0].args[1] != s.e.intern(Term{op: OIdx, loop: L}) {
				return false
			}
		}
		return true
	}
	return false
}

// isName reports whether t is the name of the element loop L is at.
func (s *Sem) isName(t *Term, L *Loop, ef *Effect) bool {
	el := s.e.intern(Term{op: OElem, args: []*Term{L.container}, loop: L})
	for _, a := range s.e.alts(t) {
		x := a.t
		if x.op == ODeref {
			x = x.args[0]
		}
		if x.op == OConst {
			// the name of an element without one
			continue
		}
		if x.op == OField && x.aux == "Name" && x.args[0] == el {
			continue
		}
		return false
	}
	return true
}

// statPaths checks the example paths of the statistics.
func (s *Sem) statPaths(f *Frame) {
	c, e := s.c, s.e
	back := s.backward("one search")
	if back == nil {
		return
	}
	_, seed, _, ok := back.checkSeeds("path ends at a function with the capability")
	if !ok {
		return
	}
	back.checkRecorded("edges recorded")
	t, _, ok := s.statTally(f, "ExampleCallpath")
	if !ok {
		c.fail("example paths", "-", s.fn, "where the example path comes from could not be determined")
		return
	}
	n := 0
	for _, st := range s.tallyStores(t) {
		for _, x := range s.q.expand(s.q.event(st.ef, st.val)) {
			p := pathOf{list: st.val, put: st.ef, loops: x.loops, where: "GetCapabilityStats", node: back.entryNode(x, seed)}
			if e.isNil(st.val) {
				continue
			}
			s.checkPath(p, back, nil)
			n++
			c.count("paths", 1)
		}
	}
	if n == 0 {
		c.fail("example paths", "-", s.fn, "no example path is ever recorded")
	}
}

type tallyStore struct {
	ef  *Effect
	val *Term
}

// tallyStores lists the values stored in a field of a tally's entries.
func (s *Sem) tallyStores(t tally) []tallyStore {
	e := s.e
	var out []tallyStore
	values := map[*Term]bool{}
	for _, ef := range s.q.mi.sets[t.m] {
		for _, a := range e.alts(ef.args[2]) {
			values[a.t] = a.t.op == OObj
			v := s.fieldOf(a.t, t.field, ef.mem)
			if a.t.op == OLookup || e.isNil(v) {
				continue
			}
			out = append(out, tallyStore{ef, v})
		}
	}
	for _, ef := range e.effects {
		if ef.kind != "store" && ef.kind != "fieldset" {
			continue
		}
		for _, a := range e.alts(ef.args[0]) {
			if a.t.op != OFAddr || a.t.aux != t.field {
				continue
			}
			if base := a.t.args[0]; base.op == OLookup && base.args[0] == t.m || values[base] {
				out = append(out, tallyStore{ef, ef.args[1]})
				break
			}
		}
	}
	return out
}
