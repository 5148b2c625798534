package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C02", "CapabilityGraph is evaluated once without and once with a capability filter. Its backward and forward search "+
		"loops are recognised from the dataflow; the exact condition of every seed, push and output callback is compared, as a "+
		"boolean function, with the cut rules of the property, and the function that prints the graph is checked to pass each "+
		"edge on unchanged.", ruleC02)
}

// roleOf tells the parameters of CapabilityGraph apart by their type.
func graphParam(t types.Type) string {
	sig, ok := t.Underlying().(*types.Signature)
	if !ok {
		return ""
	}
	p := sig.Params()
	is := func(i int, suffix string) bool { return strings.HasSuffix(p.At(i).Type().String(), suffix) }
	switch {
	case p.Len() == 3:
		return "node"
	case p.Len() == 1 && is(0, "callgraph.Edge"):
		return "call"
	case p.Len() == 2 && is(0, "callgraph.Node") && is(1, "Capability"):
		return "capability"
	case p.Len() == 1 && is(0, "Capability") && sig.Results().Len() == 1:
		return "filter"
	}
	return ""
}

func ruleC02(c *Check) {
	for _, filtered := range []bool{false, true} {
		s, _ := c.semArgs("/analyzer", "CapabilityGraph", nil, func(e *Eval, p *ssa.Parameter) *Term {
			if graphParam(p.Type()) != "filter" {
				return nil
			}
			if filtered {
				return e.mk(OParam, "filter!", p.Type())
			}
			return e.Nil()
		})
		if s == nil {
			continue
		}
		if s.nodes == nil || s.cls == nil {
			c.fail("anchor", "-", s.fn, "no call graph or no classifier is used")
			continue
		}
		s.checkGraph(filtered, false)
		c.problems(s.e, s.name)
	}
	for _, filtered := range []bool{false, true} {
		s, _ := c.graphRun(filtered)
		if s == nil {
			continue
		}
		s.checkGraph(filtered, true)
		c.problems(s.e, s.name)
	}
	c.need("vacuity", "backward searches", c.stats["searches"], 4)
	c.need("vacuity", "forward searches", c.stats["forward_searches"], 4)
	c.need("vacuity", "outputs", c.stats["outputs_checked"], 10)
}

// checkGraph checks one graph: the callbacks of CapabilityGraph, or the lines
// the command prints.
func (s *Sem) checkGraph(filtered, cli bool) {
	c := s.c
	back := s.backward("one search")
	if back == nil {
		return
	}
	var fw *Search
	for _, sr := range s.searches() {
		if sr.dir == "Out" {
			if fw != nil {
				c.fail("one search", sr.where(), sr.fnName(), "a second search through callees is made")
				return
			}
			fw = sr
		}
	}
	if fw == nil {
		c.fail("one search", "-", s.fn, "no search from the queried functions through their callees found")
		return
	}
	c.count("forward_searches", 1)
	if back.visited == nil || fw.visited == nil {
		back.checkVisited("visited set")
		fw.checkVisited("visited set")
		return
	}
	cp, _, _, ok := back.checkSeedsIf("seeds", filtered)
	back.checkPushes("search step")
	back.checkVisited("visited set")
	fw.checkVisited("visited set")
	if !ok {
		return
	}
	// when a search is made at all
	base := True
	if filtered {
		base = s.filterCond(cp)
	}
	for _, sr := range []*Search{back, fw} {
		pc, loops, whole := s.loopPC(sr.w.loop)
		if !whole {
			c.fail("search made", sr.where(), sr.fnName(), "the search is not made for every capability")
			return
		}
		if same, why := s.same(pc, base, s.loopCare(pc, sr.w.loop.parents, nil)); !same {
			c.fail("search made", sr.where(), sr.fnName(), "whether the search is made does not depend on the filter alone: %s", why)
			return
		}
		want := 0
		if filtered {
			want = 1
		}
		if len(loops) != want || filtered && loops[0] != cp.loop {
			c.fail("search made", sr.where(), sr.fnName(), "the search is inside %d loops, expected %d", len(loops), want)
			return
		}
		c.ok("search made", sr.where()+" "+sr.fnName())
	}
	fw.forwardSeeds(back, base)
	edge, w := fw.forwardPushes(back, base)
	if edge == nil {
		return
	}
	if cli {
		s.outputs(back, fw, s.edgeLines(fw), cp, edge, w, base, filtered, "call", "capability")
	} else {
		s.outputs(back, fw, s.callbacks(), cp, edge, w, base, filtered, "node", "call", "capability")
	}
}

// filterCond is the condition that the filter admits cp.
func (s *Sem) filterCond(cp *Term) Node {
	e := s.e
	r := False
	if s.name == "RunCapslock" {
		r, _ := s.hasCond(e.mk(OParam, "set!", nil), cp)
		return r
	}
	seen := map[string]bool{}
	for _, ef := range e.effects {
		if ef.kind != "dyncall" || ef.args[0].aux != "filter!" || ef.res == nil || ef.res.op != OCall || seen[ef.res.aux] {
			continue
		}
		seen[ef.res.aux] = true
		r = e.bdd.Or(r, e.Cond(e.mk(OCall, ef.res.aux, ef.res.typ, ef.args[0], cp)))
	}
	return r
}

// loopPC is the condition under which a loop is reached, with derived loops
// around it expanded.
func (s *Sem) loopPC(L *Loop) (Node, []*Loop, bool) {
	var at *Effect
	for _, ef := range s.e.effects {
		for _, l := range ef.loops {
			if l == L && at == nil {
				at = ef
			}
		}
	}
	evs := s.q.expand(Event{pc: L.pc, loops: L.parents, eff: at, cont: map[*Loop]*Term{}})
	if len(evs) != 1 {
		return False, nil, false
	}
	return s.normN(evs[0].pc, nil), evs[0].loops, len(s.exitsOf(evs[0])) == 0 && !evs[0].cut
}

// checkSeedsIf checks the seeds of a search made only when a filter admits the
// capability.
func (sr *Search) checkSeedsIf(rule string, filtered bool) (cp, node *Term, want Node, ok bool) {
	if filtered && len(sr.seeds) == 1 {
		s := sr.s
		if _, cp, _, _ := s.seedSet(sr.seeds[0]); cp != nil {
			base := s.filterCond(cp)
			if base == False {
				s.c.failEff(rule, sr.seeds[0].eff, "the filter is not asked about the capability searched for")
				return nil, nil, False, false
			}
			sr.base = base
		}
	}
	return sr.checkSeeds(rule)
}

// forwardSeeds checks where the forward search starts: at every queried
// function from which a capability can be reached.
func (sr *Search) forwardSeeds(back *Search, base Node) {
	s, c, e := sr.s, sr.s.c, sr.s.e
	rule := "forward seeds"
	if len(sr.seeds) != 1 || sr.seeds[0].eff == nil {
		c.fail(rule, sr.where(), sr.fnName(), "the forward search list is filled at %d places before the search starts, expected one", len(sr.seeds))
		return
	}
	x := sr.seeds[0]
	node := x.terms[0]
	var L *Loop
	reach := True
	for _, l := range x.loops {
		switch ct := x.container(l); {
		case ct == back.visited && node == s.q.keyOf(ct, l):
			L = l
		case ct == s.nodes && node == s.nodeOf(s.q.keyOf(s.nodes, l)):
			L = l
			reach = e.Atom(e.mk(OIn, "", types.Typ[types.Bool], back.visited, node))
		}
	}
	if L == nil {
		c.failEff(rule, x.eff, "the forward search starts from %s, not from the functions that reach a capability", s.short(node))
		return
	}
	s.loopsOK(rule, x, func(l *Loop, ct *Term) bool { return l == L || sr.isOuter(l) })
	got := s.normN(x.pc, x.eff)
	want := e.bdd.And(s.queried(node), reach)
	care := e.bdd.And(base, s.loopCare(got, append(append([]*Loop(nil), x.loops...), x.via...), x.cont))
	if ok, why := s.same(got, want, care); !ok {
		c.failEff(rule, x.eff, "which functions start the forward search differs from \"belongs to a queried package and reaches a capability\": %s", why)
		return
	}
	c.okEff(rule, x.eff)
}

// forwardEdge is the condition for a call edge to be part of the graph.
func (sr *Search) forwardEdge(back *Search, edge, w *Term) Node {
	s, e := sr.s, sr.s.e
	inc := e.Cond(e.mk(OCall, "("+modulePath+"/analyzer.Classifier)."+includeFn, nil, s.cls, edge))
	reach := e.Atom(e.mk(OIn, "", types.Typ[types.Bool], back.visited, w))
	return e.bdd.And(inc, reach, e.bdd.Not(s.explicit(sr.w.item)))
}

// dup is the condition that an event was skipped because the previous edge, or
// an edge seen before, goes to the same function.
type dup struct {
	skip Node
	list *Term
	loop *Loop
	seen *Term
}

// duplicates finds the tests for repeated callees in a condition.
func (s *Sem) duplicates(n Node, w *Term, sr *Search) []dup {
	e := s.e
	var out []dup
	for _, v := range e.bdd.Support(n) {
		t := e.atoms[v]
		if t.op == OEq {
			for i := 0; i < 2; i++ {
				a, b := t.args[i], t.args[1-i]
				if s.norm(b, nil) != w {
					continue
				}
				if a.op == OField && a.aux == "Callee" && a.args[0].op == OIndex {
					list, ix := a.args[0].args[0], a.args[0].args[1]
					if base, n, _ := plusMinus(ix); base != nil && base.op == OIdx && n == -1 {
						first := e.Cond(e.Eq(base, e.Int(0)))
						out = append(out, dup{skip: e.bdd.And(e.bdd.Not(first), e.bdd.Var(v)), list: list, loop: base.loop})
					}
				}
				if a.op == OLV && isNodeType(a.typ) || a.op == OField && a.aux == "Callee" && a.args[0].op == OLV {
					lv := a
					if a.op == OField {
						lv = a.args[0]
					}
					if lv.loop.kind == "index" {
						out = append(out, dup{skip: e.bdd.Var(v), list: lv.loop.container, loop: lv.loop})
					}
				}
			}
		}
		if m, k, ok := s.q.member(t); ok && m.op == OObj && s.norm(k, nil) == w && m != sr.visited {
			inW := false
			for _, l := range m.obj.(*ObjInfo).loops {
				inW = inW || l == sr.w.loop
			}
			if inW && len(s.q.mi.sets[m]) > 0 {
				out = append(out, dup{skip: e.bdd.Var(v), seen: m})
			}
		}
	}
	return out
}

func plusMinus(x *Term) (*Term, int, bool) {
	if x.op == OBin && x.aux == "-" && x.args[1].op == OConst {
		if _, n, ok := plus(x.args[1]); ok {
			return x.args[0], -n, true
		}
	}
	return plus(x)
}

func (sr *Search) forwardPushes(back *Search, base Node) (*Term, *Term) {
	s, c, e := sr.s, sr.s.c, sr.s.e
	rule := "forward step"
	if len(sr.pushes) == 0 {
		c.fail(rule, sr.where(), sr.fnName(), "the forward search never adds callees to its list")
		return nil, nil
	}
	total, care := False, base
	var edge0, w0 *Term
	for _, x := range sr.pushes {
		w := x.terms[0]
		edge, end := edgeEnd(w)
		if edge == nil || edge.op != OElem || edge.args[0] != e.mk(OField, "Out", nil, sr.w.item) || end != "Callee" {
			c.failEff(rule, x.eff, "the search goes on to %s instead of the callees of the function taken from the list", s.short(w))
			return nil, nil
		}
		if edge0 != nil && edge != edge0 {
			c.failEff(rule, x.eff, "callees are added to the list in two separate passes")
			return nil, nil
		}
		edge0, w0 = edge, w
		s.loopsOK(rule, x, func(l *Loop, ct *Term) bool {
			return l == sr.w.loop || l == sr.w.inner || l == edge.loop || sr.isOuter(l)
		})
		pc := s.normN(x.pc, x.eff)
		for _, d := range s.duplicates(pc, w, sr) {
			care = e.bdd.And(care, e.bdd.Not(d.skip))
		}
		total = e.bdd.Or(total, pc)
		care = e.bdd.And(care, s.loopCare(pc, append(append([]*Loop(nil), x.loops...), x.via...), x.cont))
	}
	want := e.bdd.And(sr.forwardEdge(back, edge0, w0), s.notVisited(sr.visited, w0))
	if ok, why := s.same(total, want, care); !ok {
		c.failEff(rule, sr.pushes[0].eff, "the condition for going on to a callee differs from \"the call is not ignored, the callee reaches a capability, the caller is not categorised and the callee not yet visited\": %s", why)
		return edge0, w0
	}
	c.okEff(rule, sr.pushes[0].eff)
	return edge0, w0
}

// outEvent is one output of the graph.
type outEvent struct {
	role  string
	terms []*Term
	ef    *Effect
	given Node // the output was asked for
}

// callbacks lists the calls of the output functions.
func (s *Sem) callbacks() []outEvent {
	e := s.e
	var out []outEvent
	for _, ef := range e.effects {
		if ef.kind != "dyncall" || ef.args[0].op != OParam || ef.args[0].typ == nil {
			continue
		}
		role := graphParam(ef.args[0].typ)
		if role == "" || role == "filter" {
			continue
		}
		out = append(out, outEvent{role, ef.args[1:], ef, e.bdd.Not(e.Cond(e.Eq(ef.args[0], e.Nil())))})
	}
	return out
}

// outputs checks when and with what the graph is output.
func (s *Sem) outputs(back, fw *Search, outs []outEvent, cp, edge, w *Term, base Node, filtered bool, roles ...string) {
	c, e := s.c, s.e
	seen := map[string]Node{}
	first := map[string]*Effect{}
	cares := map[string]Node{}
	wants := map[string]Node{}
	for _, o := range outs {
		role, ef, given := o.role, o.ef, o.given
		for _, x := range s.q.expand(s.q.event(ef, o.terms...)) {
			rule := "output of " + role
			in := false
			for _, l := range x.loops {
				in = in || l == fw.w.loop
			}
			if !in {
				c.failEff(rule, ef, "output outside the forward search")
				continue
			}
			pc := s.normN(x.pc, ef)
			care := e.bdd.And(base, s.loopCare(pc, append(append([]*Loop(nil), x.loops...), x.via...), x.cont))
			var want Node
			extra := func(l *Loop) bool { return false }
			switch role {
			case "node":
				want = given
				if s.norm(x.terms[0], ef) != fw.visited || s.norm(x.terms[1], ef) != fw.w.item || s.norm(x.terms[2], ef) != back.visited {
					c.failEff(rule, ef, "the node output function is given other things than the two searches and the function taken from the list")
					continue
				}
			case "call":
				if len(x.terms) == 1 && s.norm(x.terms[0], ef) != edge {
					c.failEff(rule, ef, "the call output function is given %s, not the call followed", s.short(x.terms[0]))
					continue
				}
				if len(x.terms) == 2 {
					from, to := s.norm(x.terms[0], ef), s.norm(x.terms[1], ef)
					if to != w || from != fw.w.item && from != e.Field(edge, "Caller", nil) {
						c.failEff(rule, ef, "the edge printed goes from %s to %s, not from the caller to the callee of the call followed", s.short(from), s.short(to))
						continue
					}
				}
				extra = func(l *Loop) bool { return l == edge.loop }
				ds := s.duplicates(pc, w, fw)
				if len(ds) == 0 {
					c.failEff(rule, ef, "an edge is output for each call site, so edges between two functions are repeated")
					continue
				}
				for _, d := range ds {
					if e.bdd.And(pc, d.skip) != False {
						c.failEff(rule, ef, "an edge is output although an edge to the same function was just output")
					}
					if d.list != nil && !s.sortedByCallee(d.list, d.loop, ef) {
						c.failEff(rule, ef, "repeated edges are recognised by comparing neighbours, but the list is not sorted by callee")
					}
					care = e.bdd.And(care, e.bdd.Not(d.skip))
				}
				want = e.bdd.And(fw.forwardEdge(back, edge, w), given)
			case "capability":
				node, k := s.norm(x.terms[0], ef), s.norm(x.terms[1], ef)
				if node != fw.w.item {
					c.failEff(rule, ef, "a capability is output for %s, not for the function taken from the list", s.short(node))
					continue
				}
				if filtered && k != cp {
					c.failEff(rule, ef, "capability %s is output in the graph of another capability", s.short(k))
					continue
				}
				if k.op != OKey || !s.isNest(k.args[0]) {
					c.failEff(rule, ef, "the capability output, %s, is not one of those found", s.short(k))
					continue
				}
				extra = func(l *Loop) bool { return l == k.loop }
				for _, nest := range s.nests {
					at := e.mk(OIn, "", types.Typ[types.Bool], e.mk(OLookup, "", nil, nest, k), node)
					mem, ok := s.memberOf(nest, k, node, ef)
					if ok {
						pc = e.SubstNode(pc, map[*Term]*Term{at: e.Bool(mem)})
					}
				}
				want = e.bdd.And(s.hasCap(k, node), given)
				care = e.bdd.And(care, e.bdd.Not(s.safe(node)))
			}
			s.loopsOK(rule, x, func(l *Loop, ct *Term) bool {
				return l == fw.w.loop || l == fw.w.inner || fw.isOuter(l) || extra(l)
			})
			if old, ok := seen[role]; ok {
				if e.bdd.And(old, pc, s.care(old, pc)) != False {
					c.failEff(rule, ef, "the same thing is output twice")
				}
				seen[role] = e.bdd.Or(old, pc)
				cares[role] = e.bdd.And(cares[role], care)
			} else {
				seen[role], cares[role], first[role] = pc, care, ef
			}
			wants[role] = want
			c.count("outputs_checked", 1)
		}
	}
	for _, role := range roles {
		rule := "output of " + role
		got, ok := seen[role]
		if !ok {
			c.fail(rule, fw.where(), fw.fnName(), "no %s is output in the forward search", role)
			continue
		}
		if same, why := s.same(got, wants[role], cares[role]); !same {
			c.failEff(rule, first[role], "when this is output differs from what the graph should hold: %s", why)
			continue
		}
		c.okEff(rule, first[role])
	}
}

// sortedByCallee reports whether list is sorted before loop L with the callee
// deciding before anything else.
func (s *Sem) sortedByCallee(list *Term, L *Loop, at *Effect) bool {
	e := s.e
	b := e.bdd
	for _, ef := range e.effects {
		if ef.kind != "sort" || ef.res == nil || ef.seq > at.seq || len(ef.args) == 0 || ef.args[0] != list {
			continue
		}
		r := e.Cond(ef.res)
		if ef.res.op != OBool {
			r = e.Cond(e.Lt(ef.res, e.Int(0)))
		}
		care := s.care(r)
		isKey := map[int]int{}
		for _, v := range b.Support(r) {
			t := e.atoms[v]
			ca, cb, other := s.cmpSides(t)
			if !other && (ca || cb) {
				isKey[v] = 1
				if ca && cb {
					isKey[v] = 2
				}
			}
		}
		if len(isKey) == 0 {
			continue
		}
		good := true
		for _, v := range b.Support(r) {
			if isKey[v] > 0 {
				continue
			}
			d := b.And(b.Xor(b.Cofactor(r, v, true), b.Cofactor(r, v, false)), care)
			for k, two := range isKey {
				if two < 2 {
					continue
				}
				t := e.atoms[k]
				d := b.And(d, b.Xor(b.Cofactor(r, k, true), b.Cofactor(r, k, false)))
				switch t.op {
				case OEq:
					if b.And(d, b.Not(b.Var(k))) != False {
						good = false
					}
				case OLt:
					if b.And(d, b.Var(k)) != False {
						good = false
					}
				}
			}
		}
		if good {
			return true
		}
	}
	return false
}

// cmpSides tells whether a comparator's test looks at the callee of the first
// element, of the second, or at anything else of them.
func (s *Sem) cmpSides(t *Term) (a, b, other bool) {
	seen := map[*Term]bool{}
	var walk func(x *Term, callee bool)
	walk = func(x *Term, callee bool) {
		if x.op == OParam && strings.HasPrefix(x.aux, "cmp") {
			if !callee {
				other = true
			}
			if strings.HasSuffix(x.aux, ".a") {
				a = true
			} else {
				b = true
			}
			return
		}
		if !callee && seen[x] {
			return
		}
		seen[x] = true
		c := callee || x.op == OField && x.aux == "Callee"
		for _, y := range x.args {
			walk(y, c)
		}
		if x.op == OGate || x.op == OBool || x.op == OExists {
			for _, v := range s.e.bdd.Support(x.node) {
				walk(s.e.atoms[v], false)
			}
			for _, al := range s.e.alts(x) {
				for _, v := range s.e.bdd.Support(al.c) {
					walk(s.e.atoms[v], false)
				}
			}
		}
	}
	walk(t, false)
	return
}

// graphRun evaluates the command's graph output.
func (c *Check) graphRun(filtered bool) (*Sem, *Frame) {
	g := given{"CapabilitySet": "nil"}
	if filtered {
		g["CapabilitySet"] = "set!"
	}
	return c.semArgs("/analyzer", "RunCapslock", g, func(e *Eval, p *ssa.Parameter) *Term {
		if isStringType(p.Type()) {
			return e.Const("\"graph\"", p.Type())
		}
		if p.Type().String() == "[]string" {
			return e.Nil()
		}
		return nil
	}, "/analyzer")
}

// printedNode finds the call graph node or capability whose name t is.
func (s *Sem) printedNode(t *Term, pc Node) (kind string, x *Term) {
	e := s.e
	for _, a := range e.alts(t) {
		if e.bdd.And(a.c, pc, s.care(a.c, pc)) == False {
			continue
		}
		k, y := "", (*Term)(nil)
		v := a.t
		if z, ok := escaped(v); ok {
			v = z
		}
		switch {
		case v.op == OCall && v.aux == ssaFn+".String":
			k, y = "function", s.nodeOf(s.norm(v.args[0], nil))
		case v.typ != nil && v.typ.String() == "*golang.org/x/tools/go/ssa.Function":
			k, y = "function", s.nodeOf(s.norm(v, nil))
		case v.op == OCall && strings.HasSuffix(v.aux, "proto.Capability).String"):
			k, y = "capability", v.args[0]
		case v.typ != nil && strings.HasSuffix(v.typ.String(), "proto.Capability"):
			k, y = "capability", v
		}
		if k == "" || x != nil && x != y {
			return "", nil
		}
		kind, x = k, y
	}
	return
}

// stdoutWrites lists what the run prints to standard output.
func (s *Sem) stdoutWrites() []write {
	var out []write
	for _, w := range s.e.writes() {
		if s.e.toStdout(w.to) {
			out = append(out, w)
		}
	}
	return out
}

// edgeLines lists the edge lines printed.
func (s *Sem) edgeLines(fw *Search) []outEvent {
	var out []outEvent
	for _, l := range lines(s.stdoutWrites()) {
		var named []*Term
		for _, p := range l.pieces {
			if p.term != nil {
				named = append(named, p.term)
			}
		}
		if len(named) == 0 {
			continue
		}
		ef := l.writes[0].ef
		if len(named) != 2 {
			s.c.failEff("edge line", ef, "a line of the graph names %d things, expected two", len(named))
			continue
		}
		k0, x0 := s.printedNode(named[0], ef.pc)
		k1, x1 := s.printedNode(named[1], ef.pc)
		switch {
		case k0 == "function" && k1 == "function":
			out = append(out, outEvent{"call", []*Term{x0, x1}, ef, True})
		case k0 == "function" && k1 == "capability":
			out = append(out, outEvent{"capability", []*Term{x0, x1}, ef, True})
		default:
			s.c.failEff("edge line", ef, "a line of the graph names %s and %s, which are not a function and a function or capability", s.short(named[0]), s.short(named[1]))
		}
	}
	return out
}

// hasCond is the condition under which CapabilitySet.Has holds.
func (s *Sem) hasCond(set, cp *Term) (Node, bool) {
	fn := s.c.prog.fn(modulePath+"/analyzer", "CapabilitySet.Has")
	if fn == nil {
		s.c.fail("anchor", "-", "CapabilitySet.Has", "method not found")
		return False, false
	}
	f, _ := s.e.Run(fn, []*Term{set, cp})
	r := False
	for _, x := range f.rets {
		r = s.e.bdd.Or(r, s.e.bdd.And(x.st.pc, s.e.Cond(x.vals[0])))
	}
	return r, true
}
