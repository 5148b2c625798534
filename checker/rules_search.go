package main

import (
	"fmt"
	"strings"
)

func init() {
	register("C01", "In each list-producing entry point (GetCapabilityInfo, GetCapabilityStats, GetCapabilityCounts) the search "+
		"loop over the call graph is recognised from the dataflow, and the exact condition of every seed, every push, every "+
		"visited mark and every report is compared, as a boolean function, with the cut rules of the property: no other "+
		"condition may suppress or allow one. Loops must run to exhaustion.", ruleC01)
}

// expected conditions of the backward search

// edgePush is the condition for going on to the caller of edge.
func (s *Sem) edgePush(edge, w *Term) Node {
	e := s.e
	inc := e.Cond(e.mk(OCall, "("+modulePath+"/analyzer.Classifier)."+includeFn, nil, s.cls, edge))
	return e.bdd.And(inc, e.bdd.Not(s.safe(w)), e.bdd.Not(s.explicit(w)))
}

func (s *Sem) notVisited(v, w *Term) Node {
	e := s.e
	return e.bdd.Not(e.Cond(s.inSet(v, w, nil)))
}

// nestRoles tells the map of sets filled from categories from the one filled
// from source findings.
func (s *Sem) nestRoles() (cat, extra []*Term) {
	for _, n := range s.nests {
		c, x := false, false
		for _, ns := range s.q.nestedSets(n) {
			if s.e.contains(ns.k, func(t *Term) bool { return t.op == OCall && t.aux == s.catName() }) {
				c = true
			} else if ns.k.op == OConst {
				x = true
			}
		}
		switch {
		case c:
			cat = append(cat, n)
		case x:
			extra = append(extra, n)
		}
	}
	return
}

// hasCap is the condition that node x has capability cp of its own: the map
// gives it, or the source scan found it and the map says nothing.
func (s *Sem) hasCap(cp, x *Term) Node {
	e := s.e
	r := False
	for _, a := range s.category(s.funcOf(x)) {
		r = e.bdd.Or(r, e.bdd.And(a.c, e.Cond(e.Eq(a.t, cp)),
			e.bdd.Not(e.Cond(e.Eq(a.t, s.capConst("CAPABILITY_SAFE")))),
			e.bdd.Not(e.Cond(e.Eq(a.t, s.capConst("CAPABILITY_UNSPECIFIED"))))))
	}
	_, extra := s.nestRoles()
	found := False
	for _, n := range extra {
		found = e.bdd.Or(found, e.Atom(e.mk(OIn, "", nil, e.mk(OLookup, "", nil, n, cp), x)))
	}
	found = e.bdd.And(found, e.bdd.Not(s.explicit(x)), e.bdd.Not(s.disableBuiltin()))
	return e.bdd.Or(r, found)
}

func (s *Sem) disableBuiltin() Node {
	e := s.e
	for i, a := range e.atoms {
		if a.op == OField && a.aux == "DisableBuiltin" {
			return e.bdd.Var(i)
		}
	}
	return False
}

// seedSet finds the set of nodes a seed event runs over.
func (s *Sem) seedSet(x Event) (nest, cp, node *Term, L *Loop) {
	for _, L := range x.loops {
		c := x.container(L)
		if c != nil && c.op == OLookup && s.isNest(c.args[0]) {
			return c.args[0], c.args[1], s.e.intern(Term{op: OKey, args: []*Term{c}, loop: L}), L
		}
	}
	return nil, nil, nil, nil
}

// checkSeeds checks where a backward search starts.  It returns the capability
// searched for and the condition of a seed.
func (sr *Search) checkSeeds(rule string) (cp, node *Term, want Node, ok bool) {
	s, c, e := sr.s, sr.s.c, sr.s.e
	if len(sr.seeds) != 1 {
		c.fail(rule, sr.where(), sr.fnName(), "the search list is filled at %d places before the search starts, expected one", len(sr.seeds))
		return nil, nil, False, false
	}
	x := sr.seeds[0]
	if x.eff == nil {
		c.fail(rule, sr.where(), sr.fnName(), "the search does not start from the functions that have the capability")
		return nil, nil, False, false
	}
	nest, cp, node, L := s.seedSet(x)
	if nest == nil || x.terms[0] != node {
		c.failEff(rule, x.eff, "the search starts from %s, which is not a member of the set of functions having the capability", s.short(x.terms[0]))
		return nil, nil, False, false
	}
	good := s.loopsOK(rule, x, func(l *Loop, ct *Term) bool {
		return l == L || (cp.op == OKey && l == cp.loop)
	})
	// membership as the program builds it
	mem, ok := s.memberOf(nest, cp, node, x.eff)
	if !ok {
		c.failEff(rule, x.eff, "how functions get into the set of functions having a capability could not be determined")
		return nil, nil, False, false
	}
	care := s.loopCare(x.pc, append(append([]*Loop(nil), x.loops...), x.via...), x.cont)
	got := e.bdd.And(mem, s.normN(x.pc, x.eff))
	want = e.bdd.And(s.hasCap(cp, node), e.bdd.Not(s.safe(node)))
	if same, why := s.same(got, want, e.bdd.And(care, sr.given())); !same {
		c.failEff(rule, x.eff, "which functions start the search for a capability differs from \"has the capability itself and is not SAFE\": %s", why)
		good = false
	} else {
		c.okEff(rule, x.eff)
	}
	return cp, node, want, good
}

// checkPushes checks how a search goes on.
func (sr *Search) checkPushes(rule string) {
	s, c, e := sr.s, sr.s.c, sr.s.e
	if len(sr.pushes) == 0 {
		c.fail(rule, sr.where(), sr.fnName(), "the search never adds callers to its list")
		return
	}
	total, care := False, sr.given()
	var edge0, w0 *Term
	for _, x := range sr.pushes {
		w := x.terms[0]
		edge, end := edgeEnd(w)
		okEdge := edge != nil && edge.op == OElem && edge.args[0] == e.mk(OField, "In", nil, sr.w.item) && end == "Caller"
		if !okEdge {
			c.failEff(rule, x.eff, "the search goes on to %s instead of the callers of the function taken from the list", s.short(w))
			return
		}
		if edge0 != nil && (edge != edge0) {
			c.failEff(rule, x.eff, "callers are added to the list in two separate passes")
			return
		}
		edge0, w0 = edge, w
		s.loopsOK(rule, x, func(l *Loop, ct *Term) bool {
			return l == sr.w.loop || l == sr.w.inner || l == edge.loop || sr.isOuter(l)
		})
		pc := s.normN(x.pc, x.eff)
		if e.bdd.And(total, pc) != False {
			c.failEff(rule, x.eff, "a caller is added to the list twice")
		}
		total = e.bdd.Or(total, pc)
		care = e.bdd.And(care, s.loopCare(pc, append(append([]*Loop(nil), x.loops...), x.via...), x.cont))
	}
	want := s.edgePush(edge0, w0)
	if sr.visited != nil {
		want = e.bdd.And(want, s.notVisited(sr.visited, w0))
	}
	if ok, why := s.same(total, want, care); !ok {
		c.failEff(rule, sr.pushes[0].eff, "the condition for going on to a caller differs from \"the call is not ignored, the caller is not categorised and not yet visited\": %s", why)
	} else {
		c.okEff(rule, sr.pushes[0].eff)
	}
}

// isOuter reports whether L encloses the search.
func (sr *Search) isOuter(L *Loop) bool {
	for _, p := range sr.w.loop.parents {
		if p == L {
			return true
		}
	}
	// or what an enclosing loop was replaced by
	if len(sr.seeds) > 0 {
		for _, p := range sr.seeds[0].loops {
			if p == L {
				return true
			}
		}
	}
	return false
}

// backward finds the one search of an entry point that explores callers.
func (s *Sem) backward(rule string) *Search {
	if s.graph2 != nil {
		s.c.failEff("one call graph", s.graph2, "a second call graph is built")
	}
	var out []*Search
	for _, sr := range s.searches() {
		if sr.dir == "In" {
			out = append(out, sr)
		}
	}
	if len(out) != 1 {
		s.c.fail(rule, "-", s.fn, "found %d searches through the callers of functions, expected one", len(out))
		return nil
	}
	s.c.count("searches", 1)
	return out[0]
}

// A report is an effect that reports a (function, capability) pair.
type report struct {
	ev  Event
	cp  *Term // capability reported
	one bool
}

// checkReports checks that every seed and every pushed node in a queried
// package is reported exactly once.
func (sr *Search) checkReports(rule string, cp, seed *Term, seedWant Node, reps []report) {
	s, c, e := sr.s, sr.s.c, sr.s.e
	got := map[string]Node{"seed": False, "push": False, "pop": False}
	where := map[string]*Effect{}
	var pushNode *Term
	for _, p := range sr.pushes {
		pushNode = p.terms[0]
	}
	care := True
	for _, r := range reps {
		x := r.ev
		kind := ""
		inW, inEdges := false, false
		for _, L := range x.loops {
			inW = inW || L == sr.w.loop
			if ed, _ := edgeEnd(pushNode); ed != nil && L == ed.loop {
				inEdges = true
			}
		}
		switch {
		case inW && inEdges:
			kind = "push"
		case inW:
			kind = "pop"
		default:
			kind = "seed"
		}
		s.loopsOK(rule, x, func(l *Loop, ct *Term) bool {
			if l == sr.w.loop || l == sr.w.inner || sr.isOuter(l) {
				return true
			}
			ed, _ := edgeEnd(pushNode)
			return ed != nil && l == ed.loop
		})
		if r.cp != cp {
			c.failEff(rule, x.eff, "reports capability %s instead of the one searched for", s.short(r.cp))
		}
		pc := s.normN(x.pc, x.eff)
		if e.bdd.And(got[kind], pc, s.care(got[kind], pc)) != False {
			c.failEff(rule, x.eff, "a function is reported twice")
		}
		got[kind] = e.bdd.Or(got[kind], pc)
		care = e.bdd.And(care, s.loopCare(pc, append(append([]*Loop(nil), x.loops...), x.via...), x.cont))
		if where[kind] == nil {
			where[kind] = x.eff
		}
		c.count("report_sites", 1)
	}
	cmp := func(kind string, want Node, what string) {
		ef := where[kind]
		if ef == nil {
			c.fail(rule, sr.where(), sr.fnName(), "%s is never reported", what)
			return
		}
		if ok, why := s.same(got[kind], want, care); !ok {
			c.failEff(rule, ef, "the condition for reporting %s differs from \"its package was asked about\": %s", what, why)
		} else {
			c.okEff(rule, ef)
		}
	}
	if where["pop"] != nil {
		if where["push"] != nil || where["seed"] != nil {
			c.failEff(rule, where["pop"], "functions are reported both when found and when taken from the list")
			return
		}
		cmp("pop", s.queried(sr.w.item), "a function taken from the search list")
		return
	}
	// members of the seed set are exactly the ones the seed condition admits
	mem := False
	nest, _, _, _ := s.seedSet(sr.seeds[0])
	mem, _ = s.memberOf(nest, cp, seed, sr.seeds[0].eff)
	got["seed"] = e.bdd.And(got["seed"], mem)
	cmp("seed", e.bdd.And(seedWant, s.queried(seed)), "a function that has the capability itself")
	if edge, _ := edgeEnd(pushNode); edge != nil {
		want := e.bdd.And(s.edgePush(edge, pushNode), s.queried(pushNode))
		if sr.visited != nil {
			want = e.bdd.And(want, s.notVisited(sr.visited, pushNode))
		}
		cmp("push", want, "a function that reaches the capability through calls")
	}
}

// inList says whether a term is the value String of cp.
func (s *Sem) capOfString(t *Term) *Term {
	if t.op == OCall && strings.HasSuffix(t.aux, "proto.Capability).String") {
		return t.args[0]
	}
	return t
}

func ruleC01(c *Check) {
	for _, name := range []string{"GetCapabilityCounts", "GetCapabilityStats", "GetCapabilityInfo"} {
		var g given
		if name == "GetCapabilityInfo" {
			g = given{"Granularity": c.constVal(modulePath+"/analyzer", "GranularityFunction")}
		}
		s, f := c.semWith("/analyzer", name, g)
		if s == nil {
			continue
		}
		if s.nodes == nil || s.cls == nil {
			c.fail("anchor", "-", s.fn, "no call graph or no classifier is used")
			continue
		}
		sr := s.backward("one search")
		if sr == nil {
			continue
		}
		cp, seed, want, ok := sr.checkSeeds("seeds")
		sr.checkPushes("search step")
		sr.checkVisited("visited set")
		if !ok {
			continue
		}
		var reps []report
		switch name {
		case "GetCapabilityCounts":
			reps = s.countReports(f)
		case "GetCapabilityStats":
			reps = s.statReports(f)
		case "GetCapabilityInfo":
			reps = s.infoReports(f)
		}
		sr.checkReports("reports", cp, seed, want, reps)
		c.problems(s.e, name)
	}
	c.need("vacuity", "call graph searches", c.stats["searches"], 3)
	c.need("vacuity", "report sites", c.stats["report_sites"], 6)
}

// result finds a field of the object an entry point returns.
func (s *Sem) result(f *Frame, field string) []alt {
	var out []alt
	total := False
	for _, r := range f.rets {
		total = s.e.bdd.Or(total, r.st.pc)
	}
	for _, r := range f.rets {
		if len(r.vals) == 0 {
			continue
		}
		for _, a := range s.e.alts(r.vals[0]) {
			v := s.e.load(r.st.mem, s.e.FAddr(a.t, field, nil), nil)
			for _, b := range s.e.alts(v) {
				if pc := s.e.bdd.And(r.st.pc, a.c, b.c); pc != False {
					out = append(out, alt{s.e.bdd.Restrict(pc, total), b.t})
				}
			}
		}
	}
	return out
}

func (s *Sem) countReports(f *Frame) []report {
	var reps []report
	for _, a := range s.result(f, "CapabilityCounts") {
		reps = append(reps, s.tallyReports("reports", tally{s.copiedCounts(a.t), ""})...)
	}
	return reps
}

// copiedCounts is the map whose entries are all put into m under the names of
// their keys, if that is how m is filled, else m.
func (s *Sem) copiedCounts(m *Term) *Term {
	e := s.e
	sets := s.q.mi.sets[m]
	if m.op != OObj || len(sets) != 1 || len(s.q.mi.copys[m])+len(s.q.mi.dels[m]) > 0 {
		return m
	}
	ef := sets[0]
	if len(ef.loops) == 0 || ef.args[0] != m {
		return m
	}
	L := ef.loops[len(ef.loops)-1]
	from, v := L.container, unconv(ef.args[2])
	if L.kind != "map" || len(L.exits) > 0 || from == nil || from.op != OObj || e.bdd.And(L.pc, e.bdd.Not(ef.pc)) != False {
		return m
	}
	k := s.capOfString(ef.args[1])
	if k == ef.args[1] || k.op != OKey || k.loop != L || v.op != OLookup || v.args[0] != from || v.args[1] != k {
		return m
	}
	for _, x := range s.q.mi.sets[from] {
		if x.seq > ef.seq {
			return m
		}
	}
	return from
}

// listed finds, for each element of a returned list, the objects it holds and
// the condition under which they are there.
func (s *Sem) listed(f *Frame, field string) []Event {
	var out []Event
	for _, a := range s.result(f, field) {
		for _, src := range s.q.elems(a.t, nil) {
			ev := Event{pc: s.e.bdd.And(src.pc, a.c), loops: src.loops, terms: []*Term{src.val}, eff: src.eff, cont: map[*Loop]*Term{}, cut: src.partial}
			out = append(out, ev)
		}
	}
	return out
}

// statTally finds the tally behind a field of the returned statistics.
func (s *Sem) statTally(f *Frame, field string) (tally, Event, bool) {
	e := s.e
	for _, ev := range s.listed(f, "CapabilityStats") {
		if ev.eff == nil || ev.terms[0].op != OObj {
			continue
		}
		v := e.load(ev.eff.mem, e.FAddr(ev.terms[0], field, nil), nil)
		for _, a := range e.alts(v) {
			t := a.t
			name := ""
			if t.op == OFAddr || t.op == OField {
				name = t.aux
				t = t.args[0]
			}
			if t.op == OLookup {
				return tally{t.args[0], name}, ev, true
			}
		}
	}
	return tally{}, Event{}, false
}

func (s *Sem) statReports(f *Frame) []report {
	t, _, ok := s.statTally(f, "Count")
	if !ok {
		s.c.fail("reports", "-", s.fn, "where the reported count comes from could not be determined")
		return nil
	}
	s.q.stop[t.m] = true
	return s.tallyReports("reports", t)
}

// infoEntry is one way an entry gets into a returned capability list.
type infoEntry struct {
	ev     Event
	obj    *Term
	put    *Effect // where the entry was put into a list
	fields map[string]*Term
}

// fieldAt reads a field of v at effect ef.
func (s *Sem) fieldAt(v *Term, field string, ef *Effect) *Term {
	e := s.e
	return e.dist(v, nil, func(v *Term) *Term {
		if isAddr(v) && ef != nil {
			return s.after(s.q.deptr(ef.mem, e.load(ef.mem, e.FAddr(v, field, nil), nil), nil))
		}
		return e.Field(v, field, nil)
	})
}

// putBy is the effect that first puts the value of an event into a container.
func (s *Sem) putBy(x Event) *Effect {
	put := x.eff
	if len(x.trail) > 0 {
		put = x.trail[0]
	}
	for _, ef := range x.trail {
		for _, t := range ef.args[1:] {
			if ef.seq < put.seq && s.e.contains(t, func(y *Term) bool { return y == x.terms[0] }) {
				put = ef
			}
		}
	}
	return put
}

// infos lists the entries of the returned capability list with the given
// fields.
func (s *Sem) infos(f *Frame, fields ...string) []infoEntry {
	var out []infoEntry
	for _, ev := range s.listed(f, "CapabilityInfo") {
		if ev.eff == nil {
			s.c.fail("reports", "-", s.fn, "the returned list holds %s", s.short(ev.terms[0]))
			continue
		}
		for _, fl := range fields {
			ev.terms = append(ev.terms, s.fieldAt(ev.terms[0], fl, ev.eff))
		}
		for _, x := range s.q.expand(ev) {
			put := s.putBy(x)
			in := infoEntry{ev: x, obj: x.terms[0], put: put, fields: map[string]*Term{}}
			for i, fl := range fields {
				in.fields[fl] = s.norm(x.terms[i+1], put)
			}
			out = append(out, in)
		}
	}
	return out
}

// infoReports lists the entries of the returned capability list.
func (s *Sem) infoReports(f *Frame) []report {
	var reps []report
	for _, in := range s.infos(f, "Capability") {
		x := in.ev
		x.eff = in.put
		for _, a := range s.e.alts(in.fields["Capability"]) {
			y := x
			y.pc = s.e.bdd.And(x.pc, a.c)
			if y.pc != False {
				reps = append(reps, report{ev: y, cp: a.t})
			}
		}
	}
	return reps
}

var _ = fmt.Sprint
