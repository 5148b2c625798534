package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C04", "In every entry point that searches the call graph, the condition under which a function found by the source scan "+
		"starts a search or is output is compared, as a boolean function, with \"the map gives it no category and builtin analysis is "+
		"on\", and the condition for going on through a caller with \"the map gives it no category\".", ruleC04)
	register("C05", "The insertions into the set of functions reported for UNSAFE_POINTER are traced back to the syntax visitor and the "+
		"walk over packages and files that runs it; the visitor's effects are decided for every class of node, target type and "+
		"argument type and compared with the property.", ruleC05)
	register("C06", "The insertions into the set of functions reported for REFLECT are traced back to the loops over functions, blocks "+
		"and instructions; their condition is decided for every kind of instruction, destination and class of stored type, and the "+
		"recursive type test is checked by induction over the classes of types.", ruleC06)
	register("C07", "The insertions into the set of functions reported for ARBITRARY_EXECUTION are traced back to the loop over the call "+
		"graph, and their exact condition is compared with \"has no body and is not synthetic\".", ruleC07)
}

// analyses evaluates every entry point that searches the call graph.
func (c *Check) analyses() []*Sem {
	var out []*Sem
	add := func(s *Sem) {
		if s == nil {
			return
		}
		if s.nodes == nil || s.cls == nil {
			c.fail("anchor", "-", s.fn, "no call graph or no classifier is used")
			return
		}
		out = append(out, s)
	}
	for _, name := range []string{"GetCapabilityCounts", "GetCapabilityStats"} {
		s, _ := c.sem("/analyzer", name)
		add(s)
	}
	for _, g := range []string{"GranularityFunction", "GranularityPackage", "GranularityIntermediate"} {
		s, _ := c.semWith("/analyzer", "GetCapabilityInfo", given{"Granularity": c.constVal(modulePath+"/analyzer", g), "CapabilitySet": "nil"})
		add(s)
	}
	for _, filtered := range []bool{false, true} {
		s, _ := c.semArgs("/analyzer", "CapabilityGraph", nil, graphFilter(filtered))
		add(s)
	}
	c.need("vacuity", "entry points that search the call graph", len(out), 7)
	return out
}

// graphFilter fixes the filter of CapabilityGraph.
func graphFilter(filtered bool) argFn {
	return func(e *Eval, p *ssa.Parameter) *Term {
		if graphParam(p.Type()) != "filter" {
			return nil
		}
		if filtered {
			return e.mk(OParam, "filter!", p.Type())
		}
		return e.Nil()
	}
}

// found is the condition that the source scan found cp in node x.
func (s *Sem) foundBy(cp, x *Term) Node {
	e := s.e
	r := False
	_, extra := s.nestRoles()
	for _, n := range extra {
		r = e.bdd.Or(r, e.Atom(e.mk(OIn, "", types.Typ[types.Bool], e.mk(OLookup, "", nil, n, cp), x)))
	}
	return r
}

// focusSeeds checks the seeds of a search for findings of the source scan;
// only limits it to one capability.
func (sr *Search) focusSeeds(rule string, only *Term) {
	s, b := sr.s, sr.s.e.bdd
	if len(sr.seeds) == 1 {
		if _, cp, node, _ := s.seedSet(sr.seeds[0]); cp != nil {
			old := sr.base
			defer func() { sr.base = old }()
			n := b.And(sr.given(), s.foundBy(cp, node))
			if only != nil {
				n = b.And(n, s.e.Cond(s.e.Eq(cp, only)))
			}
			if f := s.filterCond(cp); f != False {
				n = b.And(n, f)
			}
			if n == False {
				s.c.fail(rule, sr.where(), sr.fnName(), "the search does not start from functions found by the source scan")
				return
			}
			sr.base = n
		}
	}
	sr.checkSeeds(rule)
	s.c.count("seed_conditions", 1)
}

func ruleC04(c *Check) {
	for _, s := range c.analyses() {
		_, extra := s.nestRoles()
		if len(extra) == 0 {
			c.fail("findings kept apart", "-", s.fn, "findings of the source scan are not kept apart from what the map says")
			continue
		}
		back := s.backward("one search")
		if back == nil {
			continue
		}
		back.focusSeeds("findings start the search", nil)
		back.followPushes("findings do not stop the search")
		if s.name == "CapabilityGraph" {
			for _, fw := range s.searches() {
				if fw.dir == "Out" {
					fw.findingsForward(back)
				}
			}
		}
		c.problems(s.e, s.name)
	}
	c.need("vacuity", "seed conditions", c.stats["seed_conditions"], 7)
	c.need("vacuity", "search steps", c.stats["search_steps"], 9)
	c.need("vacuity", "capability outputs", c.stats["capability_outputs"], 2)
}

// followPushes checks that the search goes on through every function the map
// says nothing about, whatever the source scan found in it.
func (sr *Search) followPushes(rule string) {
	s, c, e := sr.s, sr.s.c, sr.s.e
	b := e.bdd
	if len(sr.pushes) == 0 {
		c.fail(rule, sr.where(), sr.fnName(), "the search never adds functions to its list")
		return
	}
	total, care := False, True
	end := "Caller"
	if sr.dir == "Out" {
		end = "Callee"
	}
	var edge, w *Term
	for _, x := range sr.pushes {
		ed, ee := edgeEnd(x.terms[0])
		if ed == nil || ee != end || edge != nil && ed != edge {
			c.failEff(rule, x.eff, "the search goes on to %s", s.short(x.terms[0]))
			return
		}
		edge, w = ed, x.terms[0]
		pc := s.normN(x.pc, x.eff)
		for _, d := range s.duplicates(pc, w, sr) {
			care = b.And(care, b.Not(d.skip))
		}
		total = b.Or(total, pc)
		care = b.And(care, s.loopCare(pc, append(append([]*Loop(nil), x.loops...), x.via...), x.cont))
	}
	inc := e.Cond(e.mk(OCall, "("+modulePath+"/analyzer.Classifier)."+includeFn, nil, s.cls, edge))
	through := w // the function gone through
	if sr.dir == "Out" {
		through = sr.w.item
	}
	care = b.And(care, inc, b.Not(s.safe(through)), b.Not(s.explicit(through)))
	if sr.visited != nil {
		care = b.And(care, s.notVisited(sr.visited, w))
	}
	if sr.dir == "In" {
		for _, x := range sr.seeds {
			if _, cp, _, _ := s.seedSet(x); cp != nil {
				if f := s.filterCond(cp); f != False {
					care = b.And(care, f)
				}
			}
		}
	} else {
		// the callee reaches a capability, and the filter admits it
		for _, bs := range s.searches() {
			if bs.dir == "In" && bs.visited != nil {
				care = b.And(care, e.Atom(e.mk(OIn, "", types.Typ[types.Bool], bs.visited, w)))
				for _, x := range bs.seeds {
					if _, cp, _, _ := s.seedSet(x); cp != nil {
						if f := s.filterCond(cp); f != False {
							care = b.And(care, f)
						}
					}
				}
			}
		}
	}
	c.count("search_steps", 1)
	if same, why := s.same(total, True, care); !same {
		c.failEff(rule, sr.pushes[0].eff, "the search does not go on through a function the map says nothing about: %s", why)
		return
	}
	c.okEff(rule, sr.pushes[0].eff)
}

// findingsForward checks that the graph goes on through findings and shows
// them.
func (sr *Search) findingsForward(back *Search) {
	s, c, e := sr.s, sr.s.c, sr.s.e
	sr.followPushes("findings do not stop the search")
	var cp *Term
	if len(back.seeds) == 1 {
		_, cp, _, _ = s.seedSet(back.seeds[0])
	}
	if cp == nil {
		return
	}
	base := s.filterCond(cp)
	filtered := base != False
	if !filtered {
		base = True
	}
	edge, w := (*Term)(nil), (*Term)(nil)
	for _, x := range sr.pushes {
		edge, _ = edgeEnd(x.terms[0])
		w = x.terms[0]
	}
	if edge == nil {
		return
	}
	var outs []outEvent
	for _, o := range s.callbacks() {
		if o.role == "capability" {
			k := s.norm(o.terms[1], o.ef)
			found := False
			if k.op == OKey {
				found = s.foundBy(k, sr.w.item)
			}
			base = e.bdd.And(base, found)
			outs = append(outs, o)
			c.count("capability_outputs", 1)
		}
	}
	if base == False {
		c.fail("findings shown", sr.where(), sr.fnName(), "capabilities found by the source scan are not output")
		return
	}
	s.outputs(back, sr, outs, cp, edge, w, base, filtered, "capability")
}

// ---- insertions by the source scan ----

// findings lists the insertions of nodes under one capability that do not come
// from the map.
func (s *Sem) findings(capability string) []Event {
	k := s.capConst(capability)
	var out []Event
	for _, n := range s.nests {
		for _, ns := range s.q.nestedSets(n) {
			if ns.k != k {
				continue
			}
			ev := Event{pc: ns.pc, loops: ns.eff.loops, terms: []*Term{ns.key}, eff: ns.eff, cont: map[*Loop]*Term{}}
			for _, x := range s.q.expand(ev) {
				x.terms[0] = s.norm(x.terms[0], x.eff)
				x.pc = s.settled(s.normN(x.pc, x.eff))
				out = append(out, s.throughSets(x)...)
			}
		}
	}
	return out
}

// settled takes conditions without which the entry point does not return as
// given.
func (s *Sem) settled(n Node) Node {
	b := s.e.bdd
	for _, v := range b.Support(n) {
		switch x := b.Var(v); {
		case b.And(s.total, x) == False:
			n = b.Cofactor(n, v, false)
		case b.And(s.total, b.Not(x)) == False:
			n = b.Cofactor(n, v, true)
		}
	}
	return n
}

// throughSets turns an event for every function of the call graph that is in
// some set made before into events for what was put in the set.
func (s *Sem) throughSets(x Event) []Event {
	e, b := s.e, s.e.bdd
	fns := s.allFns()
	for _, L := range x.loops {
		ct := x.container(L)
		if ct == nil || ct != s.nodes && ct != fns {
			continue
		}
		kt := e.intern(Term{op: OKey, args: []*Term{ct}, loop: L})
		for _, v := range b.Support(x.pc) {
			set, k, ok := s.q.member(e.atoms[v])
			if !ok || k != kt || set.op != OObj || b.And(x.pc, b.Not(b.Var(v))) != False || len(s.q.mi.sets[set]) == 0 {
				continue
			}
			var out []Event
			for _, ef := range s.q.mi.sets[set] {
				m := map[*Term]*Term{kt: ef.args[1]}
				in := e.Atom(e.mk(OIn, "", types.Typ[types.Bool], ct, ef.args[1]))
				y := x
				y.loops = joinLoops(minus(x.loops, []*Loop{L}), ef.loops)
				y.cont = map[*Loop]*Term{}
				for l, t := range x.cont {
					y.cont[l] = e.Subst(t, m)
				}
				y.terms = []*Term{e.Subst(x.terms[0], m)}
				y.pc = b.And(ef.pc, in, e.SubstNode(b.Cofactor(x.pc, v, true), m))
				y.eff = ef
				for _, z := range s.q.expand(y) {
					z.terms[0] = s.norm(z.terms[0], z.eff)
					z.pc = s.settled(s.normN(z.pc, z.eff))
					out = append(out, s.throughSets(z)...)
				}
			}
			return out
		}
	}
	return []Event{x}
}

// allFns is the set of functions the call graph was made from.
func (s *Sem) allFns() *Term {
	for _, ef := range s.e.effects {
		if ef.kind == "call" && ef.name == graphCall {
			return ef.args[0]
		}
	}
	return nil
}

// perFunction rewrites an event that happens for each function of the call
// graph in terms of one function; rest are the other loops around it.
func (s *Sem) perFunction(x Event) (y Event, rest []*Loop, ok bool) {
	e := s.e
	F := s.theFunction()
	fns := s.allFns()
	m := map[*Term]*Term{}
	for _, L := range x.loops {
		ct := x.container(L)
		if !ok && ct != nil && (ct == s.nodes || ct == fns) {
			kt := e.intern(Term{op: OKey, args: []*Term{ct}, loop: L})
			m[kt] = F
			ok = true
			continue
		}
		rest = append(rest, L)
	}
	y = x
	y.terms = nil
	for _, t := range x.terms {
		y.terms = append(y.terms, s.norm(e.Subst(t, m), nil))
	}
	y.pc = s.normN(e.SubstNode(x.pc, m), nil)
	y.cont = map[*Loop]*Term{}
	for _, L := range rest {
		if ct := x.container(L); ct != nil {
			y.cont[L] = e.Subst(ct, m)
			// elements are named after their container
			for _, op := range []Op{OElem, OKey} {
				m[e.intern(Term{op: op, args: []*Term{ct}, loop: L})] = e.intern(Term{op: op, args: []*Term{y.cont[L]}, loop: L})
			}
		}
	}
	for i, t := range x.terms {
		y.terms[i] = s.norm(e.Subst(t, m), nil)
	}
	y.pc = s.normN(e.SubstNode(x.pc, m), nil)
	return y, rest, ok
}

func (s *Sem) theFunction() *Term { return s.e.mk(ONamed, "function!", nil) }

// scanCare is what may be assumed about a function when comparing what the
// scan finds in it: it is in the call graph, the map says nothing about it and
// builtin analysis is on.
func (s *Sem) scanCare() Node { return s.scanCareOf(s.theFunction()) }

func (s *Sem) scanCareOf(F *Term) Node {
	e := s.e
	N := s.nodeOf(F)
	in := e.Atom(e.mk(OIn, "", types.Typ[types.Bool], s.nodes, F))
	return e.bdd.And(in, e.bdd.Not(e.Cond(e.Eq(N, e.Nil()))), e.bdd.Not(e.Cond(e.Eq(F, e.Nil()))),
		e.bdd.Not(s.explicit(N)), e.bdd.Not(s.safe(N)), e.bdd.Not(s.disableBuiltin()))
}

// complete reports loops of an event that can be left early or run over part
// of a list.
func (s *Sem) complete(rule string, x Event, loops []*Loop) bool {
	good := true
	y := x
	y.loops = loops
	for _, why := range s.exitsOf(y) {
		s.c.failEff(rule, x.eff, "items can be missed: %s", shorten.Replace(why))
		good = false
	}
	if x.cut {
		s.c.failEff(rule, x.eff, "only part of a list is used")
		good = false
	}
	return good
}

func ruleC07(c *Check) {
	for _, s := range c.analyses() {
		s.noBody()
		s.scanSearched("CAPABILITY_ARBITRARY_EXECUTION")
		c.problems(s.e, s.name)
	}
	c.need("vacuity", "scans for functions without a body", c.stats["scans"], 7)
}

// scanSearched checks that findings of a capability start the search.
func (s *Sem) scanSearched(capability string) {
	if back := s.backward("one search"); back != nil {
		back.focusSeeds("findings start the search", s.capConst(capability))
	}
}

func (s *Sem) noBody() {
	c, e := s.c, s.e
	b := e.bdd
	rule := "functions without a body"
	evs := s.findings("CAPABILITY_ARBITRARY_EXECUTION")
	if len(evs) == 0 {
		c.fail(rule, "-", s.fn, "no function is given the capability for lacking a body")
		return
	}
	c.count("scans", 1)
	F := s.theFunction()
	total, care := False, s.scanCare()
	for _, x := range evs {
		y, rest, ok := s.perFunction(x)
		if !ok || len(rest) > 0 || y.terms[0] != s.nodeOf(F) {
			c.failEff(rule, x.eff, "a function is given this capability outside a loop over the functions of the call graph: %s", s.short(y.terms[0]))
			return
		}
		if !s.complete(rule, x, x.loops) {
			return
		}
		total = b.Or(total, y.pc)
		care = b.And(care, s.loopCare(y.pc, append(append([]*Loop(nil), x.loops...), x.via...), x.cont))
	}
	blocks := e.Field(F, "Blocks", nil)
	none := e.Cond(e.Eq(blocks, e.Nil()))
	empty := e.Cond(e.Eq(e.Len(blocks), e.Int(0)))
	care = b.And(care, b.Not(b.Xor(none, empty)))
	blank := e.Cond(e.Eq(e.Field(F, "Synthetic", types.Typ[types.String]), e.Str("")))
	if same, why := s.same(total, b.And(none, blank), care); !same {
		c.failEff(rule, evs[0].eff, "which functions are given this capability differs from \"has no body and is not synthetic\": %s", why)
		return
	}
	c.okEff(rule, evs[0].eff)
}

// ---- reflect.Value ----

// lower turns an event that depends on "some iteration left the loop early" or
// "a variable was set in some iteration" into the event inside that loop.
func (s *Sem) lower(x Event) []Event {
	e, b := s.e, s.e.bdd
	for _, v := range b.Support(x.pc) {
		a := e.atoms[v]
		if b.And(x.pc, b.Not(b.Var(v))) != False {
			continue
		}
		switch {
		case a.op == OExists && !hasLoop(x.loops, a.loop):
			for _, ex := range a.loop.exits {
				if ex.atom != a {
					continue
				}
				y := x
				y.loops = addLoop(joinLoops(x.loops, a.loop.parents), a.loop)
				y.pc = b.And(b.Cofactor(x.pc, v, true), a.loop.pc, a.loop.cont, ex.cond)
				return s.lower(y)
			}
		case a.op == OLV && isBoolType(a.typ) && a.loop.back[a] != nil && a.loop.init[a] != nil && !hasLoop(x.loops, a.loop):
			init := e.Cond(a.loop.init[a])
			set := b.Cofactor(e.Cond(a.loop.back[a]), v, false)
			kept := b.And(b.Var(v), b.Not(e.Cond(a.loop.back[a])))
			if kept != False {
				continue
			}
			y := x
			y.loops = addLoop(joinLoops(x.loops, a.loop.parents), a.loop)
			y.pc = b.And(b.Cofactor(x.pc, v, true), a.loop.pc, a.loop.cont, set)
			out := s.lower(y)
			if init != False {
				// a variable of an enclosing loop, set in an earlier iteration:
				// that iteration was an event too
				vs := b.Support(init)
				if !(len(vs) == 1 && e.atoms[vs[0]].op == OLV && hasLoop(a.loop.parents, e.atoms[vs[0]].loop)) {
					z := x
					z.pc = b.And(b.Cofactor(x.pc, v, true), init)
					out = append(out, s.lower(z)...)
				}
			}
			return out
		}
	}
	return []Event{x}
}

func ruleC06(c *Check) {
	checked := map[string]bool{}
	for _, s := range c.analyses() {
		s.valueStores(checked)
		s.scanSearched("CAPABILITY_REFLECT")
		c.problems(s.e, s.name)
	}
	c.need("vacuity", "scans for stores", c.stats["scans"], 7)
	c.need("vacuity", "classes of stored type", c.stats["type_classes"], 50)
}

var valueClasses = wrapped([]string{"int", "string", "uintptr", "unsafe.Pointer", "interface", "reflect.Value", "pointer:reflect.Value",
	"slice:reflect.Value", "map:reflect.Value", "chan:reflect.Value", "func", "pointer:struct:reflect.Value"}, 2, "alias", "defined", "struct", "array")

func (s *Sem) valueStores(checked map[string]bool) {
	c, e := s.c, s.e
	b := e.bdd
	rule := "stores of reflect.Value"
	evs := s.findings("CAPABILITY_REFLECT")
	if len(evs) == 0 {
		c.fail(rule, "-", s.fn, "no function is given the capability for storing a reflect.Value")
		return
	}
	F := s.theFunction()
	type store struct {
		x, x0 Event
		instr *Term
	}
	var stores []store
	done := False // the function at hand is reported
	for _, x0 := range evs {
		for _, x := range s.lower(x0) {
			if e.bdd.And(x.pc, b.Not(s.disableBuiltin())) == False {
				continue
			}
			y, rest, ok := s.perFunction(x)
			if !ok || y.terms[0] != s.nodeOf(F) {
				c.failEff(rule, x.eff, "a function is given this capability outside a loop over the functions of the call graph: %s", s.short(y.terms[0]))
				return
			}
			instr, why := s.instrLoops(y, rest)
			if instr == nil {
				c.failEff(rule, x.eff, "a function is given this capability for something else than one of its instructions: %s", why)
				return
			}
			// the loop over functions
			if !s.complete(rule, x, minus(x.loops, rest)) {
				return
			}
			stores = append(stores, store{y, x, instr})
			done = b.Or(done, y.pc)
		}
	}
	for _, st := range stores {
		if _, rest, _ := s.perFunction(st.x0); !s.coversInstrs(rule, st.x, rest, done) {
			return
		}
	}
	if len(stores) == 0 {
		c.fail(rule, "-", s.fn, "no function is given the capability for storing a reflect.Value")
		return
	}
	c.count("scans", 1)
	// the set of local addresses
	var locals *Term
	for _, st := range stores {
		for _, v := range b.Support(st.x.pc) {
			if m, k, ok := s.q.member(e.atoms[v]); ok && m.op == OObj && k == e.Field(st.instr, "Addr", nil) {
				if locals != nil && locals != m {
					c.failEff(rule, st.x.eff, "two sets of local variables are used")
					return
				}
				locals = m
			}
		}
	}
	if locals == nil {
		c.failEff(rule, stores[0].x.eff, "the destination of a store is not compared with the function's local variables")
		return
	}
	if !s.localSet(locals, done) {
		return
	}
	// when a function is reported
	kinds := []string{"Store", "IndexAddr", "FieldAddr", "Alloc", "UnOp", "Call", "MapUpdate", "Send"}
	for _, kind := range kinds {
		for _, local := range []bool{false, true} {
			for _, class := range valueClasses {
				for _, ptr := range []string{"pointer:", "alias:pointer:", "defined:pointer:", "alias:defined:pointer:"} {
					want := kind == "Store" && !local && holdsValue(class)
					got := false
					for _, st := range stores {
						sh := s.instrShapes(st.instr, kind, locals, local, ptr+class, class)
						ok, unk := sh.decide(st.x.pc)
						if unk != nil {
							if want || kind == "Store" {
								c.failEff(rule, st.x.eff, "whether a function is reported depends on %s", s.short(unk))
								return
							}
							continue
						}
						got = got || ok
					}
					if got != want {
						what := "is reported"
						if !got {
							what = "is not reported"
						}
						where := "a place outside the function's local variables"
						if local {
							where = "a local variable"
						}
						c.failEff(rule, stores[0].x.eff, "an instruction *ssa.%s with a destination of type %s, %s, %s", kind, ptr+class, where, what)
						return
					}
					c.count("store_classes", 1)
				}
			}
		}
	}
	c.okEff(rule, stores[0].x.eff)
	// the recursive type test
	seen := map[string]bool{}
	for _, st := range stores {
		for _, v := range b.Support(st.x.pc) {
			if a := e.atoms[v]; a.op == ORec && !seen[a.aux] {
				seen[a.aux] = true
				s.valueTest(a.aux)
			}
		}
	}
	if len(seen) == 0 {
		c.failEff(rule, stores[0].x.eff, "the type stored is not examined by a recursive test")
	}
}

func minus(a, b []*Loop) []*Loop {
	var out []*Loop
	for _, l := range a {
		if !hasLoop(b, l) {
			out = append(out, l)
		}
	}
	return out
}

// instrLoops checks that the loops run over the instructions of the blocks of
// the function, and gives the instruction.
func (s *Sem) instrLoops(y Event, rest []*Loop) (*Term, string) {
	e := s.e
	if len(rest) != 2 {
		return nil, "it is not inside a loop over blocks and a loop over instructions"
	}
	for i := range rest {
		B, I := rest[i], rest[1-i]
		cb := y.container(B)
		if cb != e.Field(s.theFunction(), "Blocks", nil) {
			continue
		}
		eb := e.intern(Term{op: OElem, args: []*Term{cb}, loop: B})
		if ci := y.container(I); ci == e.Field(eb, "Instrs", nil) {
			return e.intern(Term{op: OElem, args: []*Term{ci}, loop: I}), ""
		}
		// the container may still mention the block under its old name
		ci := e.Subst(y.container(I), map[*Term]*Term{e.intern(Term{op: OElem, args: []*Term{B.container}, loop: B}): eb})
		if ci == e.Field(eb, "Instrs", nil) {
			return e.intern(Term{op: OElem, args: []*Term{I.container}, loop: I}), ""
		}
	}
	return nil, "the loops run over " + s.short(orNil(e, y.container(rest[0]))) + " and " + s.short(orNil(e, y.container(rest[1])))
}

// coversInstrs checks that the loops over instructions are only left early
// once the function is known to be reported.
func (s *Sem) coversInstrs(rule string, y Event, loops []*Loop, done Node) bool {
	e, b := s.e, s.e.bdd
	m := map[*Term]*Term{}
	for _, L := range y.eff.loops {
		if ct := L.container; ct != nil && (ct == s.nodes || ct == s.allFns()) {
			m[e.intern(Term{op: OKey, args: []*Term{ct}, loop: L})] = s.theFunction()
		}
	}
	atoms := map[int]bool{}
	for i := len(loops) - 1; i >= 0; i-- {
		for _, ex := range loops[i].exits {
			n := ex.cond
			left := false
			for _, v := range b.Support(n) {
				if e.atoms[v].op == OExists && atoms[v] && b.And(n, b.Not(b.Var(v))) == False {
					left = true
				}
			}
			n = s.normN(e.SubstNode(n, m), nil)
			if ex.cond == False || left || b.And(n, s.scanCare(), b.Not(done)) == False {
				for _, v := range b.Support(e.Cond(ex.atom)) {
					atoms[v] = true
				}
				continue
			}
			s.c.fail(rule, s.c.pos(ex.pos), loops[i].frame.fn.Name(), "instructions can be missed: the loop is left when %s", s.cube(ex.cond))
			return false
		}
	}
	return true
}

// instrShapes decides tests for one kind of instruction.
func (s *Sem) instrShapes(instr *Term, kind string, locals *Term, local bool, dest, val string) *shapes {
	e := s.e
	addr := e.Field(instr, "Addr", nil)
	value := e.Field(instr, "Val", nil)
	sh := &shapes{e: e, env: map[*Term]string{}}
	sh.term = func(t *Term) (string, bool) {
		if t.op == OCall && strings.HasSuffix(t.aux, ").Type") && len(t.args) > 0 {
			switch t.args[0] {
			case addr:
				return dest, true
			case value:
				return val, true
			}
		}
		return "", false
	}
	sh.atom = func(a *Term) (bool, bool) {
		if m, k, ok := s.q.member(a); ok {
			switch {
			case m == locals:
				return local, k == addr || k == e.Field(instr, "X", nil)
			case m == s.nodes:
				return true, true
			}
		}
		switch a.op {
		case OTypeIs:
			if T, ok := a.obj.(types.Type); ok && a.args[0] == instr {
				return T.String() == "*golang.org/x/tools/go/ssa."+kind, true
			}
		case OEq:
			if a.args[0] == instr && e.isNil(a.args[1]) {
				return false, true
			}
			if a.args[0] == s.nodeOf(s.theFunction()) && e.isNil(a.args[1]) {
				return false, true
			}
		case ORec:
			if c, ok := sh.class(a.args[0]); ok {
				return holdsValue(c), true
			}
		case OField:
			if a.aux == "DisableBuiltin" {
				return false, true
			}
		}
		return false, false
	}
	return sh
}

// localSet checks that exactly the non-escaping variables of a function and
// the fields and elements of them are taken for local.
func (s *Sem) localSet(locals *Term, done Node) bool {
	c, e := s.c, s.e
	b := e.bdd
	rule := "local variables"
	F := s.theFunction()
	good := true
	vars, instrs := False, []Event{}
	var elem *Term
	var instrTerm []*Term
	var last *Effect
	for _, ef := range s.q.mi.sets[locals] {
		for _, x := range s.q.expand(s.q.event(ef, ef.args[1])) {
			x.pc = s.settled(x.pc)
			y, rest, ok := s.perFunction(x)
			if !ok {
				c.failEff(rule, ef, "the set of local variables is filled outside the loop over functions")
				return false
			}
			if len(rest) == 1 && y.container(rest[0]) == e.Field(F, "Locals", nil) {
				el := e.intern(Term{op: OElem, args: []*Term{y.container(rest[0])}, loop: rest[0]})
				if y.terms[0] != el || elem != nil && elem != el {
					c.failEff(rule, ef, "%s is taken for a local variable", s.short(y.terms[0]))
					return false
				}
				good = s.complete(rule, y, rest) && good
				elem = el
				vars = b.Or(vars, y.pc)
				last = ef
				continue
			}
			instr, why := s.instrLoops(y, rest)
			if instr == nil || y.terms[0] != instr {
				c.failEff(rule, ef, "%s is taken for a local variable: %s", s.short(y.terms[0]), why)
				return false
			}
			good = s.coversInstrs(rule, y, rest, done) && good
			instrs = append(instrs, y)
			instrTerm = append(instrTerm, instr)
		}
	}
	if len(instrs) == 0 {
		c.fail(rule, "-", s.fn, "fields and elements of local variables are not taken for local")
		return false
	}
	if elem != nil {
		want := b.Not(e.Cond(e.Field(elem, "Heap", nil)))
		if same, why := s.same(vars, want, s.scanCare()); !same {
			c.failEff(rule, last, "which variables are taken for local differs from \"does not escape\": %s", why)
			return false
		}
		c.okEff(rule, last)
		// they are known before the instructions are looked at
		for _, y := range instrs {
			if last.seq > y.eff.seq {
				c.failEff(rule, last, "local variables are found after the instructions were examined")
				return false
			}
		}
	}
	for _, kind := range []string{"Store", "IndexAddr", "FieldAddr", "Alloc", "UnOp", "Call"} {
		for _, xlocal := range []bool{false, true} {
			for _, heap := range []bool{false, true} {
				got := false
				for i, y := range instrs {
					instr := instrTerm[i]
					sh := s.instrShapes(instr, kind, locals, xlocal, "", "")
					old := sh.atom
					sh.atom = func(a *Term) (bool, bool) {
						if a.op == OField && a.aux == "Heap" && a.args[0] == instr {
							return heap, true
						}
						return old(a)
					}
					ok, unk := sh.decide(y.pc)
					if unk != nil {
						if kind != "Call" && kind != "UnOp" {
							c.failEff(rule, y.eff, "what is taken for local depends on %s", s.short(unk))
							return false
						}
						continue
					}
					got = got || ok
				}
				want := (kind == "IndexAddr" || kind == "FieldAddr") && xlocal
				if kind == "Alloc" && !heap {
					if elem != nil {
						continue // in the set already
					}
					want = true
				}
				if got != want {
					c.failEff(rule, instrs[0].eff, "an *ssa.%s is taken for local: %v, expected %v (operand local: %v, escapes: %v)", kind, got, want, xlocal, heap)
					return false
				}
				c.count("local_classes", 1)
			}
		}
	}
	if len(s.q.mi.dels[locals]) > 0 {
		c.failEff(rule, s.q.mi.dels[locals][0], "local variables are removed from their set")
		good = false
	}
	c.okEff(rule, instrs[0].eff)
	return good
}

// valueTest checks the recursive function that looks for reflect.Value in a
// type: for every class of type its result, given that it is right for the
// parts of the type, must be right.
func (s *Sem) valueTest(name string) {
	c, e := s.c, s.e
	b := e.bdd
	rule := "type test"
	name = strings.TrimSuffix(name, "#0")
	var fr *Frame
	for _, f := range e.frames {
		if f.fn.String() == name && f.rec != nil && len(f.recRets) > 0 {
			if fr == nil || f.id < fr.id {
				fr = f
			}
		}
	}
	if fr == nil {
		c.fail(rule, "-", name, "the recursive function is not known")
		return
	}
	where := c.pos(fr.fn.Pos())
	R := fr.rec
	var p *Term
	for _, x := range R.recParams {
		if x.op == OLV && x.loop == R && x.typ != nil && x.typ.String() == "go/types.Type" {
			p = x
		}
	}
	if p == nil {
		c.fail(rule, where, name, "the recursive function has no type parameter")
		return
	}
	// conditions of the call itself
	outer := map[int]bool{}
	for _, cube := range b.Cubes(R.pc, 1) {
		for v, x := range cube {
			outer[v] = x
		}
	}
	rel := func(n Node) Node {
		for v, x := range outer {
			n = b.Cofactor(n, v, x)
		}
		return n
	}
	// the set that keeps recursive types from being followed for ever
	var seen *Term
	for _, ef := range e.effects {
		if ef.kind == "mapset" && hasLoop(ef.loops, R) && ef.args[1] == p && ef.args[0].op == OObj {
			seen = ef.args[0]
		}
	}
	if seen != nil {
		for _, ef := range s.q.mi.sets[seen] {
			if ef.args[1] != p {
				c.failEff(rule, ef, "another type than the one examined is marked as examined")
				return
			}
		}
		for _, l := range seen.obj.(*ObjInfo).loops {
			if l == R {
				c.fail(rule, where, name, "the set of types already examined is not kept")
				return
			}
		}
		// one set for each question
		if oi := seen.obj.(*ObjInfo); len(oi.loops) < len(R.parents) {
			c.fail(rule, c.pos(oi.instr.Pos()), name, "the set of types already examined is shared between questions about different types, so the second answer is wrong")
			return
		}
	}
	rec := strings.TrimSuffix(name, "#0") + "#0"
	for _, class := range append([]string{"nil"}, valueClasses...) {
		want := holdsValue(class)
		sh := &shapes{e: e, env: map[*Term]string{p: class}}
		sh.atom = func(a *Term) (bool, bool) {
			if v, ok := outer[e.atomIndex(e.Atom(a))]; ok {
				return v, true
			}
			switch a.op {
			case OIn, OLookup:
				if m, k, ok := s.q.member(a); ok && m == seen && k == p {
					return false, true
				}
			case ORec:
				if a.aux != rec {
					return false, false
				}
				arg := a.args[0]
				cl, ok := sh.class(arg)
				if !ok {
					return false, false
				}
				if cl == class {
					// the same type again: already examined
					return false, seen != nil
				}
				return holdsValue(cl), true
			case OExists:
				// some field of the struct holds one
				if lv := exitFlag(e, a); lv != nil {
					if f := s.fieldFlag(lv, rec, rel); f != nil {
						cl, ok := sh.class(f)
						return ok && holdsValue(cl), true
					}
				}
				if f := s.fieldTest(a, rec, rel); f != nil {
					if cl, ok := sh.class(f); ok {
						return holdsValue(cl), true
					}
					return false, true
				}
			case OLV:
				if f := s.fieldFlag(a, rec, rel); f != nil {
					if cl, ok := sh.class(f); ok {
						return holdsValue(cl), true
					}
					return false, true
				}
			}
			return false, false
		}
		got, decided := false, false
		for _, r := range fr.recRets {
			ok, unk := sh.decide(rel(r.st.pc))
			if unk != nil {
				c.fail(rule, where, fr.fn.Name(), "the result for a type of class %s depends on %s", class, s.short(unk))
				return
			}
			if !ok {
				continue
			}
			v, unk := sh.decide(e.Cond(r.vals[0]))
			if unk != nil {
				c.fail(rule, c.pos(r.instr.Pos()), fr.fn.Name(), "the result for a type of class %s depends on %s", class, s.short(unk))
				return
			}
			got, decided = v, true
		}
		if !decided || got != want {
			c.fail(rule, where, fr.fn.Name(), "the test for reflect.Value gives %v for a type of class %s, expected %v", got, class, want)
			return
		}
		c.count("type_classes", 1)
	}
	c.ok(rule, where+" "+fr.fn.Name())
}

// fieldsOf checks that L runs over all fields of a struct type, unless until
// holds, and gives the test for the type of the field at hand.
func (s *Sem) fieldsOf(L *Loop, until Node) func(t *Term) bool {
	e := s.e
	const num = "(*go/types.Struct).NumFields"
	sts := map[[2]*Term]bool{}
	if ct := L.container; ct != nil && ct.op == OConv && ct.aux == "int-range" {
		ct = ct.args[0]
		if ct.op == OCall && ct.aux == num {
			sts[[2]*Term{ct.args[0], nil}] = true
		}
	}
	for _, t := range e.list {
		if t.op != OLt || t.args[1].op != OCall || t.args[1].aux != num || e.bdd.And(e.Cond(t), e.bdd.Not(L.cont), e.bdd.Not(until)) != False {
			continue
		}
		i := t.args[0]
		if i.op == OIdx && i.loop == L {
			sts[[2]*Term{t.args[1].args[0], nil}] = true
		}
		if back := L.back[i]; back != nil && back.op == OBin && back.aux == "+" && back.args[0] == i && back.args[1] == e.Int(1) && L.init[i] == e.Int(0) &&
			e.bdd.And(L.cont, e.bdd.Not(e.Cond(t))) == False {
			// a counter besides another condition
			sts[[2]*Term{t.args[1].args[0], i}] = true
		}
	}
	if len(sts) == 0 {
		return nil
	}
	return func(t *Term) bool {
		if t.op != OCall || !strings.HasSuffix(t.aux, ").Type") {
			return false
		}
		x := t.args[0]
		for x.op == OFAddr || x.op == OField {
			x = x.args[0]
		}
		if x.op != OCall || x.aux != "(*go/types.Struct).Field" {
			return false
		}
		i := x.args[1]
		if i.op == OIdx && i.loop == L {
			i = nil
		}
		return sts[[2]*Term{x.args[0], i}]
	}
}

// fieldTest recognises "left the loop over the fields because one of them
// holds a reflect.Value"; it gives the field's type.
func (s *Sem) fieldTest(a *Term, rec string, rel func(Node) Node) *Term {
	e, b := s.e, s.e.bdd
	is := s.fieldsOf(a.loop, False)
	if is == nil {
		return nil
	}
	var ft *Term
	for _, x := range a.loop.exits {
		if x.cond == False {
			continue
		}
		// on the way there the condition is the recursive call alone
		n := b.Restrict(rel(x.cond), rel(b.And(a.loop.pc, a.loop.cont)))
		vs := b.Support(n)
		if len(vs) != 1 || n != b.Var(vs[0]) {
			return nil
		}
		r := e.atoms[vs[0]]
		if r.op != ORec || r.aux != rec || !is(r.args[0]) {
			return nil
		}
		ft = r.args[0]
	}
	return ft
}

// exitFlag is the variable a loop is left for.
func exitFlag(e *Eval, a *Term) *Term {
	for lv := range a.loop.back {
		for _, x := range a.loop.exits {
			if x.atom == a && isBoolType(lv.typ) && x.cond == e.Cond(lv) {
				return lv
			}
		}
	}
	return nil
}

// fieldFlag recognises a variable set in the loop over the fields.
func (s *Sem) fieldFlag(lv *Term, rec string, rel func(Node) Node) *Term {
	e, b := s.e, s.e.bdd
	L := lv.loop
	if !isBoolType(lv.typ) {
		return nil
	}
	is := s.fieldsOf(L, e.Cond(lv))
	if is == nil || L.back[lv] == nil || e.Cond(L.init[lv]) != False {
		return nil
	}
	me := e.Cond(lv)
	care := rel(b.And(L.pc, L.cont))
	for _, x := range L.exits {
		if rel(x.cond) == me {
			// leaves once it is set
			care = b.And(care, b.Not(me))
		}
	}
	if care == False {
		return nil
	}
	back := b.Restrict(rel(e.Cond(L.back[lv])), care)
	for _, v := range b.Support(back) {
		r := e.atoms[v]
		if r.op == ORec && r.aux == rec && is(r.args[0]) && back == b.Restrict(b.Or(me, b.Var(v)), care) {
			for _, x := range L.exits {
				if b.And(rel(x.cond), b.Not(me), b.Not(b.Var(v))) != False {
					return nil
				}
			}
			return r.args[0]
		}
	}
	return nil
}
