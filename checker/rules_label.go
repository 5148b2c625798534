package main

import (
	"go/types"
	"strings"
)

func init() {
	register("C11", "In GetCapabilityInfo and GetCapabilityStats the value that decides between DIRECT and TRANSITIVE is traced to the walk "+
		"along the recorded calls; one step of the walk must keep it exactly when the function it is at is in the reported "+
		"function's package or has no dot in its package path, compared as a boolean function. The tallies behind the counts must "+
		"change by one for each reported function and, for the direct and transitive ones, exactly when the label says so.", ruleC11)
}

func ruleC11(c *Check) {
	for _, g := range []string{"Function", "Package"} {
		s, f := c.semWith("/analyzer", "GetCapabilityInfo", given{"Granularity": c.constVal(modulePath+"/analyzer", "Granularity"+g)})
		if s == nil {
			continue
		}
		back := s.backward("one search")
		if back == nil {
			continue
		}
		_, seed, _, ok := back.checkSeeds("seeds")
		if !ok {
			continue
		}
		for _, in := range s.infos(f, "Capability") {
			p := pathOf{put: in.put, loops: in.ev.loops, node: back.entryNode(in.ev, seed)}
			label := s.behind(s.fieldRaw(in.obj, "CapabilityType", in.put), in.put)
			d, ok := s.isDirect(label)
			if !ok {
				c.failEff("label", in.put, "the label is %s, neither DIRECT nor TRANSITIVE", s.short(label))
				continue
			}
			s.checkLabel("label ("+g+")", d, p, back)
			c.count("labels", 1)
		}
		c.problems(s.e, "GetCapabilityInfo")
	}
	if s, f := c.semWith("/analyzer", "GetCapabilityStats", nil); s != nil {
		s.statLabels(f)
		c.problems(s.e, "GetCapabilityStats")
	}
	if s, f := c.semWith("/analyzer", "GetCapabilityCounts", nil); s != nil {
		if back := s.backward("one search"); back != nil {
			if cp, seed, want, ok := back.checkSeeds("seeds"); ok {
				back.checkReports("counts", cp, seed, want, s.countReports(f))
				c.count("tallies", 1)
			}
		}
		c.problems(s.e, "GetCapabilityCounts")
	}
	c.need("vacuity", "labels", c.stats["labels"], 6)
	c.need("vacuity", "tallies", c.stats["tallies"], 4)
}

// behind is the value of an optional field: what it points to.
func (s *Sem) behind(t *Term, ef *Effect) *Term {
	return s.e.dist(t, nil, func(t *Term) *Term {
		if isAddr(t) {
			return s.e.load(ef.mem, t, nil)
		}
		return t
	})
}

// isDirect is the condition that a label is DIRECT.
func (s *Sem) isDirect(t *Term) (Node, bool) {
	e, b := s.e, s.e.bdd
	direct := s.c.constVal(protoPath, "CapabilityType_CAPABILITY_TYPE_DIRECT")
	trans := s.c.constVal(protoPath, "CapabilityType_CAPABILITY_TYPE_TRANSITIVE")
	r, ok := False, true
	for _, a := range e.alts(t) {
		x := unconv(a.t)
		switch {
		case x.op == OConst && x.aux == direct:
			r = b.Or(r, a.c)
		case x.op == OConst && x.aux == trans:
		case x.op == OBool:
			r = b.Or(r, b.And(a.c, x.node))
		case x.op == OLV && isBoolType(x.typ):
			r = b.Or(r, b.And(a.c, e.Cond(x)))
		case x.op == OLV:
			r = b.Or(r, b.And(a.c, e.Cond(e.Eq(x, e.Const(direct, nil)))))
		default:
			ok = false
		}
	}
	return r, ok
}

// checkLabel checks that d, the condition that a pair is labelled DIRECT, says
// that every function on the path is in the reported function's package or the
// standard library.
func (s *Sem) checkLabel(rule string, d Node, p pathOf, back *Search) {
	c, e, b := s.c, s.e, s.e.bdd
	var lv, exit, other *Term
	for _, v := range b.Support(d) {
		t := e.atoms[v]
		if t.op == OEq && t.args[0].op == OLV && t.args[1].op == OConst {
			t = t.args[0]
		}
		switch {
		case t.op == OLV && s.isLabel(t):
			lv = t
		case t.op == OExists:
			exit = t
		default:
			other = t
		}
	}
	// the label of a walk that is left after the label has been brought up to
	// date
	if other != nil {
		if lv == nil || len(lv.loop.exits) > 0 {
			c.failEff(rule, p.put, "the label depends on %s", s.short(other))
			return
		}
		step, ok := s.isDirect(lv.loop.back[lv])
		end := b.Not(lv.loop.cont)
		if diff := b.And(end, b.Xor(d, step), s.care(end, d, step)); !ok || diff != False {
			c.failEff(rule, p.put, "the label depends on %s", s.short(other))
			return
		}
		d, _ = s.isDirect(lv)
	}
	switch {
	case lv != nil:
		L := lv.loop
		ch, why := s.chainOf(L)
		if !s.labelWalk(rule, p, L, ch, why, back) {
			return
		}
		cur, _ := s.isDirect(lv)
		step, ok := s.isDirect(L.back[lv])
		init, _ := s.isDirect(L.init[lv])
		if !ok {
			c.fail(rule, c.pos(L.pos), L.frame.fn.Name(), "a step of the walk makes the label %s", s.short(L.back[lv]))
			return
		}
		// the value after a step that leaves the loop counts like any other
		for _, x := range L.exits {
			out := b.Cofactor(d, s.varOf(x.atom), true)
			if diff := b.And(x.cond, b.Xor(out, step), s.care(x.cond, out, step)); diff != False {
				c.fail(rule, c.pos(L.pos), L.frame.fn.Name(), "the last step of the walk is not taken into account for the label")
				return
			}
		}
		rest := d
		for _, x := range L.exits {
			rest = b.Cofactor(rest, s.varOf(x.atom), false)
		}
		if rest != cur {
			c.failEff(rule, p.put, "the label is not what the walk found: %s", s.cube(b.Xor(rest, cur)))
			return
		}
		s.labelStep(rule, p, ch, cur, step, init, L.init)
	case exit != nil:
		L := exit.loop
		ch, why := s.chainBut(L, exit)
		if !s.labelWalk(rule, p, L, ch, why, back) {
			return
		}
		if d != b.Not(e.Atom(exit)) {
			c.failEff(rule, p.put, "a walk that is left early does not make the label TRANSITIVE")
			return
		}
		s.labelStep(rule, p, ch, True, b.Not(exit.node), True, L.init)
	default:
		c.failEff(rule, p.put, "the label does not depend on the functions of the path")
	}
}

// isLabel reports whether a loop variable holds a label.
func (s *Sem) isLabel(lv *Term) bool {
	back := lv.loop.back[lv]
	if back == nil {
		return false
	}
	if isBoolType(lv.typ) {
		for _, a := range s.e.alts(back) {
			if a.t.op == OConst {
				return false
			}
		}
		init := lv.loop.init[lv]
		return init != nil && init.op == OBool && init.node == True && !(back.op == OBool && (back.node == True || back.node == False))
	}
	_, ok := s.isDirect(back)
	return ok
}

func (s *Sem) varOf(t *Term) int {
	for i, a := range s.e.atoms {
		if a == t {
			return i
		}
	}
	return -1
}

// labelWalk checks the walk that computes a label.
func (s *Sem) labelWalk(rule string, p pathOf, L *Loop, ch *chain, why string, back *Search) bool {
	c := s.c
	switch {
	case ch == nil:
		c.fail(rule, c.pos(L.pos), L.frame.fn.Name(), "the label is not computed by walking along the recorded calls")
	case why != "":
		c.fail(rule, c.pos(L.pos), L.frame.fn.Name(), "the walk along the recorded calls is wrong: %s", why)
	case !s.startsAt(p, ch.start):
		c.fail(rule, c.pos(L.pos), L.frame.fn.Name(), "the walk begins at %s, not at the reported function", s.short(ch.start))
	case ch.state != back.visited || ch.dir != "Callee":
		c.fail(rule, c.pos(L.pos), L.frame.fn.Name(), "the walk does not follow the calls that lead to the capability")
	default:
		return true
	}
	return false
}

// canonical rewrites the different ways of asking for a dot in a string.
func (s *Sem) dotTests(n Node) Node {
	e := s.e
	m := map[*Term]*Term{}
	for _, v := range e.bdd.Support(n) {
		t := e.atoms[v]
		if x, neg, ok := dotTest(e, t); ok {
			c := e.Atom(e.mk(OCall, "strings.Contains", types.Typ[types.Bool], x, e.Str(".")))
			if neg {
				c = e.bdd.Not(c)
			}
			m[t] = e.Bool(c)
		}
	}
	if len(m) == 0 {
		return n
	}
	return e.SubstNode(n, m)
}

func dotTest(e *Eval, t *Term) (x *Term, neg, ok bool) {
	dot := func(c *Term) bool {
		if s, ok := unquote(c); ok {
			return s == "."
		}
		return c.op == OConst && c.aux == "46"
	}
	idx := func(c *Term) *Term {
		if c.op == OCall && len(c.args) == 2 && dot(c.args[1]) {
			switch c.aux {
			case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.IndexAny", "strings.LastIndex", "strings.LastIndexByte", "strings.Count":
				return c.args[0]
			}
		}
		return nil
	}
	isN := func(c *Term, n string) bool { return c.op == OConst && c.aux == n }
	switch t.op {
	case OCall:
		if (t.aux == "strings.ContainsRune" || t.aux == "strings.ContainsAny") && dot(t.args[1]) {
			return t.args[0], false, true
		}
	case OEq:
		if x := idx(t.args[0]); x != nil {
			if cnt := t.args[0].aux == "strings.Count"; !cnt && isN(t.args[1], "-1") || cnt && isN(t.args[1], "0") {
				return x, true, true
			}
		}
	case OLt:
		if x := idx(t.args[0]); x != nil && t.args[0].aux != "strings.Count" && isN(t.args[1], "0") {
			return x, true, true
		}
		if x := idx(t.args[1]); x != nil {
			if cnt := t.args[1].aux == "strings.Count"; !cnt && isN(t.args[0], "-1") || cnt && isN(t.args[0], "0") {
				return x, false, true
			}
		}
	}
	return nil, false, false
}

// labelStep checks one step of a label: step must be cur and "the function is
// in the reported package or the standard library".
func (s *Sem) labelStep(rule string, p pathOf, ch *chain, cur, step, init Node, inits map[*Term]*Term) {
	c, e, b := s.c, s.e, s.e.bdd
	L := ch.L
	where, fnName := c.pos(L.pos), L.frame.fn.Name()
	later := True
	for _, ft := range s.firstTests(L) {
		later = b.And(later, b.Not(ft))
	}
	norm := func(n Node) Node {
		sb := &substituter{u: e.U, m: map[*Term]*Term{}, memo: map[*Term]*Term{}, nmemo: map[Node]Node{}}
		sb.f = func(x *Term) *Term {
			if x.op == OLV && x.loop == L && L.back[x] != nil && x != ch.v {
				return s.firstPass(x)
			}
			return nil
		}
		return s.dotTests(s.normN(sb.nodeS(n), p.put))
	}
	str := types.Typ[types.String]
	start := s.norm(ch.start, p.put)
	home := e.mk(OCall, pkgPath, str, e.Field(e.Field(s.funcOf(start), "Pkg", nil), "Pkg", nil))
	nilT := func(x *Term) Node { return e.Cond(e.Eq(x, e.Nil())) }
	// what is wrong when x is the function looked at in a step
	try := func(x *Term, first bool) string {
		fn := s.funcOf(x)
		origin := e.mk(OCall, ssaFn+".Origin", nil, fn)
		cases := []struct {
			what string
			c    Node
			pkg  *Term
		}{
			{"a function of", b.And(nilT(origin), b.Not(nilT(e.Field(fn, "Pkg", nil)))), e.Field(e.Field(fn, "Pkg", nil), "Pkg", nil)},
			{"an instance of a generic function of", b.And(b.Not(nilT(origin)), b.Not(nilT(e.Field(origin, "Pkg", nil)))), e.Field(e.Field(origin, "Pkg", nil), "Pkg", nil)},
		}
		base := True
		if first {
			base = later
		}
		if ch.v != nil && x != ch.v {
			base = b.And(base, b.Not(nilT(ch.edge)))
		}
		got, cu := norm(b.And(step, base)), norm(cur)
		base = norm(base)
		for _, k := range cases {
			path := e.mk(OCall, pkgPath, str, k.pkg)
			ok := b.Or(e.Cond(e.Eq(path, home)), b.Not(e.Cond(e.mk(OCall, "strings.Contains", types.Typ[types.Bool], path, e.Str(".")))))
			// comparing packages themselves is as good
			hp := home.args[0]
			cm := map[*Term]*Term{}
			for _, v := range b.Support(got) {
				if t := e.atoms[v]; t.op == OEq && (t.args[0] == k.pkg && t.args[1] == hp || t.args[1] == k.pkg && t.args[0] == hp) {
					cm[t] = e.Bool(e.Cond(e.Eq(path, home)))
				}
			}
			g := e.SubstNode(got, cm)
			want := b.And(cu, ok)
			care := b.And(base, k.c, s.care(g, want, base, k.c))
			if d := b.And(care, b.Xor(g, want)); d != False {
				return "for " + k.what + " a package the label is not \"same package or no dot in its path\": it differs when " + s.cube(d)
			}
		}
		if d := b.And(base, got, b.Not(cu), s.care(got, cu)); d != False {
			return "a TRANSITIVE pair becomes DIRECT again"
		}
		if first {
			// the reported function itself
			if L.kind == "index" {
				inits[ch.v] = ch.start
				inits[e.intern(Term{op: OIdx, loop: L, typ: types.Typ[types.Int]})] = e.Int(0)
			}
			n := norm(e.SubstNode(step, inits))
			own := b.And(b.Not(nilT(e.Field(s.funcOf(start), "Pkg", nil))), nilT(e.mk(OCall, ssaFn+".Origin", nil, s.funcOf(start))),
				b.Not(nilT(start)))
			if d := b.And(own, b.Not(n), s.care(own, n)); d != False {
				return "the reported function's own package makes the label TRANSITIVE: " + s.cube(d)
			}
		} else if init != True {
			return "the label does not begin as DIRECT"
		}
		return ""
	}
	why := ""
	if ch.v != nil {
		if why = try(ch.v, true); why == "" {
			c.ok(rule, where+" "+fnName)
			return
		}
	}
	why2 := try(e.mk(OField, ch.dir, nil, ch.edge), false)
	if why2 == "" {
		c.ok(rule, where+" "+fnName)
		return
	}
	if why == "" || strings.Contains(why, "differs when") && !e.mentions(step, ch.v) {
		why = why2
	}
	c.fail(rule, where, fnName, "%s", why)
}

// mentions reports whether a condition depends on t.
func (e *Eval) mentions(n Node, t *Term) bool {
	if t == nil {
		return false
	}
	for _, v := range e.bdd.Support(n) {
		if e.contains(e.atoms[v], func(x *Term) bool { return x == t }) {
			return true
		}
	}
	return false
}

// statLabels checks the statistics: the count and its division by label.
func (s *Sem) statLabels(f *Frame) {
	c, e, b := s.c, s.e, s.e.bdd
	back := s.backward("one search")
	if back == nil {
		return
	}
	cp, seed, want, ok := back.checkSeeds("seeds")
	if !ok {
		return
	}
	tallies := map[string]tally{}
	var list Event
	for _, field := range []string{"Count", "DirectCount", "TransitiveCount"} {
		t, ev, ok := s.statTally(f, field)
		if !ok {
			c.fail("counts", "-", s.fn, "where %s comes from could not be determined", field)
			return
		}
		s.q.stop[t.m] = true
		tallies[field], list = t, ev
		if t.m != tallies["Count"].m {
			c.fail("counts", "-", s.fn, "%s is kept apart from the count", field)
			return
		}
		c.count("tallies", 1)
	}
	s.statList(list, tallies["Count"].m)
	byKind := map[string][3]Node{}
	effs := map[string]*Effect{}
	var total []report
	labels := map[string]pathOf{}
	for i, field := range []string{"Count", "DirectCount", "TransitiveCount"} {
		reps := s.tallyReports(field, tallies[field])
		if i == 0 {
			total = reps
		}
		for _, r := range reps {
			if r.cp != cp {
				c.failEff(field, r.ev.eff, "counts under capability %s instead of the one searched for", s.short(r.cp))
			}
			k := s.loopKey(r.ev.loops)
			v := byKind[k]
			pc := s.normN(r.ev.pc, r.ev.eff)
			if i == 0 {
				effs[k] = r.ev.eff
			} else if b.And(v[i], pc, s.care(pc, v[i])) != False {
				c.failEff(field, r.ev.eff, "a reported function is counted twice")
			}
			v[i] = b.Or(v[i], pc)
			byKind[k] = v
			if i == 1 {
				labels[k] = pathOf{put: r.ev.eff, loops: r.ev.loops, node: back.entryNode(r.ev, seed)}
			}
		}
	}
	back.checkReports("count", cp, seed, want, total)
	for _, k := range sortedKeys(byKind) {
		v := byKind[k]
		ef := effs[k]
		if ef == nil {
			c.fail("counts", "-", s.fn, "functions are counted as direct or transitive that are not counted")
			continue
		}
		care := s.care(v[0], v[1], v[2])
		if d := b.And(v[1], v[2], care); d != False {
			c.failEff("counts add up", ef, "a function counts as both direct and transitive: %s", s.cube(d))
			continue
		}
		if d := b.And(b.Xor(v[0], b.Or(v[1], v[2])), care); d != False {
			c.failEff("counts add up", ef, "a function is counted, but not as direct or transitive, or the other way round: %s", s.cube(d))
			continue
		}
		c.okEff("counts add up", ef)
		// what tells direct from transitive
		d := v[1]
		for _, x := range b.Support(v[0]) {
			d = b.Exists(d, x)
		}
		if same := b.And(b.Xor(b.And(v[0], d), v[1]), care); same != False {
			c.failEff("label", ef, "what makes a function count as direct could not be determined")
			continue
		}
		c.count("labels", 1)
		s.checkLabel("label of counts", d, labels[k], back)
	}
	_ = e
}

func (s *Sem) loopKey(ls []*Loop) string {
	return s.normKey(Event{loops: ls, terms: []*Term{s.e.Nil()}})
}

// statList checks that each entry of the tally is listed once with its own
// capability.
func (s *Sem) statList(ev Event, m *Term) {
	c, e, b := s.c, s.e, s.e.bdd
	rule := "every capability listed"
	if len(ev.loops) != 1 || original(orNil(e, ev.loops[0].container)) != m || ev.cut {
		s.q.stop[m] = true
		evs := s.q.expand(ev)
		if len(evs) != 1 || len(evs[0].loops) != 1 || original(orNil(e, evs[0].container(evs[0].loops[0]))) != m || evs[0].cut {
			c.failEff(rule, ev.eff, "the list is not made of one entry for each capability counted")
			return
		}
		ev = evs[0]
	}
	for _, why := range s.exitsOf(ev) {
		c.failEff(rule, ev.eff, "capabilities can be missed: %s", why)
		return
	}
	if d := b.And(s.total, b.Not(ev.pc), s.care(ev.pc), s.loopCare(ev.pc, ev.loops, ev.cont)); d != False {
		c.failEff(rule, ev.eff, "a capability counted is left out of the list: %s", s.cube(d))
		return
	}
	c.okEff(rule, ev.eff)
	// the capability named is the one counted
	t, _, ok := tally{}, Event{}, false
	v := e.load(ev.eff.mem, e.FAddr(ev.terms[0], "Capability", nil), nil)
	for _, a := range e.alts(v) {
		x := a.t
		if x.op == OFAddr || x.op == OField {
			name := x.aux
			if x = x.args[0]; x.op == OLookup {
				t, ok = tally{x.args[0], name}, true
			}
		} else if x.op == OKey && x.args[0] == m {
			c.okEff("capability of counts", ev.eff)
			return
		}
	}
	if !ok || t.m != m {
		c.failEff("capability of counts", ev.eff, "the capability an entry names is not that of its counts")
		return
	}
	for _, st := range s.tallySets(t) {
		k := s.capOfString(st.key)
		for _, a := range e.alts(st.val) {
			if n := b.And(a.c, st.ef.pc); a.t != k && b.And(n, s.care(n)) != False {
				c.failEff("capability of counts", st.ef, "the counts kept for %s name capability %s", s.short(k), s.short(a.t))
				return
			}
		}
	}
	c.okEff("capability of counts", ev.eff)
}

type tallySet struct {
	ef       *Effect
	key, val *Term
}

// tallySets lists the values a tally's new entries have in a field.
func (s *Sem) tallySets(t tally) []tallySet {
	e, b := s.e, s.e.bdd
	var out []tallySet
	for _, ef := range s.q.mi.sets[t.m] {
		for _, a := range e.alts(ef.args[2]) {
			if a.t.op == OLookup && a.t.args[0] == t.m || b.And(ef.pc, a.c) == False {
				continue
			}
			out = append(out, tallySet{ef, ef.args[1], s.fieldOf(a.t, t.field, ef.mem)})
		}
	}
	return out
}
