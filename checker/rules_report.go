package main

import (
	"go/types"
	"sort"
	"strings"
)

func init() {
	register("C12", "GetCapabilityInfo is evaluated at each granularity (and, for intermediate, with and without a capability set). "+
		"The condition under which each entry reaches the returned list is compared, as a boolean function, with the condition "+
		"that the search found the function; whatever keeps repeated entries out must be keyed by exactly the capability and the "+
		"function's package, and marked exactly when an entry is kept.", ruleC12)
}

const (
	pkgPath = "(*go/types.Package).Path"
	pkgName = "(*go/types.Package).Name"
)

// grouped is an entry of the returned list together with what keeps further
// entries of its group out of it.
type grouped struct {
	in   infoEntry
	pc   Node // when the entry is in the list
	base Node // the same, had no other entry of its group been met
	keys []groupKey
}

// groupKey is one value of a key that tells groups apart.
type groupKey struct {
	c     Node
	parts []*Term
}

// keyParts splits a key made of several values.
func (s *Sem) keyParts(t *Term) []*Term {
	switch {
	case t.op == OConst:
		return nil
	case t.op == OStruct, t.op == OList, t.op == OConv, t.op == OBin && t.aux == "+",
		t.op == OCall && (t.aux == "fmt.Sprint" || t.aux == "fmt.Sprintf" || t.aux == "fmt.Sprintln" || t.aux == "strings.Join"):
		var out []*Term
		for _, a := range t.args {
			out = append(out, s.keyParts(a)...)
		}
		return out
	}
	return []*Term{s.capOfString(unconv(t))}
}

// rootMap finds the map a possibly nested lookup starts at, with the keys on
// the way.
func rootMap(m *Term) (*Term, []*Term) {
	var ks []*Term
	for m.op == OLookup {
		ks = append(ks, m.args[1])
		m = m.args[0]
	}
	return m, ks
}

// groups finds how repeated entries are kept out.
func (s *Sem) groups(rule string, in infoEntry) grouped {
	e, b := s.e, s.e.bdd
	g := grouped{in: in}
	g.pc = s.normN(in.ev.pc, in.put)
	g.pc = b.And(g.pc, s.care(g.pc), s.loopCare(g.pc, append(append([]*Loop(nil), in.ev.loops...), in.ev.via...), in.ev.cont))
	g.base = g.pc
	done := map[*Term]bool{}
	for _, v := range b.Support(g.pc) {
		m, k, ok := s.q.member(e.atoms[v])
		seen := true
		if !ok {
			m, k, ok = s.q.nilEntry(e.atoms[v])
			seen = false
		}
		if !ok || isNodeType(k.typ) {
			continue
		}
		root, _ := rootMap(m)
		if root.op != OObj || s.keep[root] || len(s.q.mi.sets[root])+len(s.q.nestedSets(root)) == 0 {
			continue
		}
		g.base = b.Cofactor(g.base, v, !seen)
		if !done[root] {
			done[root] = true
			s.checkMarks(rule, &g, root)
		}
	}
	for _, ef := range in.ev.trail {
		if ef.kind != "mapset" {
			continue
		}
		for _, L := range in.ev.via {
			if L.kind == "map" && altCond(e, ef.args[0], original(orNil(e, L.container))) != False {
				for _, a := range e.alts(s.norm(ef.args[1], ef)) {
					g.keys = append(g.keys, groupKey{a.c, s.keyParts(a.t)})
				}
			}
		}
	}
	return g
}

// checkMarks checks that the set of groups met is marked for each entry kept
// and for no entry that is not kept, and keeps entries out when marked.
func (s *Sem) checkMarks(rule string, g *grouped, root *Term) {
	e, b, c := s.e, s.e.bdd, s.c
	var evs []Event
	for _, ef := range s.q.mi.sets[root] {
		if _, ok := typeUnder(mapElem(root.typ)).(*types.Map); !ok {
			evs = append(evs, s.q.event(ef, ef.args[1]))
		}
	}
	for _, ns := range s.q.nestedSets(root) {
		evs = append(evs, Event{pc: ns.pc, loops: ns.eff.loops, terms: []*Term{ns.k, ns.key}, eff: ns.eff, cont: map[*Loop]*Term{}})
	}
	marked, seen := False, False
	var last *Effect
	for _, ev := range evs {
		for _, x := range s.q.expand(ev) {
			if !sameLoops(x.loops, g.in.ev.loops) {
				continue
			}
			last = x.eff
			pc := s.normN(x.pc, x.eff)
			marked = b.Or(marked, pc)
			m := []alt{{True, root}}
			parts := []groupKey{{True, nil}}
			for i, t := range x.terms {
				var nm []alt
				var np []groupKey
				for j, k := range m {
					for _, a := range e.alts(s.norm(t, x.eff)) {
						if cc := b.And(k.c, a.c); cc != False {
							op := OLookup
							if i == len(x.terms)-1 {
								op = OIn
							}
							nm = append(nm, alt{cc, e.mk(op, "", nil, k.t, a.t)})
							np = append(np, groupKey{cc, append(append([]*Term(nil), parts[j].parts...), s.keyParts(a.t)...)})
						}
					}
				}
				m, parts = nm, np
			}
			for _, k := range m {
				seen = b.Or(seen, b.And(k.c, s.normN(e.Atom(k.t), nil)))
			}
			g.keys = append(g.keys, parts...)
		}
	}
	if last == nil {
		c.failEff(rule, g.in.put, "the set used to recognise repeated entries is never marked with this entry's key")
		return
	}
	care := b.And(s.total, s.care(marked, g.pc, seen), s.loopCare(b.And(marked, g.pc), append(append([]*Loop(nil), g.in.ev.loops...), g.in.ev.via...), g.in.ev.cont))
	if d := b.And(g.pc, seen, care); d != False {
		c.failEff(rule, g.in.put, "an entry is kept although one with the same key is in the list: %s", s.cube(d))
	}
	if d := b.And(g.pc, b.Not(marked), care); d != False {
		c.failEff(rule, last, "an entry is kept without its key being marked as seen: %s", s.cube(d))
	}
	if d := b.And(marked, b.Not(g.pc), b.Not(seen), care); d != False {
		c.failEff(rule, last, "a key is marked as seen although no entry is kept for it: %s", s.cube(d))
	}
}

// pkgForms lists the ways of naming the package p that tell packages apart.
func (s *Sem) pkgForms(fn *Term) []*Term {
	e := s.e
	sp := e.Field(fn, "Pkg", nil)
	tp := e.Field(sp, "Pkg", nil)
	return []*Term{sp, tp, e.mk(OCall, pkgPath, types.Typ[types.String], tp)}
}

func is(t *Term, ts ...*Term) bool {
	for _, x := range ts {
		if t == x {
			return true
		}
	}
	return false
}

// checkKeys checks that groups are told apart by capability and package.
// isPkg tells whether a part is the package of the entry's function, pkgOnly
// whether it depends on that package alone.  It returns the packages.
func (s *Sem) checkKeys(rule string, g grouped, cp *Term, isPkg func(t *Term, c Node) bool, pkgOnly func(*Term) bool) []alt {
	c, b := s.c, s.e.bdd
	if len(g.keys) == 0 {
		c.failEff(rule, g.in.put, "nothing keeps out further entries for the same capability and package")
		return nil
	}
	var out []alt
	good := true
	for _, k := range g.keys {
		n := b.And(k.c, g.pc)
		if b.And(n, s.care(n)) == False {
			continue
		}
		hasCap := false
		var pkg *Term
		var extra []string
		for _, p := range k.parts {
			switch {
			case p == cp:
				hasCap = true
			case isPkg(p, n):
				pkg = p
			case pkgOnly(p):
			default:
				extra = append(extra, s.short(p))
			}
		}
		sort.Strings(extra)
		switch {
		case len(extra) > 0:
			c.failEff(rule, g.in.put, "entries are told apart by %s, which is not the capability or the package", strings.Join(extra, ", "))
			good = false
		case !hasCap:
			c.failEff(rule, g.in.put, "entries of different capabilities are taken for the same, so pairs are lost")
			good = false
		case pkg == nil:
			c.failEff(rule, g.in.put, "entries of different packages can be taken for the same, so pairs are lost")
			good = false
		default:
			out = append(out, alt{k.c, pkg})
		}
	}
	if !good {
		return nil
	}
	c.okEff(rule, g.in.put)
	return out
}

// entryNode finds which function an entry found by the backward search is for.
func (sr *Search) entryNode(x Event, seed *Term) *Term {
	var push *Term
	for _, p := range sr.pushes {
		push = p.terms[0]
	}
	inW := false
	for _, L := range x.loops {
		inW = inW || L == sr.w.loop
		if ed, _ := edgeEnd(push); ed != nil && L == ed.loop {
			return push
		}
	}
	if inW {
		return sr.w.item
	}
	return seed
}

// checkEntry checks the fields that identify an entry.
func (s *Sem) checkEntry(rule string, in infoEntry, pkgs ...*Term) {
	e, b, c := s.e, s.e.bdd, s.c
	for _, fl := range []struct{ field, fn string }{{"PackageDir", pkgPath}, {"PackageName", pkgName}} {
		for _, a := range e.alts(in.fields[fl.field]) {
			pc := b.And(s.normN(in.ev.pc, in.put), a.c)
			if b.And(pc, s.care(pc)) == False {
				continue
			}
			good := false
			for _, p := range pkgs {
				good = good || a.t == e.mk(OCall, fl.fn, types.Typ[types.String], p)
			}
			if !good {
				c.failEff(rule, in.put, "the entry's %s is %s, not that of its function's package", fl.field, s.short(a.t))
				return
			}
		}
	}
	c.okEff(rule, in.put)
}

func ruleC12(c *Check) {
	for _, g := range []string{"Function", "Unset", "Package"} {
		s, f := c.semWith("/analyzer", "GetCapabilityInfo", given{"Granularity": c.constVal(modulePath+"/analyzer", "Granularity"+g)})
		if s == nil {
			continue
		}
		sr := s.backward("one search")
		if sr == nil {
			continue
		}
		cp, seed, want, ok := sr.checkSeeds("seeds")
		if !ok {
			continue
		}
		var reps []report
		for _, in := range s.infos(f, "Capability", "PackageDir", "PackageName") {
			node := sr.entryNode(in.ev, seed)
			fn := s.funcOf(node)
			s.checkEntry("entry's package ("+g+")", in, s.pkgForms(fn)[1])
			x := in.ev
			x.eff = in.put
			if g == "Package" {
				gr := s.groups("one entry per pair", in)
				s.checkKeys("one entry per pair", gr, cp, func(p *Term, _ Node) bool { return is(p, s.pkgForms(fn)...) }, func(p *Term) bool {
					return p == s.e.mk(OCall, pkgName, types.Typ[types.String], s.pkgForms(fn)[1])
				})
				x.pc = gr.base
			}
			for _, a := range s.e.alts(in.fields["Capability"]) {
				y := x
				y.pc = s.e.bdd.And(x.pc, a.c)
				if y.pc != False {
					reps = append(reps, report{ev: y, cp: a.t})
				}
			}
			c.count("entries", 1)
		}
		sr.checkReports("no pair lost ("+g+")", cp, seed, want, reps)
		c.problems(s.e, "GetCapabilityInfo")
	}
	c.namedWithoutPaths()
	for _, set := range []string{"nil", "set!"} {
		s, f := c.semWith("/analyzer", "GetCapabilityInfo", given{"Granularity": c.constVal(modulePath+"/analyzer", "GranularityIntermediate"), "CapabilitySet": set})
		if s == nil {
			continue
		}
		s.intermediate(f, set == "nil")
		c.problems(s.e, "GetCapabilityInfo")
	}
	c.need("vacuity", "entries of the list", c.stats["entries"], 8)
}

// namedWithoutPaths checks that at function granularity an entry names its
// function even when paths are omitted.
func (c *Check) namedWithoutPaths() {
	rule := "entry names its function without paths"
	s, f := c.semWith("/analyzer", "GetCapabilityInfo", given{"Granularity": c.constVal(modulePath+"/analyzer", "GranularityFunction"), "OmitPaths": "true"})
	if s == nil {
		return
	}
	sr := s.backward("one search")
	if sr == nil {
		return
	}
	_, seed, _, ok := sr.checkSeeds("seeds")
	if !ok {
		return
	}
	b := s.e.bdd
	for _, in := range s.infos(f, "Capability") {
		p := pathOf{list: s.fieldRaw(in.obj, "Path", in.put), put: in.put, node: sr.entryNode(in.ev, seed), loops: in.ev.loops}
		named, want := False, s.normN(in.put.pc, in.put)
		var other *Term
		for _, x := range s.added(p.list) {
			st := s.step(x)
			if st.node == nil {
				continue
			}
			// what the first pass through the loops adds
			pc := True
			start := st.node
			if x.eff != nil {
				pc = x.eff.pc
				for _, L := range x.eff.loops {
					if !hasLoop(in.put.loops, L) {
						m := s.firstValues(L)
						pc, start = s.e.SubstNode(pc, m), s.e.Subst(start, m)
					}
				}
			}
			if s.startsAt(p, start) {
				named = b.Or(named, s.normN(pc, in.put))
			} else {
				other = start
			}
		}
		if named == False && other != nil {
			c.failEff(rule, in.put, "the function named is %s, not the one reported", s.short(other))
		} else if d := b.And(want, b.Not(named), s.care(want, named)); d != False {
			c.failEff(rule, in.put, "the entry does not name its function: %s", s.cube(d))
		} else {
			c.okEff(rule, in.put)
			c.count("named", 1)
		}
	}
	c.problems(s.e, "GetCapabilityInfo")
	c.need("vacuity", "entries naming a function", c.stats["named"], 1)
}

// added lists the elements put into a list one by one.
func (s *Sem) added(t *Term) []seg {
	var out []seg
	seen := map[*Term]bool{}
	var walk func(t *Term, ef *Effect)
	walk = func(t *Term, ef *Effect) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case OGate:
			for _, a := range s.e.alts(t) {
				walk(a.t, ef)
			}
		case OLV:
			walk(t.loop.init[t], ef)
			walk(t.loop.back[t], ef)
		case OAppend:
			for _, x := range t.args {
				walk(x, s.e.appendE[t])
			}
		case OList:
			for _, x := range t.args {
				out = append(out, s.oneSeg(x, ef))
			}
		}
	}
	walk(t, nil)
	return out
}

// firstValues gives the values of what changes in a loop in its first pass.
func (s *Sem) firstValues(L *Loop) map[*Term]*Term {
	m := map[*Term]*Term{}
	for lv, init := range L.init {
		m[lv] = init
	}
	if L.kind == "index" {
		m[s.e.intern(Term{op: OIdx, loop: L, typ: types.Typ[types.Int]})] = s.e.Int(0)
		if in, why := s.segments(L.container); why == "" && len(in) > 0 && in[0].val != nil {
			el := s.e.intern(Term{op: OElem, args: []*Term{L.container}, loop: L})
			if m[el] = in[0].val; in[0].ch != nil && in[0].ch.v == in[0].val {
				m[el] = in[0].ch.start
			}
		}
	}
	return m
}

// forward finds the one search that explores callees.
func (s *Sem) forward(rule string) *Search {
	var fw *Search
	for _, sr := range s.searches() {
		if sr.dir != "Out" {
			continue
		}
		if fw != nil {
			s.c.fail(rule, sr.where(), sr.fnName(), "a second search through callees is made")
			return nil
		}
		fw = sr
	}
	if fw == nil {
		s.c.fail(rule, "-", s.fn, "no search from the queried functions through their callees found")
	}
	return fw
}

// intermediate checks the entries at intermediate granularity: one for each
// capability and each package of the functions met by the forward search.
func (s *Sem) intermediate(f *Frame, all bool) {
	c, e, b := s.c, s.e, s.e.bdd
	back, fw := s.backward("one search"), s.forward("one search")
	if back == nil || fw == nil {
		return
	}
	if len(back.seeds) != 1 {
		c.fail("seeds", back.where(), back.fnName(), "the search list is filled at %d places before the search starts, expected one", len(back.seeds))
		return
	}
	_, cp, _, _ := s.seedSet(back.seeds[0])
	if cp == nil {
		c.fail("seeds", back.where(), back.fnName(), "the capability searched for could not be determined")
		return
	}
	base := True
	if !all {
		base, _ = s.hasCond(e.mk(OParam, "set!", nil), cp)
	}
	fn := s.funcOf(fw.w.item)
	rule := "no pair lost (Intermediate)"
	got, want, care := False, False, True
	var at *Effect
	for _, in := range s.infos(f, "Capability", "PackageDir", "PackageName") {
		c.count("entries", 1)
		gr := s.groups("one entry per pair", in)
		pkgs := s.checkKeys("one entry per pair", gr, cp, func(p *Term, n Node) bool { return s.isPackageOf(p, fn, n) }, func(p *Term) bool { return false })
		if pkgs == nil {
			continue
		}
		if k := in.fields["Capability"]; k != cp {
			c.failEff(rule, in.put, "reports capability %s instead of the one searched for", s.short(k))
		}
		x := in.ev
		x.eff = in.put
		s.loopsOK(rule, x, func(l *Loop, ct *Term) bool { return l == fw.w.loop || l == fw.w.inner || fw.isOuter(l) })
		at = in.put
		got = b.Or(got, gr.base)
		some := s.hasPackage(fn)
		for _, k := range gr.keys {
			for _, p := range k.parts {
				if p != cp {
					some = b.Or(some, b.And(k.c, b.Not(e.Cond(e.Eq(s.pkgValue(p), e.Nil())))))
				}
			}
		}
		s.wrapperPackages(rule, in, pkgs, fn)
		want = b.Or(want, b.And(base, some))
		care = b.And(care, s.loopCare(gr.base, append(append([]*Loop(nil), x.loops...), x.via...), x.cont))
		s.checkPackageFields("entry's package (Intermediate)", in, pkgs)
	}
	if at == nil {
		c.fail(rule, "-", s.fn, "no entry for a package on a path is ever reported")
		return
	}
	if ok, why := s.same(got, want, care); !ok {
		c.failEff(rule, at, "the condition for reporting a package differs from \"a function of it is on a path to the capability\": %s", why)
		return
	}
	c.okEff(rule, at)
}

// pkgValue is the package behind a part of a key.
func (s *Sem) pkgValue(t *Term) *Term {
	if t.op == OCall && t.aux == pkgPath {
		return t.args[0]
	}
	return t
}

// checkPackageFields checks that the entry names the package that tells its
// group apart.
func (s *Sem) checkPackageFields(rule string, in infoEntry, pkgs []alt) {
	e, b, c := s.e, s.e.bdd, s.c
	pc := s.normN(in.ev.pc, in.put)
	for _, fl := range []struct{ field, fn string }{{"PackageDir", pkgPath}, {"PackageName", pkgName}} {
		for _, a := range e.alts(in.fields[fl.field]) {
			for _, p := range pkgs {
				n := b.And(pc, a.c, p.c)
				want := e.mk(OCall, fl.fn, types.Typ[types.String], s.pkgValue(p.t))
				if a.t != want && b.And(n, s.care(n)) != False {
					c.failEff(rule, in.put, "the entry's %s is %s, not that of the package the entry is for", fl.field, s.short(a.t))
					return
				}
			}
		}
	}
	c.okEff(rule, in.put)
}

// ownPackage and genericPackage are the conditions that fn itself, or else
// the generic function it instantiates, belongs to a package.
func (s *Sem) ownPackage(fn *Term) Node {
	return s.e.bdd.Not(s.e.Cond(s.e.Eq(s.e.Field(fn, "Pkg", nil), s.e.Nil())))
}

func (s *Sem) genericPackage(fn *Term) Node {
	e, b := s.e, s.e.bdd
	origin := e.mk(OCall, ssaFn+".Origin", nil, fn)
	return b.And(b.Not(s.ownPackage(fn)), b.Not(e.Cond(e.Eq(origin, e.Nil()))), s.ownPackage(origin))
}

func (s *Sem) hasPackage(fn *Term) Node {
	return s.e.bdd.Or(s.ownPackage(fn), s.genericPackage(fn))
}

// wrapperPackages checks that the functions made for method expressions,
// method values and promoted methods count for a package.
func (s *Sem) wrapperPackages(rule string, in infoEntry, pkgs []alt, fn *Term) {
	rest := s.e.bdd.Not(s.hasPackage(fn))
	for _, part := range []string{"Params", "FreeVars", "Signature"} {
		found := false
		for _, a := range pkgs {
			found = found || s.e.bdd.And(a.c, rest) != False && s.e.contains(a.t, func(t *Term) bool {
				return t.op == OField && t.aux == part && t.args[0] == fn
			})
		}
		if !found {
			s.c.failEff(rule, in.put, "no package is found for wrapper functions known by their %s only", part)
		}
	}
}

// isPackageOf reports whether t, used when n holds, is the package of function
// fn: its own, the one of the generic function it instantiates, or, for
// wrappers, one taken from its receiver.
func (s *Sem) isPackageOf(t, fn *Term, n Node) bool {
	e, b := s.e, s.e.bdd
	own := e.Field(fn, "Pkg", nil)
	gen := e.Field(e.mk(OCall, ssaFn+".Origin", nil, fn), "Pkg", nil)
	c1, c2 := s.ownPackage(fn), s.genericPackage(fn)
	rest := b.Not(s.hasPackage(fn))
	care := s.care(n, c1, c2)
	x := s.pkgValue(t)
	switch {
	case b.And(n, c1, care) != False && x != e.Field(own, "Pkg", nil) && x != own:
		return false
	case b.And(n, c2, care) != False && x != e.Field(gen, "Pkg", nil) && x != gen:
		return false
	case b.And(n, rest, care) != False && !e.contains(x, func(y *Term) bool { return y == fn }):
		return false
	}
	return true
}
