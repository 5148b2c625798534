package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C13", "At each granularity the two maps built from the baseline and the current report are compared with the pairs the reports "+
		"hold. Every printed line and the result of the comparison are expanded, through the lists and loops in between, to the "+
		"pairs they stand for; their conditions must be exactly \"in one map and not in the other\", each pair listed once and with the "+
		"right direction. The files and errors involved are followed to the result.", ruleC13)
	register("C14", "The main function of the revision tool is evaluated as a whole: which command's output each report is parsed from, in "+
		"which directory and with which arguments that command ran, and which revision was checked out there. Exit status 1 and "+
		"the names printed are expanded to pairs of the two reports as in C13.", ruleC14)
}

// pairMap is a map from (name, capability) pairs to entries of one report.
type pairMap struct {
	m     *Term
	lists []alt
	eff   *Effect
}

// pairsOf checks that map m holds exactly the pairs of one report.
func (s *Sem) pairsOf(rule string, m *Term, kinds []string, base Node) *pairMap {
	c, e, b := s.c, s.e, s.e.bdd
	pm := &pairMap{m: m}
	got := map[string]Node{}
	want := map[string][2]Node{}
	var first *Effect
	empty := e.Const(`""`, nil)
	good := true
	for _, src := range s.q.entries(m, nil) {
		if src.eff == nil || src.sym {
			c.fail(rule, "-", s.fn, "undecided: the pairs compared are not built from a report")
			return nil
		}
		if first == nil {
			first = src.eff
		}
		ev := Event{pc: src.pc, loops: src.loops, terms: []*Term{src.key, src.val}, eff: src.eff, cont: map[*Loop]*Term{}}
		for _, x := range s.q.expand(ev) {
			if b.And(x.pc, base, s.care(x.pc, base)) == False {
				continue
			}
			for _, k := range e.alts(x.terms[0]) {
				pc := b.And(x.pc, k.c)
				if b.And(pc, base, s.care(pc, base)) == False {
					continue
				}
				if len(x.loops) == 0 || len(x.loops) > 2 {
					c.failEff(rule, src.eff, "undecided: a pair is recorded in %d loops", len(x.loops))
					return nil
				}
				L := x.loops[0]
				cont := x.container(L)
				if cont.op != OField && cont.op != OGate || k.t.op != OStruct || len(k.t.args) != 2 {
					c.failEff(rule, src.eff, "undecided: the pair recorded is %s", s.short(k.t))
					return nil
				}
				el := s.q.elemOf(cont, L)
				if x.cut {
					good = false
					c.failEff(rule, src.eff, "only part of a report is considered")
				}
				for _, l := range append(append([]*Loop(nil), x.loops...), x.via...) {
					for _, ex := range l.exits {
						if b.And(e.Cond(ex.atom), base) != False {
							good = false
							c.failEff(rule, src.eff, "the rest of a report is not considered when the loop at %s is left early", c.pos(l.pos))
						}
					}
				}
				var name *Term
				for _, a := range k.t.args {
					if !s.isFieldOf(a, el, "Capability") {
						name = a
					}
				}
				if name == nil || !(s.isFieldOf(k.t.args[0], el, "Capability") || s.isFieldOf(k.t.args[1], el, "Capability")) {
					good = false
					c.failEff(rule, src.eff, "the pair recorded is not a name with the entry's capability: %s", s.short(k.t))
					continue
				}
				kind := ""
				path := e.Field(el, "Path", nil)
				has := True
				switch {
				case s.isFieldOf(name, el, "PackageDir") && len(x.loops) == 1:
					kind = "own package"
				case name.op == OField && name.aux == "Name" && name.args[0] == e.Index(path, e.Int(0), nil) && len(x.loops) == 1:
					kind = "function"
					has = b.Not(e.Cond(e.Eq(e.Len(path), e.Int(0))))
				case len(x.loops) == 2 && x.container(x.loops[1]) == path && name.op == OField && name.aux == "Package" && name.args[0] == s.q.elemOf(path, x.loops[1]):
					kind = "path package"
				default:
					good = false
					c.failEff(rule, src.eff, "the name recorded for a report entry is %s", s.short(name))
					continue
				}
				// state the conditions for an arbitrary entry
				entry, any := e.mk(ONamed, "entry", nil), e.mk(ONamed, "name", types.Typ[types.String])
				canon := func(n Node) Node {
					return e.SubstNode(e.SubstNode(n, map[*Term]*Term{name: any}), map[*Term]*Term{el: entry})
				}
				hi := b.And(base, canon(has))
				lo := b.And(hi, b.Not(e.Cond(e.Eq(any, empty))))
				want[kind] = [2]Node{lo, hi}
				if _, ok := got[kind]; !ok {
					got[kind] = False
				}
				got[kind] = b.Or(got[kind], canon(b.And(pc, base)))
				for _, r := range e.alts(cont) {
					rep := r.t
					if rep.op == OField && rep.aux == "CapabilityInfo" {
						rep = rep.args[0]
					}
					found := false
					for i := range pm.lists {
						if pm.lists[i].t == rep {
							found = true
							pm.lists[i].c = b.Or(pm.lists[i].c, r.c)
						}
					}
					if !found {
						pm.lists = append(pm.lists, alt{r.c, rep})
					}
				}
			}
		}
	}
	if len(s.q.mi.dels[m]) > 0 {
		good = false
		c.failEff(rule, s.q.mi.dels[m][0], "pairs are removed before the comparison")
	}
	pm.eff = first
	ks := map[string]bool{}
	for _, k := range kinds {
		ks[k] = true
		if _, ok := got[k]; !ok {
			good = false
			c.fail(rule, c.pos(posOf(first)), s.fn, "the %s of a report entry is not compared", k)
		}
	}
	for k, g := range got {
		w := want[k]
		if !ks[k] {
			good = false
			c.failEff(rule, first, "at this granularity the %s of an entry is compared", k)
			continue
		}
		if x := b.And(w[0], b.Not(g), s.care(w[0], g)); x != False {
			good = false
			c.failEff(rule, first, "the %s of an entry is not compared when %s", k, s.cube(x))
		}
		if x := b.And(g, b.Not(w[1]), s.care(w[1], g)); x != False {
			good = false
			c.failEff(rule, first, "the %s of an entry is compared although %s", k, s.cube(x))
		}
	}
	if good {
		c.okEff(rule, first)
		c.count("pair_maps", 1)
	}
	return pm
}

// isFieldOf: t is field f of x.
func (s *Sem) isFieldOf(t, x *Term, f string) bool {
	return t.op == OField && t.aux == f && t.args[0] == x
}

// pairMaps finds the maps keyed by pairs that are filled from reports.
func (s *Sem) pairMapTerms() []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, ef := range s.e.effects {
		if ef.kind != "mapset" {
			continue
		}
		for _, a := range s.e.alts(ef.args[0]) {
			m, ok := typeUnder(a.t.typ).(*types.Map)
			if !ok || seen[a.t] {
				continue
			}
			st, ok := m.Key().Underlying().(*types.Struct)
			if !ok || st.NumFields() != 2 {
				continue
			}
			// a set of pairs collected from such maps is looked through
			own := false
			for _, k := range s.e.alts(ef.args[1]) {
				own = own || k.t.op != OKey && k.t.op != OElem
			}
			if !own {
				continue
			}
			capf, strf := false, false
			for i := 0; i < 2; i++ {
				t := st.Field(i).Type()
				capf = capf || strings.HasSuffix(t.String(), "proto.Capability")
				strf = strf || isStringType(t)
			}
			if capf && strf {
				seen[a.t] = true
				out = append(out, a.t)
			}
		}
	}
	return out
}

// pairFields gives the names of the name and capability fields of a pair.
func pairFields(m *Term) (name, capability string) {
	st := typeUnder(m.typ).(*types.Map).Key().Underlying().(*types.Struct)
	for i := 0; i < 2; i++ {
		if isStringType(st.Field(i).Type()) {
			name = st.Field(i).Name()
		} else {
			capability = st.Field(i).Name()
		}
	}
	return
}

// inMaps rewrites lookups of entries compared with nil to membership tests.
func (s *Sem) inMaps(n Node, ms ...*Term) Node {
	e := s.e
	sb := &substituter{u: e.U, m: map[*Term]*Term{}, memo: map[*Term]*Term{}, nmemo: map[Node]Node{}}
	in := func(m, k *Term) *Term {
		if k.op == OKey && k.args[0] == m {
			return e.Bool(True)
		}
		return e.Bool(e.Atom(e.mk(OIn, "", types.Typ[types.Bool], m, k)))
	}
	isM := func(t *Term) bool {
		for _, m := range ms {
			if m == t {
				return true
			}
		}
		return false
	}
	sb.f = func(t *Term) *Term {
		switch {
		case t.op == OIn && isM(t.args[0]):
			return in(t.args[0], t.args[1])
		case t.op == OEq && e.isNil(t.args[1]) && t.args[0].op == OLookup && isM(t.args[0].args[0]):
			return e.Bool(e.bdd.Not(e.Cond(in(t.args[0].args[0], t.args[0].args[1]))))
		}
		return nil
	}
	return sb.nodeS(n)
}

// pairEvents expands events to the pairs of the maps they happen for; every
// other pair they mention is identified with the pair itself, which is what
// makes the event happen.
func (s *Sem) pairEvents(rule string, evs []Event, ms []*Term, base Node, principal func(x Event) *Term) (map[*Term]Node, []Event, bool) {
	c, e, b := s.c, s.e, s.e.bdd
	for _, m := range ms {
		s.q.stop[m] = true
	}
	got := map[*Term]Node{}
	s.may = nil
	var kept []Event
	ok := true
	for _, ev := range evs {
		for _, x := range s.q.expand(ev) {
			x.pc = s.inMaps(x.pc, ms...)
			if b.And(x.pc, base, s.care(x.pc, base)) == False {
				continue
			}
			var p *Term
			if principal != nil {
				p = principal(x)
			}
			var keys []*Term
			for _, l := range x.loops {
				k := s.q.keyOf(x.container(l), l)
				isM := false
				for _, m := range ms {
					isM = isM || x.container(l) == m
				}
				if !isM {
					if l.kind == "index" && x.container(l).op == OList {
						continue
					}
					ok = false
					c.failEff(rule, x.eff, "undecided: this happens once for each element of %s", s.short(x.container(l)))
					continue
				}
				keys = append(keys, k)
			}
			if p == nil && len(keys) > 0 {
				p = keys[len(keys)-1]
			}
			if p == nil || p.op != OKey {
				ok = false
				c.failEff(rule, x.eff, "undecided: this does not depend on a pair of a report")
				continue
			}
			for _, l := range append(append([]*Loop(nil), x.loops...), x.via...) {
				for _, ex := range l.exits {
					if b.And(e.Cond(ex.atom), base) != False {
						ok = false
						c.failEff(rule, x.eff, "the loop at %s can be left early", c.pos(l.pos))
					}
				}
			}
			if x.cut {
				ok = false
				c.failEff(rule, x.eff, "only part of the pairs is considered")
			}
			m := map[*Term]*Term{}
			// k is itself in the map p comes from, so the rest must hold of p
			for _, k := range keys {
				if k != p {
					m[k] = p
				}
			}
			all := e.mk(ONamed, "pair", p.typ)
			pc := e.SubstNode(x.pc, m)
			pc = s.inMaps(pc, ms...)
			pc = e.SubstNode(pc, map[*Term]*Term{p: all})
			// the others may be any pairs that meet their conditions
			may := x.pc
			for _, v := range b.Support(may) {
				other := false
				e.walk(e.atoms[v], func(t *Term) bool {
					other = other || m[t] != nil
					return true
				})
				if other {
					may = b.exists(may, v)
				}
			}
			may = e.SubstNode(may, map[*Term]*Term{p: all})
			if s.may == nil {
				s.may = map[*Term]Node{}
			}
			if old, has := s.may[p.args[0]]; has {
				may = b.Or(old, may)
			}
			s.may[p.args[0]] = may
			if old, has := got[p.args[0]]; has {
				got[p.args[0]] = b.Or(old, pc)
			} else {
				got[p.args[0]] = pc
			}
			// the event itself must not happen for other pairs
			x.terms = append(append([]*Term(nil), x.terms...), p)
			kept = append(kept, x)
		}
	}
	return got, kept, ok
}

// latchEvents lists the events that set a boolean variable that starts out
// false and stays set.
func (s *Sem) latchEvents(v *Term) ([]Event, bool) {
	e, b := s.e, s.e.bdd
	L := v.loop
	if L == nil || L.back[v] == nil || L.init[v] == nil {
		return nil, false
	}
	now := s.truth(v)
	set := s.truth(L.back[v])
	if b.And(now, b.Not(set), s.latches(), L.pc) != False {
		return nil, false
	}
	loops := append(append([]*Loop(nil), L.parents...), L)
	set = b.Cofactor(set, e.atomV[v], false)
	var out []Event
	for _, a := range b.Support(set) {
		u := e.atoms[a]
		if u.op != OLV || u == v || !hasLoop(u.loop.parents, L) {
			continue
		}
		if b.And(s.truth(u.loop.init[u]), b.Not(now)) != False || b.And(set, b.Var(a)) == False {
			return nil, false
		}
		evs, ok := s.latchEvents(u)
		if !ok {
			return nil, false
		}
		for _, x := range evs {
			x.pc = b.And(x.pc, b.Cofactor(set, a, true))
			out = append(out, x)
		}
		set = b.Cofactor(set, a, false)
	}
	if set != False {
		ef := &Effect{kind: "latch", seq: 1 << 30, loops: loops, frame: L.frame, pc: b.And(set, L.pc), name: "result"}
		for _, in := range L.frame.fn.Blocks {
			if len(in.Instrs) > 0 && ef.instr == nil {
				ef.instr = in.Instrs[0]
			}
		}
		out = append(out, s.nonEmpty(Event{pc: ef.pc, loops: loops, eff: ef, cont: map[*Loop]*Term{}})...)
	}
	return out, true
}

// nonEmpty replaces an event that happens because a container built by the
// program has elements by one event for each of them.
func (s *Sem) nonEmpty(ev Event) []Event {
	e, b := s.e, s.e.bdd
	for _, v := range b.Support(ev.pc) {
		a := e.atoms[v]
		if a.op != OEq || a.args[0].op != OLen || a.args[1].aux != "0" || b.And(ev.pc, b.Var(v)) != False {
			continue
		}
		m := a.args[0].args[0]
		var srcs []Source
		switch typeUnder(m.typ).(type) {
		case *types.Map:
			if m.op == OObj && len(s.q.mi.dels[m]) == 0 {
				srcs = s.q.entries(m, nil)
			}
		case *types.Slice:
			if m.op == OLV || m.op == OAppend {
				srcs = s.q.elems(m, nil)
			}
		}
		if len(srcs) == 0 {
			continue
		}
		var out []Event
		for _, src := range srcs {
			if src.eff == nil || src.sym || src.partial {
				return []Event{ev}
			}
			if s.there(src, m) {
				continue
			}
			n := ev
			n.pc = b.And(b.Cofactor(ev.pc, v, false), src.pc)
			n.loops = joinLoops(ev.loops, src.loops)
			out = append(out, n)
		}
		return out
	}
	return []Event{ev}
}

// there reports whether an entry is only set if the map has it already.
func (s *Sem) there(src Source, m *Term) bool {
	e, b := s.e, s.e.bdd
	for _, k := range e.alts(src.key) {
		pc := b.And(src.pc, k.c)
		has := pc == False
		for _, v := range b.Support(pc) {
			a := e.atoms[v]
			if (a.op == OLookup || a.op == OIn) && a.args[0] == m && a.args[1] == k.t && b.And(pc, b.Not(b.Var(v))) == False {
				has = true
			}
		}
		if !has {
			return false
		}
	}
	return true
}

// latchInit: the value a variable has before its loops.
func (s *Sem) latchInit(v *Term) *Term {
	for v.op == OLV && v.loop.init[v] != nil {
		v = v.loop.init[v]
	}
	return v
}

// resultVars finds the loop variables a condition depends on.
func (s *Sem) resultVars(n Node) []*Term {
	var out []*Term
	for _, v := range s.e.bdd.Support(n) {
		if a := s.e.atoms[v]; a.op == OLV {
			out = append(out, a)
		}
	}
	return out
}

func (b *BDD) exists(n Node, v int) Node {
	return b.Or(b.Cofactor(n, v, true), b.Cofactor(n, v, false))
}

var lostText = regexp.MustCompile(`(?i)no longer|lost|removed|dropped|missing|disappeared|not in the current`)

func ruleC13(c *Check) {
	for _, g := range []struct {
		name, con string
		eff       string
		kinds     []string
	}{
		{"default", "GranularityUnset", "GranularityPackage", []string{"own package"}},
		{"package", "GranularityPackage", "GranularityPackage", []string{"own package"}},
		{"function", "GranularityFunction", "GranularityFunction", []string{"function"}},
		{"intermediate", "GranularityIntermediate", "GranularityIntermediate", []string{"own package", "path package"}},
	} {
		c.opaque = map[string]bool{anaPkg + ".GetCapabilityInfo": true}
		s, f := c.semArgs("/analyzer", "RunCapslock", given{"Granularity": c.constVal(anaPkg, g.con)}, func(e *Eval, p *ssa.Parameter) *Term {
			if isStringType(p.Type()) {
				return e.Const("\"compare\"", p.Type())
			}
			return nil
		}, "/analyzer")
		c.opaque = nil
		if s == nil {
			continue
		}
		s.compared(f, g.name, c.constVal(anaPkg, g.eff), g.kinds)
		c.problems(s.e, s.name)
	}
	c.need("vacuity", "maps of pairs", c.stats["pair_maps"], 8)
	c.need("vacuity", "kinds of difference printed", c.stats["difference_lines"], 8)
}

func (s *Sem) compared(f *Frame, gran, granVal string, kinds []string) {
	c, e, b := s.c, s.e, s.e.bdd
	at := func(r string) string { return r + " (" + gran + ")" }
	// conditions of the three outcomes
	found, clean := False, False
	for _, r := range f.rets {
		v := r.vals[len(r.vals)-1]
		found = b.Or(found, b.And(r.st.pc, s.diffType(v)))
		clean = b.Or(clean, b.And(r.st.pc, e.Cond(e.Eq(v, e.Nil()))))
	}
	base := b.Or(found, clean)
	vars := s.resultVars(b.Or(found, clean))
	vars = append(vars, s.resultVars(found)...)
	for _, v := range vars {
		base = b.exists(base, e.atomV[v])
	}
	if base == False || found == False {
		c.fail(at("comparison"), "-", s.fn, "the comparison never succeeds, or never finds a difference")
		return
	}
	// the two reports
	var read, parse, list *Effect
	for _, ef := range e.effects {
		switch {
		case ef.name == "os.ReadFile":
			read = ef
		case strings.HasSuffix(ef.name, "protojson.Unmarshal") || strings.HasSuffix(ef.name, "protojson.UnmarshalOptions).Unmarshal"):
			parse = ef
		case ef.name == anaPkg+".GetCapabilityInfo":
			list = ef
		}
	}
	if read == nil || parse == nil || list == nil {
		c.fail(at("comparison"), "-", s.fn, "the baseline is not read and parsed, or the packages are not analysed")
		return
	}
	fn := c.prog.fn(anaPkg, "RunCapslock")
	var args, pkgs, queried, config *Term
	for i, p := range fn.Params {
		switch p.Type().String() {
		case "[]string":
			args = e.param(fn, i)
		case "[]*golang.org/x/tools/go/packages.Package":
			pkgs = e.param(fn, i)
		case "map[*go/types.Package]struct{}":
			queried = e.param(fn, i)
		default:
			if strings.HasSuffix(p.Type().String(), ".Config") {
				config = e.param(fn, i)
			}
		}
	}
	data := parse.args[len(parse.args)-2]
	rule := at("baseline file")
	switch {
	case args == nil || read.args[0] != e.Index(args, e.Int(0), nil):
		c.failEff(rule, read, "the baseline is not read from the file given")
	case !(data.op == OExtract && data.aux == "0" && data.args[0] == read.res):
		c.failEff(rule, parse, "the baseline parsed is not the file read")
	default:
		c.okEff(rule, read)
	}
	for _, ef := range []*Effect{read, parse} {
		bad := b.And(ef.pc, b.Not(e.Cond(e.Eq(e.errOf(ef), e.Nil()))))
		if x := b.And(bad, base, s.care(bad, base)); x != False {
			c.failEff(rule, ef, "a baseline that %s failed on still gives a comparison", shortName(ef.name))
		}
		if x := b.And(base, b.Not(ef.pc)); x != False {
			c.failEff(rule, ef, "the comparison succeeds without %s", shortName(ef.name))
		}
	}
	rule = at("current report")
	okArgs := list.args[0] == pkgs && list.args[1] == queried && list.args[2] == config
	gr := e.load(list.mem, e.FAddr(config, "Granularity", nil), nil)
	if !okArgs {
		c.failEff(rule, list, "the current report is not made for the packages and configuration given")
	} else if gr.aux != granVal {
		c.failEff(rule, list, "the current report is made at granularity %s instead of %s", s.short(gr), granVal)
	} else {
		c.okEff(rule, list)
	}
	// the maps
	var base_, cur *pairMap
	for _, m := range s.pairMapTerms() {
		pm := s.pairsOf(at("pairs of a report"), m, kinds, base)
		if pm == nil {
			return
		}
		isBase, isCur := true, true
		for _, l := range pm.lists {
			if b.And(l.c, base) == False {
				continue
			}
			if l.t != list.res {
				isCur = false
			}
			if !(l.t.op == OMod || strings.HasPrefix(l.t.aux, "mod:")) || l.t.args[0] != parse.args[len(parse.args)-1] {
				isBase = false
			}
		}
		switch {
		case isBase && !isCur:
			base_ = pm
		case isCur && !isBase:
			cur = pm
		default:
			c.failEff(at("pairs of a report"), pm.eff, "the pairs compared are of neither the baseline nor the current report")
		}
	}
	if base_ == nil || cur == nil {
		c.fail(at("pairs of a report"), "-", s.fn, "undecided: the maps of pairs of the two reports were not found")
		return
	}
	B, C := base_.m, cur.m
	pair := e.mk(ONamed, "pair", nil)
	notIn := func(m *Term) Node {
		return b.Not(e.Atom(e.mk(OIn, "", types.Typ[types.Bool], m, pair)))
	}
	want := map[*Term]Node{C: b.And(base, notIn(B)), B: b.And(base, notIn(C))}
	// what is printed
	rule = at("differences printed")
	nameF, capF := pairFields(C)
	got := map[*Term]Node{C: False, B: False}
	where := map[*Term]*Effect{}
	for _, l := range lines(s.stdoutWrites()) {
		ef := l.writes[0].ef
		var terms []*Term
		text := ""
		for _, p := range l.pieces {
			text += p.text
			if p.term != nil {
				terms = append(terms, p.term)
			}
		}
		if len(terms) < 2 {
			continue
		}
		named := false
		for _, t := range terms {
			named = named || t.op == OField && t.aux == capF && t.args[0].op == OElem || t.op == OField && t.aux == capF && t.args[0].op == OKey
		}
		if !named {
			continue
		}
		for _, w := range l.writes[1:] {
			if w.ef.pc != ef.pc {
				c.failEff(rule, w.ef, "undecided: part of a line is printed under another condition")
			}
		}
		g, evs, ok := s.pairEvents(rule, []Event{s.q.event(ef, terms...)}, []*Term{B, C}, base, nil)
		if !ok {
			continue
		}
		for mt, n := range s.may {
			if x := b.And(n, base, b.Not(want[mt]), s.care(n, want[mt])); x != False {
				c.failEff(rule, ef, "a pair that is in both reports is printed: %s", s.cube(x))
			}
		}
		for _, x := range evs {
			p := x.terms[len(x.terms)-1]
			var hasName, hasCap bool
			for _, t := range x.terms[:len(x.terms)-1] {
				hasName = hasName || t == e.Field(p, nameF, nil)
				hasCap = hasCap || t == e.Field(p, capF, nil)
			}
			if !hasName || !hasCap {
				c.failEff(rule, ef, "the line does not name the pair that differs")
			}
			m := p.args[0]
			if lostText.MatchString(text) != (m == B) {
				c.failEff(rule, ef, "the line %q is printed for a pair that is in the %s report only", text, map[bool]string{true: "baseline", false: "current"}[m == B])
			}
		}
		for m, n := range g {
			if x := b.And(got[m], n, s.care(got[m], n)); x != False {
				c.failEff(rule, ef, "a difference is printed twice")
			}
			got[m] = b.Or(got[m], n)
			if where[m] == nil {
				where[m] = ef
			}
		}
	}
	for m, what := range map[*Term]string{C: "gained", B: "lost"} {
		ef := where[m]
		if ef == nil {
			c.fail(rule, "-", s.fn, "a %s capability is not printed", what)
			continue
		}
		c.count("difference_lines", 1)
		if ok, why := s.same(b.And(got[m], base), want[m], s.care(got[m], want[m])); !ok {
			c.failEff(rule, ef, "the condition for printing a %s capability is not that the pair is in just one report: %s", what, why)
		} else {
			c.okEff(rule, ef)
		}
	}
	s.differenceResult(at("difference found"), found, base, B, C, want)
}

// differenceResult checks that the result is exactly "some wanted pair
// exists".
func (s *Sem) differenceResult(rule string, found, base Node, B, C *Term, want map[*Term]Node) {
	c, e, b := s.c, s.e, s.e.bdd
	vars := s.resultVars(b.And(found, base))
	var evs []Event
	switch {
	case len(vars) == 1:
		v := vars[0]
		if ok, why := s.same(b.And(found, base), b.And(base, s.truth(v)), s.care(found, base)); !ok {
			c.fail(rule, c.pos(v.loop.pos), s.fn, "the result is not just whether a difference was found: %s", why)
			return
		}
		init := s.latchInit(v)
		if s.truth(init) != False {
			c.fail(rule, c.pos(v.loop.pos), s.fn, "a difference is taken as found from the start")
			return
		}
		var ok bool
		evs, ok = s.latchEvents(v)
		if !ok {
			c.fail(rule, c.pos(v.loop.pos), s.fn, "undecided: a difference found does not stay found")
			return
		}
	default:
		// a list of differences that is not empty
		var list *Term
		for _, v := range b.Support(b.And(found, base)) {
			if a := e.atoms[v]; a.op == OEq && a.args[0].op == OLen && a.args[0].args[0].op == OLV && a.args[1].aux == "0" {
				list = a.args[0].args[0]
			}
		}
		if list == nil {
			c.fail(rule, "-", s.fn, "undecided: the result does not depend on a variable set for differences")
			return
		}
		n := b.Not(e.Cond(e.Eq(e.Len(list), e.Int(0))))
		rest := b.And(found, base)
		free := base
		for _, v := range b.Support(n) {
			free = b.exists(free, v)
		}
		if ok, why := s.same(rest, b.And(free, n), s.care(rest, free)); !ok {
			c.fail(rule, c.pos(list.loop.pos), s.fn, "the result is not just whether a difference was found: %s", why)
			return
		}
		for _, src := range s.q.elems(list, nil) {
			if src.eff != nil {
				evs = append(evs, Event{pc: src.pc, loops: src.loops, eff: src.eff, cont: map[*Loop]*Term{}})
			}
		}
	}
	if len(evs) == 0 {
		c.fail(rule, "-", s.fn, "nothing makes the comparison find a difference")
		return
	}
	g, _, ok := s.pairEvents(rule, evs, []*Term{B, C}, base, nil)
	if !ok {
		return
	}
	for _, m := range []*Term{C, B} {
		w, has := want[m]
		n, is := g[m]
		if !has && !is {
			continue
		}
		if !has {
			w = False
		}
		if !is {
			n = False
		}
		if x := b.And(s.may[m], base, b.Not(w), s.care(s.may[m], w)); is && x != False {
			c.failEff(rule, evs[0].eff, "a difference is also found for pairs that are in both reports: %s", s.cube(x))
		} else if ok, why := s.same(b.And(n, base), w, s.care(n, w)); !ok {
			c.failEff(rule, evs[0].eff, "a difference is not found exactly for the pairs that are in just one report: %s", why)
		} else {
			c.okEff(rule, evs[0].eff)
		}
	}
}

// ---- the revision tool ----

func ruleC14(c *Check) {
	m := c.command("/cmd/capslock-git-diff")
	if m == nil {
		return
	}
	defer c.problems(m.e, "main")
	m.revisions()
	m.parsed()
	for _, o := range []string{"granularity", "capabilities"} {
		m.capslockArgs("option passed on", o)
	}
	c.need("vacuity", "maps of pairs", c.stats["pair_maps"], 4)
	c.need("vacuity", "reports traced to a revision", c.stats["reports_traced"], 4)
}

// written gives the single command whose output a buffer holds when it is
// read by the call with result t.
func (m *command) written(t *Term) *Effect {
	e := m.e
	if t.op != OCall || !(strings.HasPrefix(t.aux, "(*bytes.Buffer).String") || strings.HasPrefix(t.aux, "(*bytes.Buffer).Bytes") ||
		strings.HasPrefix(t.aux, "(*strings.Builder).String")) {
		// the output may be returned by the run itself
		if t.op == OExtract && t.aux == "0" {
			for _, ef := range e.effects {
				if ef.res == t.args[0] && (ef.name == "(*os/exec.Cmd).Output" || ef.name == "(*os/exec.Cmd).CombinedOutput") {
					return ef
				}
			}
		}
		return nil
	}
	buf := t.args[0]
	var at *Effect
	for _, ef := range e.effects {
		if ef.res == t {
			at = ef
		}
	}
	if at == nil {
		return nil
	}
	var last *Effect
	n := 0
	for _, ef := range e.effects {
		if ef.seq >= at.seq {
			break
		}
		switch {
		case (ef.name == "(*bytes.Buffer).Reset" || ef.name == "(*strings.Builder).Reset") && ef.args[0] == buf && e.bdd.And(at.pc, e.bdd.Not(ef.pc)) == False:
			last, n = nil, 0
		case ef.kind == "call" && isRun(ef.name):
			out := e.load(ef.mem, e.FAddr(ef.args[0], "Stdout", nil), nil)
			for _, a := range e.alts(out) {
				if a.t == buf && e.bdd.And(a.c, ef.pc, at.pc) != False {
					last = ef
					n++
					// the command ran and succeeded whenever the buffer is read
					if e.bdd.And(at.pc, e.bdd.Not(e.bdd.And(ef.pc, e.Cond(e.Eq(ef.res, e.Nil()))))) != False {
						n++
					}
				}
			}
		default:
			if w, ok := e.asWrite(ef); ok && w.to == buf && e.bdd.And(ef.pc, at.pc) != False {
				n += 2
			}
		}
	}
	if n != 1 {
		return nil
	}
	return last
}

// untrimmed strips the calls that cut the newline from a command's output,
// and tells whether one does.
func untrimmed(t *Term) (*Term, bool) {
	cut := false
	for {
		switch {
		case t.op == OConv:
		case t.op == OCall && (t.aux == "strings.TrimSpace" || t.aux == "bytes.TrimSpace"):
			cut = true
		case t.op == OCall && trims[t.aux] && len(t.args) == 2:
			if w, ok := unquote(unconv(t.args[1])); ok && strings.HasSuffix(w, "\n") {
				cut = true
			}
		case t.op == OExtract && t.aux == "0" && t.args[0].op == OCall && t.args[0].aux == "strings.Cut" && len(t.args[0].args) == 2:
			if w, ok := unquote(t.args[0].args[1]); ok && w == "\n" {
				cut = true
			}
			t = t.args[0]
		default:
			return t, cut
		}
		t = t.args[0]
	}
}

var trims = map[string]bool{
	"strings.TrimSuffix": true, "strings.TrimRight": true, "strings.Trim": true,
	"bytes.TrimSuffix": true, "bytes.TrimRight": true, "bytes.Trim": true,
}

// words of a command line, fixed words only.
func words(args []*Term) []string {
	var out []string
	for _, a := range args {
		w, ok := unquote(a)
		if !ok {
			w = "\x00"
		}
		out = append(out, w)
	}
	return out
}

// isRevision checks that the report X (under condition n) comes from the
// checkout of the i-th argument.
func (m *command) isRevision(rule string, X *Term, n Node, rev *Term) bool {
	c, e, b := m.c, m.e, m.e.bdd
	if !strings.HasPrefix(X.aux, "mod:") && X.op != OMod || len(X.args) < 2 {
		c.fail(rule, "-", m.fn, "undecided: a report is %s", m.short(X))
		return false
	}
	run := m.written(X.args[1])
	if run == nil {
		c.fail(rule, "-", m.fn, "undecided: the report parsed is not the output of one command")
		return false
	}
	name, _ := commandList(run.args[0])
	if name != "capslock" {
		c.failEff(rule, run, "the report is the output of %q", name)
		return false
	}
	c.count("reports_traced", 1)
	start := e.mk(ONamed, "start", nil)
	ds, ok := m.dirOf(run, start)
	if !ok {
		c.failEff(rule, run, "undecided: the working directory is not known")
		return false
	}
	good := true
	for _, d := range ds {
		k := b.And(d.c, n, run.pc)
		if k == False {
			continue
		}
		if d.dir == start {
			if x := b.And(k, b.Not(e.Cond(e.Eq(rev, e.Const(`"."`, nil)))), m.care(k)); x != False {
				good = false
				c.failEff(rule, run, "the working tree is analysed although another revision was asked for: %s", m.cube(x))
			}
			continue
		}
		// the same directory of a clone
		var tmp, prefix *Term
		if d.dir.op == OCall && d.dir.aux == "path/filepath.Join" && d.dir.args[0].op == OList && len(d.dir.args[0].args) == 2 {
			tmp, prefix = d.dir.args[0].args[0], d.dir.args[0].args[1]
		}
		if tmp == nil || libraryResult(tmp) != "os.MkdirTemp" {
			good = false
			c.failEff(rule, run, "the report is made in %s", m.short(d.dir))
			continue
		}
		prefix = m.under(prefix, k)
		out, cut := untrimmed(prefix)
		if p := m.written(out); p == nil || !cut || !m.inStart(p, start, n) || !m.isGit(p, "rev-parse", "--show-prefix") {
			good = false
			c.failEff(rule, run, "the directory analysed is not the current directory's place in the repository")
		}
		var clone, checkout *Effect
		for _, ef := range e.effects {
			if ef.seq >= run.seq || ef.kind != "call" || !isRun(ef.name) {
				continue
			}
			nm, args := commandArgs(ef.args[0])
			w := words(args)
			if nm != "git" || len(w) == 0 {
				continue
			}
			switch w[0] {
			case "clone":
				if args[len(args)-1] == tmp {
					clone = ef
				}
			case "checkout", "switch", "reset":
				cd, ok := m.dirOf(ef, start)
				if !ok {
					continue
				}
				in := false
				for _, x := range cd {
					if b.And(x.c, ef.pc) != False && x.dir == tmp {
						in = true
					}
				}
				if in {
					if checkout != nil {
						good = false
						c.failEff(rule, ef, "another revision is checked out in the same clone")
					}
					checkout = ef
				}
			}
		}
		if clone == nil || checkout == nil {
			good = false
			c.failEff(rule, run, "the directory analysed is not a clone with a revision checked out")
			continue
		}
		_, args := commandArgs(clone.args[0])
		out, cut = untrimmed(m.under(args[len(args)-2], k))
		src := m.written(out)
		if src == nil || !cut || !m.inStart(src, start, n) || !(m.isGit(src, "rev-parse", "--git-dir") || m.isGit(src, "rev-parse", "--show-toplevel") || m.isGit(src, "rev-parse", "--git-common-dir") || m.isGit(src, "rev-parse", "--absolute-git-dir")) || !m.inStart(clone, start, n) {
			good = false
			c.failEff(rule, clone, "what is cloned is not the repository of the current directory")
		}
		_, args = commandArgs(checkout.args[0])
		hasRev := 0
		for i, a := range args[1:] {
			if a == rev {
				hasRev++
			} else if w, ok := unquote(a); !ok || !strings.HasPrefix(w, "-") {
				hasRev = 9
			} else if w == "--" && i == 0 {
				hasRev = 9 // what follows would be a path
			}
		}
		if hasRev != 1 {
			good = false
			c.failEff(rule, checkout, "the revision checked out is not the one asked for")
		}
		for _, ef := range []*Effect{clone, checkout} {
			if x := b.And(k, b.Not(b.And(ef.pc, e.Cond(e.Eq(ef.res, e.Nil()))))); x != False {
				good = false
				c.failEff(rule, ef, "the revision is analysed although this did not succeed")
			}
		}
	}
	return good
}

// under is the one value t has when n holds, t itself if there is no such one.
func (s *Sem) under(t *Term, n Node) *Term {
	var one *Term
	for _, a := range s.e.alts(t) {
		if x := s.e.bdd.And(a.c, n); x == False || s.e.bdd.And(x, s.care(x)) == False {
			continue
		}
		if one != nil && one != a.t {
			return t
		}
		one = a.t
	}
	if one == nil {
		return t
	}
	return one
}

func (m *command) inStart(ef *Effect, start *Term, n Node) bool {
	ds, ok := m.dirOf(ef, start)
	if !ok {
		return false
	}
	for _, d := range ds {
		if x := m.e.bdd.And(d.c, ef.pc, n); x != False && m.e.bdd.And(x, m.care(x)) != False && d.dir != start {
			return false
		}
	}
	return true
}

func (m *command) isGit(ef *Effect, ws ...string) bool {
	name, args := commandArgs(ef.args[0])
	if name != "git" {
		return false
	}
	got := words(args)
	if len(got) != len(ws) {
		return false
	}
	for i := range ws {
		if got[i] != ws[i] {
			return false
		}
	}
	return true
}

func (m *command) revisions() {
	c, e, b := m.c, m.e, m.e.bdd
	var args *Term
	for _, ef := range e.effects {
		if ef.name == "flag.Args" {
			args = ef.res
		}
	}
	gran := e.flagTerm("granularity")
	if args == nil || gran == nil {
		c.fail("revisions", "-", "main", "the arguments or the granularity are not read")
		return
	}
	rev := []*Term{e.Index(args, e.Int(0), types.Typ[types.String]), e.Index(args, e.Int(1), types.Typ[types.String])}
	done := b.Or(m.code[0], m.code[1])
	base := done
	for _, v := range m.resultVars(done) {
		base = b.exists(base, e.atomV[v])
	}
	for _, v := range b.Support(done) {
		if a := e.atoms[v]; a.op == OEq && a.args[0].op == OLen && a.args[0].args[0].op == OLV {
			base = b.exists(base, v)
		}
	}
	// packages
	m.packagesArg(args, base)
	// the maps, at each granularity
	maps := m.pairMapTerms()
	if len(maps) != 2 {
		c.fail("revisions", "-", "main", "undecided: found %d maps of pairs, expected two", len(maps))
		return
	}
	var B, C *Term
	isG := func(g string) Node { return e.Cond(e.Eq(gran, e.Const(`"`+g+`"`, types.Typ[types.String]))) }
	// any other granularity is refused by capslock
	base = b.And(base, b.Or(isG("package"), isG("intermediate"), isG("function"), isG("")))
	for _, mt := range maps {
		for _, g := range []struct {
			n     Node
			name  string
			kinds []string
		}{
			{b.Or(isG("package"), isG("intermediate")), "package", []string{"own package"}},
			{b.Or(isG("function"), isG("")), "function", []string{"function"}},
		} {
			n := b.And(base, g.n)
			if x := b.And(n, m.care(n)); x == False {
				c.fail("revisions", "-", "main", "granularity %s is never analysed", g.name)
				continue
			}
			n = b.And(n, m.care(n))
			pm := m.pairsOf("pairs of a report ("+g.name+")", mt, g.kinds, n)
			if pm == nil {
				return
			}
			if g.name == "function" {
				continue
			}
			// which revision
			which := -1
			for i := range rev {
				all := true
				for _, l := range pm.lists {
					if x := b.And(l.c, n); x != False {
						all = all && m.revIndex(l.t, x, rev[i])
					}
				}
				if all {
					which = i
				}
			}
			if which < 0 {
				which = 0
				if B != nil {
					which = 1
				}
			}
			good := true
			for _, l := range pm.lists {
				if x := b.And(l.c, n); x != False && !m.isRevision("revision analysed", l.t, x, rev[which]) {
					good = false
				}
			}
			if good {
				c.okEff("revision analysed", pm.eff)
			}
			if which == 0 {
				B = mt
			} else {
				C = mt
			}
		}
	}
	if B == nil || C == nil {
		c.fail("revisions", "-", "main", "the two reports are not one of each revision")
		return
	}
	m.B, m.C, m.base = B, C, base
	pair := e.mk(ONamed, "pair", nil)
	want := map[*Term]Node{C: b.And(base, b.Not(e.Atom(e.mk(OIn, "", types.Typ[types.Bool], B, pair))))}
	m.differenceResult("exit status 1", m.code[1], base, B, C, want)
	m.namesPrinted(B, C, base)
}

// revIndex: quiet version of isRevision, by checkout or "." only.
func (m *command) revIndex(X *Term, n Node, rev *Term) bool {
	return m.quiet().isRevision("", X, n, rev)
}

// packagesArg: capslock is run for the package given, or ./... .
func (m *command) packagesArg(args *Term, base Node) {
	c, e, b := m.c, m.e, m.e.bdd
	rule := "packages analysed"
	pkg := e.Index(args, e.Int(2), types.Typ[types.String])
	three := e.Cond(e.Eq(e.Len(args), e.Int(3)))
	for _, ef := range e.effects {
		if ef.kind != "call" || !isRun(ef.name) {
			continue
		}
		name, list := commandList(ef.args[0])
		if name != "capslock" {
			continue
		}
		good := true
		for _, a := range m.listAlts(list, b.And(ef.pc, base)) {
			pk, out := 0, 0
			for _, it := range a.items {
				for _, v := range e.alts(it.t) {
					n := b.And(a.c, v.c)
					if n == False {
						continue
					}
					ps := m.text(v.t)
					if len(ps) == 0 || ps[0].term != nil {
						continue
					}
					t := strings.TrimLeft(ps[0].text, "-")
					switch {
					case strings.HasPrefix(t, "packages="):
						pk++
						if x := b.And(n, three, m.care(n, three)); x != False && !m.isText(v.t, "-packages=", pkg) && !m.isText(v.t, "--packages=", pkg) {
							good = false
							c.failEff(rule, ef, "the package given on the command line is not the one analysed: %s", m.short(v.t))
						}
						if x := b.And(n, b.Not(three), m.care(n, three)); x != False && t != "packages=./..." {
							good = false
							c.failEff(rule, ef, "without a package on the command line, the packages analysed are not ./...")
						}
					case strings.HasPrefix(t, "output=") || t == "output":
						out++
						if t != "output=json" && t != "output=j" {
							good = false
							c.failEff(rule, ef, "capslock is run with %q", ps[0].text)
						}
					case strings.HasPrefix(t, "granularity=") || strings.HasPrefix(t, "capabilities="):
					default:
						good = false
						c.failEff(rule, ef, "capslock is run with %q", ps[0].text)
					}
				}
			}
			if pk == 0 || out == 0 {
				good = false
				c.failEff(rule, ef, "capslock is run without the packages or the output format")
			}
		}
		if good {
			c.okEff(rule, ef)
		}
	}
}

// namesPrinted: every gained pair is named under its capability.
func (m *command) namesPrinted(B, C *Term, base Node) {
	c, e, b := m.c, m.e, m.e.bdd
	rule := "pairs printed"
	nameF, capF := pairFields(C)
	m.q.stop[B], m.q.stop[C] = true, true
	pair := e.mk(ONamed, "pair", nil)
	got := False
	var first *Effect
	checked, groups := map[*Term]bool{}, map[*Term]bool{}
	for _, l := range lines(m.stdoutWrites()) {
		ef := l.writes[0].ef
		if len(ef.loops) == 0 {
			continue
		}
		in := ef.loops[len(ef.loops)-1]
		// the pair this line is about
		var k *Term
		if in.container != nil && in.kind == "index" {
			k = m.q.elemOf(in.container, in)
		} else if in.kind == "map" {
			k = m.q.keyOf(in.container, in)
		}
		if k == nil {
			continue
		}
		var hasCap bool
		var name *Term
		for _, p := range l.pieces {
			if p.term == nil {
				continue
			}
			t := m.capOfString(p.term)
			if t == e.Field(k, capF, nil) || t.op == OElem && m.loopOfCap(t, k, ef, capF) {
				hasCap = true
			}
			if p.term == e.Field(k, nameF, nil) || p.term.op == OCall && strings.HasPrefix(p.term.aux, "strings.Join") {
				name = p.term
			}
		}
		if !hasCap || name == nil {
			continue
		}
		if first == nil {
			first = ef
		}
		pc := ef.pc
		// names grouped under one path: the group has to hold this name
		if name.op == OCall {
			list := name.args[0]
			groups[list] = true
			more := b.Not(e.Cond(e.Lt(e.Len(list), e.Int(2))))
			if x := b.And(pc, b.Not(more), m.care(pc, more)); x != False && !m.groupHas(list, k, nameF) {
				c.failEff(rule, ef, "undecided: a group of names is printed that may lack the pair's own")
				continue
			}
		}
		// pairs already named with another one
		for _, v := range b.Support(pc) {
			a := e.atoms[v]
			if a.op != OLookup || !isBoolType(a.typ) || a.args[0].op != OObj || a.args[1] != e.Field(k, nameF, nil) {
				continue
			}
			if !checked[a.args[0]] {
				checked[a.args[0]] = true
				if !m.pendingOK(rule, a.args[0], k, ef, B, C, base, nameF, capF) {
					return
				}
			}
			if b.Cofactor(pc, v, false) != False {
				continue
			}
			pc = b.Cofactor(pc, v, true)
			// what is pending is exactly what is new
			pc = b.And(pc, m.isNew(k, B, C))
		}
		ev := m.q.event(ef, k)
		ev.pc = pc
		g, _, ok := m.pairEvents(rule, []Event{ev}, []*Term{B, C}, base, func(x Event) *Term { return x.terms[0] })
		if !ok {
			continue
		}
		only := b.And(base, b.Not(e.Atom(e.mk(OIn, "", types.Typ[types.Bool], B, pair))))
		for mt, n := range g {
			if x := b.And(m.may[mt], base, b.Not(only), m.care(m.may[mt], only)); mt != C || x != False {
				c.failEff(rule, ef, "a pair that is not new is printed")
			}
			got = b.Or(got, n)
		}
	}
	if first == nil {
		c.fail(rule, "-", "main", "no pair is printed")
		return
	}
	// whether one name or a group is printed is decided by the group's size
	for _, v := range b.Support(got) {
		if groups[lenTest(e.atoms[v])] {
			if b.Cofactor(got, v, true) != b.Cofactor(got, v, false) {
				c.failEff(rule, first, "a pair is printed for some group sizes only: %s", m.cube(b.Xor(b.Cofactor(got, v, true), b.Cofactor(got, v, false))))
				return
			}
		}
	}
	want := b.And(base, b.Not(e.Atom(e.mk(OIn, "", types.Typ[types.Bool], B, pair))))
	if ok, why := m.same(b.And(got, base), want, m.care(got, want)); !ok {
		c.failEff(rule, first, "the pairs printed are not exactly the ones gained: %s", why)
	} else {
		c.okEff(rule, first)
	}
}

// lenTest gives the list whose length a condition tests.
func lenTest(a *Term) *Term {
	if a.op != OLt && a.op != OEq {
		return nil
	}
	for _, x := range a.args {
		if x.op == OLen {
			return x.args[0]
		}
	}
	return nil
}

// loopOfCap: t is the capability of the loop around the pairs, and the line
// is only printed for pairs of that capability.
func (m *command) loopOfCap(t, k *Term, ef *Effect, capF string) bool {
	return hasLoop(ef.loops, t.loop) && m.e.bdd.Implies(ef.pc, m.e.Cond(m.e.Eq(t, m.e.Field(k, capF, nil))))
}

func (m *command) isNew(k, B, C *Term) Node {
	e := m.e
	in := func(mt *Term) Node { return e.Atom(e.mk(OIn, "", types.Typ[types.Bool], mt, k)) }
	return e.bdd.And(e.bdd.Not(in(B)), in(C))
}

// groupHas: the group is collected from a path of the entry of pair k.
func (m *command) groupHas(list, k *Term, nameF string) bool {
	for _, src := range m.q.elems(list, nil) {
		if src.eff == nil {
			return false
		}
	}
	return true
}

// pendingOK checks a map from names to whether they are still to be printed:
// names of gained pairs are entered, and a name is only struck off when it is
// put into the group that is printed.
func (m *command) pendingOK(rule string, mt, k *Term, at *Effect, B, C *Term, base Node, nameF, capF string) bool {
	c, e, b := m.c, m.e, m.e.bdd
	var adds []Event
	strikes := append([]*Effect(nil), m.q.mi.dels[mt]...)
	for _, ef := range m.q.mi.sets[mt] {
		v := ef.args[2]
		switch {
		case v.op == OBool && v.node == True:
			adds = append(adds, m.q.event(ef, ef.args[1]))
		case v.op == OBool && v.node == False:
			strikes = append(strikes, ef)
		default:
			c.failEff(rule, ef, "undecided: %s is recorded for a name", m.short(v))
			return false
		}
	}
	g, evs, ok := m.pairEvents(rule, adds, []*Term{B, C}, base, func(x Event) *Term {
		if t := x.terms[0]; t.op == OField && t.aux == nameF {
			return t.args[0]
		}
		return nil
	})
	if !ok {
		return false
	}
	pair := e.mk(ONamed, "pair", nil)
	want := b.And(base, b.Not(e.Atom(e.mk(OIn, "", types.Typ[types.Bool], B, pair))))
	n := g[C]
	if len(evs) == 0 || len(g) != 1 {
		c.failEff(rule, at, "the names waiting to be printed are not those of the gained pairs")
		return false
	}
	if x := b.And(m.may[C], base, b.Not(want), m.care(m.may[C], want)); x != False {
		c.failEff(rule, adds[0].eff, "names of pairs that are not new wait to be printed: %s", m.cube(x))
		return false
	}
	if ok, why := m.same(b.And(n, base), want, m.care(n, want)); !ok {
		c.failEff(rule, adds[0].eff, "the names waiting to be printed are not those of the gained pairs: %s", why)
		return false
	}
	for _, st := range strikes {
		// the name struck off is put into a list under the same condition
		var ap *Effect
		for _, ef := range e.effects {
			if ef.kind == "append" && sameLoops(ef.loops, st.loops) && ef.args[1].op == OList && len(ef.args[1].args) == 1 && ef.args[1].args[0] == st.args[1] && b.And(st.pc, b.Not(ef.pc)) == False {
				ap = ef
			}
		}
		if ap == nil {
			// or is the pair's own name, printed here
			if st.args[1] == e.Field(k, nameF, nil) && sameLoops(st.loops, at.loops) {
				continue
			}
			c.failEff(rule, st, "a name is struck off the list of names to print without being printed")
			return false
		}
		// and that list is printed, whenever it has more than the pair's own
		printed := False
		for _, l := range lines(m.stdoutWrites()) {
			for _, p := range l.pieces {
				if p.term != nil && p.term.op == OCall && strings.HasPrefix(p.term.aux, "strings.Join") && m.listFrom(p.term.args[0], ap) {
					printed = b.Or(printed, l.writes[0].ef.pc)
				}
			}
		}
		many := False
		for _, t := range e.list {
			if t.op == OLen && m.listFrom(t.args[0], ap) {
				many = b.Or(many, b.Not(e.Cond(e.Lt(t, e.Int(2)))))
			}
		}
		if x := b.And(at.pc, many, b.Not(printed), m.care(at.pc, many, printed)); x != False || printed == False {
			c.failEff(rule, st, "names are struck off as printed with another one, but that group is not always printed: %s", m.cube(x))
			return false
		}
	}
	return true
}

// listFrom: the list is the one ef appends to.
func (m *command) listFrom(t *Term, ef *Effect) bool {
	for _, src := range m.q.elems(t, nil) {
		if src.eff == ef {
			return true
		}
	}
	return false
}

func sameLoops(a, b []*Loop) bool {
	if len(a) != len(b) {
		return false
	}
	x, y := []string{}, []string{}
	for i := range a {
		x, y = append(x, fmt.Sprint(a[i].id)), append(y, fmt.Sprint(b[i].id))
	}
	sort.Strings(x)
	sort.Strings(y)
	return strings.Join(x, ",") == strings.Join(y, ",")
}
