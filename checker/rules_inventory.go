package main

import (
	"go/types"
	"strings"
)

func init() {
	register("C26", "In each report-producing entry point the module and package lists of the result are traced back to the walk over "+
		"packages that fills them; the condition for an entry, the values of its fields, what keeps it from being listed twice and the "+
		"comparison it is sorted by are compared with the property.", ruleC26)
}

// reports evaluates every entry point that returns a report, with the fields
// of the result that list the inventory.
func (c *Check) reports(do func(s *Sem, f *Frame, info bool)) int {
	n := 0
	run := func(s *Sem, f *Frame, info bool) {
		if s != nil {
			n++
			do(s, f, info)
		}
	}
	for _, name := range []string{"GetCapabilityCounts", "GetCapabilityStats"} {
		s, f := c.sem("/analyzer", name)
		run(s, f, false)
	}
	for _, g := range []string{"GranularityFunction", "GranularityPackage", "GranularityIntermediate", "GranularityUnset"} {
		s, f := c.semWith("/analyzer", "GetCapabilityInfo", given{"Granularity": c.constVal(anaPkg, g), "CapabilitySet": "nil"})
		run(s, f, true)
	}
	return n
}

func ruleC26(c *Check) {
	n := c.reports(func(s *Sem, f *Frame, info bool) {
		s.closures()
		s.moduleList(f)
		if info {
			s.packageList(f)
		}
		c.problems(s.e, s.name)
	})
	c.need("vacuity", "entry points that return a report", n, 6)
	c.need("vacuity", "module lists", c.stats["module_lists"], 6)
	c.need("vacuity", "package lists", c.stats["package_lists"], 4)
}

// inventory lists the entries of a list of the result, with some fields.
func (s *Sem) inventory(f *Frame, rule, list string, fields ...string) []Event {
	var out []Event
	for _, ev := range s.listed(f, list) {
		if ev.eff == nil {
			s.c.fail(rule, "-", s.fn, "%s holds %s", list, s.short(ev.terms[0]))
			continue
		}
		for _, fl := range fields {
			ev.terms = append(ev.terms, s.fieldAt(ev.terms[0], fl, ev.eff))
		}
		for _, x := range s.q.expand(ev) {
			put := x.eff
			if len(x.trail) > 0 {
				put = x.trail[len(x.trail)-1]
			}
			for i := range x.terms {
				x.terms[i] = s.pointed(s.norm(x.terms[i], put))
			}
			x.eff = put
			out = append(out, x)
		}
	}
	return out
}

// pointed is the value an optional field points to.
func (s *Sem) pointed(t *Term) *Term {
	if t.op == OFAddr && t.args[0].op != OObj {
		return s.e.Field(t.args[0], t.aux, elemType(t.typ))
	}
	return t
}

// listings checks how entries of an inventory get into it: one for each
// package of the walk for which want holds, at most one per key.
func (s *Sem) listings(rule, what string, evs []Event, perPackage bool, key func(p *Term) *Term, want func(p *Term) Node, check func(x Event, p *Term) bool) {
	c, e := s.c, s.e
	b := e.bdd
	if len(evs) == 0 {
		c.fail(rule, "-", s.fn, "no %s is ever listed", what)
		return
	}
	got, care := False, True
	var wanted Node
	var walk *closure
	for _, x := range evs {
		cl, rest := s.walkOf(x.loops)
		if cl == nil {
			c.failEff(rule, x.eff, "the %ss listed are not collected from the packages and their imports", what)
			return
		}
		if walk != nil && walk != cl {
			c.failEff(rule, x.eff, "the %ss listed are collected in two walks over the packages", what)
			return
		}
		if walk == nil && !cl.check("every package is visited once", s.pkgsParam()) {
			return
		}
		walk = cl
		if len(rest) > 0 {
			c.failEff(rule, x.eff, "a %s is listed inside an unexpected loop at %s", what, c.pos(rest[0].pos))
			return
		}
		for _, why := range s.exitsOf(x) {
			c.failEff(rule, x.eff, "a %s can be missed: %s", what, shorten.Replace(why))
			return
		}
		if x.cut {
			c.failEff(rule, x.eff, "only a part of the %ss is listed", what)
			return
		}
		p := cl.pkg
		if !check(x, p) {
			return
		}
		n, ok := cl.within(x.pc)
		if !ok {
			c.failEff(rule, x.eff, "a %s is listed again for a package met before", what)
			return
		}
		once := perPackage
		for _, l := range x.via {
			// the list is made from a map with one entry per key
			m := l.container
			if m != nil && m.keys() != nil {
				m = m.keys()
			}
			if m != nil && m.op == OObj && len(s.q.mi.sets[m]) > 0 {
				all := true
				for _, ef := range s.q.mi.sets[m] {
					all = all && s.norm(ef.args[1], ef) == key(p)
				}
				once = once || all
			}
		}
		for _, v := range b.Support(n) {
			m, k, ok := s.q.member(e.atoms[v])
			if !ok || m.op != OObj {
				continue
			}
			if s.norm(k, nil) != key(p) || !s.keptFor(m, cl) || s.stdLoad(m) != nil {
				continue
			}
			// a set of the keys met before: entered whenever this is listed
			var set Node = False
			for _, ef := range s.q.mi.sets[m] {
				if s.norm(ef.args[1], ef) == key(p) {
					k, _ := cl.within(ef.pc)
					set = b.Or(set, b.Cofactor(k, v, false))
				}
			}
			if b.And(b.Cofactor(n, v, false), b.Not(set), s.care(n, set)) != False {
				c.failEff(rule, x.eff, "the %s listed is not remembered, so it can be listed again", what)
			}
			if b.And(set, b.Not(b.Cofactor(n, v, false)), s.care(n, set), s.total) != False {
				c.failEff(rule, x.eff, "a %s is taken for listed although it was left out", what)
			}
			if b.Cofactor(n, v, true) != False && !once {
				c.failEff(rule, x.eff, "a %s met before is listed again", what)
			}
			n = b.Cofactor(n, v, false)
			once = true
		}
		if !once {
			c.failEff(rule, x.eff, "the same %s can be listed more than once", what)
		}
		got = b.Or(got, n)
		wanted = want(p)
		care = b.And(care, s.loopCare(n, x.loops, x.cont))
	}
	if same, why := s.same(got, wanted, b.And(care, walk.baseCare())); !same {
		c.failEff(rule, evs[0].eff, "which %ss are listed differs from the property: %s", what, why)
		return
	}
	c.okEff(rule, evs[0].eff)
}

// baseCare: the walk is made.
func (cl *closure) baseCare() Node { return cl.s.normN(cl.base, nil) }

// keptFor: the set m is made before the walk and nothing is removed from it.
func (s *Sem) keptFor(m *Term, cl *closure) bool {
	oi, ok := m.obj.(*ObjInfo)
	if !ok || len(s.q.mi.dels[m]) > 0 {
		return false
	}
	for _, l := range oi.loops {
		if hasLoop(cl.loops, l) {
			return false
		}
	}
	return true
}

// inOrder checks that a list of the result is sorted by a field.
func (s *Sem) inOrder(f *Frame, rule, list, field string) {
	c, e := s.c, s.e
	for _, a := range s.result(f, list) {
		if e.isNil(a.t) {
			continue
		}
		so := s.sorted(a.t, nil, s.total)
		if so == nil {
			c.fail(rule, "-", s.fn, "%s is not sorted", list)
			continue
		}
		where := "-"
		if so.ef != nil {
			where = c.pos(posOf(so.ef))
		}
		// the key of an element of the sorted list
		if so.put != nil {
			// the list sorted holds the keys the entries are made for
			ev := s.q.event(so.put, s.fieldAt(appended(so.put), field, so.put), so.elem)
			for _, x := range s.q.expand(ev) {
				if k, el := s.pointed(s.norm(x.terms[0], nil)), s.norm(x.terms[1], nil); k != el {
					c.failEff(rule, so.put, "%s is made in the order of %s, not of %s", list, s.short(el), s.short(k))
					return
				}
			}
		}
		if so.ef != nil {
			cp := s.comparing(so.ef)
			if cp == nil {
				c.fail(rule, where, s.fn, "undecided: how %s is sorted", list)
				return
			}
			ok, why := cp.by(func(x *Term) *Term {
				if so.put != nil {
					return x
				}
				return e.Field(x, field, nil)
			})
			if !ok {
				c.fail(rule, where, s.fn, "%s is not sorted by %s: %s", list, strings.ToLower(field), why)
				return
			}
		}
		c.ok(rule, where+" "+s.fn+" "+list)
	}
}

// appended is the one element an effect adds to a list.
func appended(ef *Effect) *Term {
	t := ef.args[1]
	if t.op == OList && len(t.args) == 1 {
		return t.args[0]
	}
	return t
}

func (s *Sem) moduleList(f *Frame) {
	e := s.e
	rule := "modules listed"
	mod := func(p *Term) *Term { return e.Field(p, "Module", nil) }
	fld := func(p *Term, n string) *Term { return e.Field(mod(p), n, types.Typ[types.String]) }
	empty := func(t *Term) Node { return e.Cond(e.Eq(t, e.Str(""))) }
	evs := s.inventory(f, rule, "ModuleInfo", "Path", "Version")
	s.listings(rule, "module", evs, false,
		func(p *Term) *Term { return fld(p, "Path") },
		func(p *Term) Node {
			b := e.bdd
			return b.And(b.Not(e.Cond(e.Eq(mod(p), e.Nil()))), b.Not(empty(fld(p, "Path"))), b.Not(empty(fld(p, "Version"))))
		},
		func(x Event, p *Term) bool {
			good := true
			for i, n := range []string{"Path", "Version"} {
				if x.terms[i+1] != fld(p, n) {
					s.c.failEff(rule, x.eff, "the %s given for a module is %s", strings.ToLower(n), s.short(x.terms[i+1]))
					good = false
				}
			}
			return good
		})
	s.inOrder(f, "modules in order", "ModuleInfo", "Path")
	s.c.count("module_lists", 1)
}

func (s *Sem) packageList(f *Frame) {
	e, c := s.e, s.c
	b := e.bdd
	rule := "packages listed"
	path := func(p *Term) *Term { return e.Field(p, "PkgPath", types.Typ[types.String]) }
	evs := s.inventory(f, rule, "PackageInfo", "Path", "IgnoredFiles")
	s.listings(rule, "package", evs, true, path,
		func(p *Term) Node {
			std := s.standardList(rule, p, evs)
			return b.Not(std)
		},
		func(x Event, p *Term) bool {
			if x.terms[1] != path(p) {
				c.failEff(rule, x.eff, "the path given for a package is %s", s.short(x.terms[1]))
				return false
			}
			return s.ignoredFiles(x, p)
		})
	s.inOrder(f, "packages in order", "PackageInfo", "Path")
	c.count("package_lists", 1)
}

const loadCall = "golang.org/x/tools/go/packages.Load"

// standardList is the test that p is in the list of standard packages that
// the program loads.
func (s *Sem) standardList(rule string, p *Term, evs []Event) Node {
	e, c := s.e, s.c
	path := e.Field(p, "PkgPath", types.Typ[types.String])
	for _, x := range evs {
		for _, v := range e.bdd.Support(s.normN(x.pc, nil)) {
			m, k, ok := s.q.member(e.atoms[v])
			if !ok || m.op != OObj || k != path {
				continue
			}
			load := s.stdLoad(m)
			if load == nil {
				continue
			}
			if e.isNil(load.args[0]) {
				c.failKey("std-packages-host", "standard packages of the target", c.pos(posOf(load)), load.frame.fn.Name(), "the standard packages to leave out are listed for the host platform, not for the one analysed")
			}
			return e.bdd.Var(v)
		}
	}
	c.failEff(rule, evs[0].eff, "packages are not tested against the list of standard packages")
	return False
}

// stdLoad finds the load of the standard packages that fills the set m with
// their paths.
func (s *Sem) stdLoad(m *Term) *Effect {
	e := s.e
	sets := s.q.mi.sets[m]
	if len(sets) != 1 || len(s.q.mi.dels[m]) > 0 {
		return nil
	}
	ef := sets[0]
	if len(ef.loops) != 1 || len(s.q.earlyExits(ef.loops)) > 0 {
		return nil
	}
	l := ef.loops[0]
	if l.container == nil || ef.args[1] != e.Field(s.q.elemOf(l.container, l), "PkgPath", nil) {
		return nil
	}
	if e.bdd.And(l.pc, e.bdd.Not(ef.pc), s.total) != False {
		return nil
	}
	for _, ld := range e.effects {
		if ld.kind == "call" && ld.name == loadCall && l.container.op == OExtract && l.container.args[0] == ld.res && l.container.aux == "0" {
			if a := ld.args[1]; a.op == OList && len(a.args) == 1 && a.args[0] == e.Str("std") {
				return ld
			}
		}
	}
	return nil
}

// ignoredFiles checks the list of ignored files given for a package.
func (s *Sem) ignoredFiles(x Event, p *Term) bool {
	e, c := s.e, s.c
	rule := "ignored files listed"
	files := e.Field(p, "IgnoredFiles", nil)
	srcs := s.q.elems(x.terms[2], nil)
	n := 0
	for _, src := range srcs {
		if src.eff == nil || len(src.loops) == 0 || src.partial {
			c.failEff(rule, x.eff, "the files given for a package are %s", s.short(x.terms[2]))
			return false
		}
		l := src.loops[len(src.loops)-1]
		if l.container != files || len(s.q.earlyExits([]*Loop{l})) > 0 {
			c.failEff(rule, src.eff, "not all files ignored by build constraints are listed")
			return false
		}
		v := src.val
		if v.op != OCall || v.aux != "path.Base" && v.aux != "path/filepath.Base" || v.args[0] != s.q.elemOf(files, l) {
			c.failEff(rule, src.eff, "what is listed for an ignored file is %s", s.short(v))
			return false
		}
		care := s.loopCare(src.pc, src.loops, nil)
		if k := e.bdd.And(x.pc, e.bdd.Not(src.pc), s.care(src.pc, x.pc), care); k != False {
			c.failEff(rule, src.eff, "an ignored file is left out when %s", s.cube(k))
			return false
		}
		n++
	}
	if n != 1 {
		c.failEff(rule, x.eff, "the files ignored by build constraints are added to the entry of a package at %d places", n)
		return false
	}
	c.okEff(rule, srcs[0].eff)
	return true
}
