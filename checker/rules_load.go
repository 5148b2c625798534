package main

import (
	"go/types"
	"strings"
)

const visitCall = "golang.org/x/tools/go/packages.Visit"

func init() {
	register("C16", "In the capslock main function the condition under which RunCapslock is called is compared with the ways loading can "+
		"fail: no packages, an error of any package in the import closure, an error of any module in it. Each is followed "+
		"through the loops that look for it; it must exclude the call and be printed. With none of them the call must be made. "+
		"The retry's condition is checked against the option forbidding it.", ruleC16)
	register("C17", "The configuration given to packages.Load is evaluated as a value depending on which of the three options are given, and "+
		"compared with the expected build flags and environment in each case; every call of LoadPackages in the command is "+
		"checked to pass the three options.", ruleC17)
	register("C22", "For every temporary directory the condition of its creation is compared with the conditions of its removal; the working "+
		"directory is tracked as a value through all os.Chdir calls, and its value at every operation that depends on it is "+
		"compared with the directory the operation needs.", ruleC22)
}

// sameUnder reports whether two terms are equal wherever n holds.
func (s *Sem) sameUnder(a, b *Term, n Node) bool {
	if a == b {
		return true
	}
	e := s.e
	for _, x := range e.alts(a) {
		for _, y := range e.alts(b) {
			if x.t != y.t && e.bdd.And(x.c, y.c, n) != False {
				return false
			}
		}
	}
	return true
}

// closureLoop is a loop over packages and everything they import.
type closureLoop struct {
	l    *Loop
	pkgs *Term
	elem *Term
}

func (s *Sem) closureLoops() []closureLoop {
	var out []closureLoop
	for _, l := range s.e.allLoops {
		if l.kind != visitCall+".pre" && l.kind != visitCall+".post" {
			continue
		}
		// a visit that is cut short is not the closure
		whole := true
		for _, p := range s.e.allLoops {
			if p.kind == visitCall+".pre" && p.frame == l.frame && p.pos == l.pos && p.ret != nil && s.e.bdd.And(p.pc, s.e.bdd.Not(s.e.Cond(p.ret))) != False {
				whole = false
				s.c.fail("import closure", s.c.pos(l.pos), l.frame.fn.Name(), "the imports of some packages are not visited")
			}
		}
		if !whole {
			continue
		}
		out = append(out, closureLoop{l, l.container, s.q.closureElem(l)})
	}
	return out
}

func (q *Query) closureElem(l *Loop) *Term {
	return q.e.intern(Term{op: OElem, args: []*Term{q.e.mk(OCall, "import-closure", l.container.typ, l.container)}, loop: l, typ: sliceElem(l.container.typ)})
}

func ruleC16(c *Check) {
	m := c.command("/cmd/capslock")
	if m == nil {
		return
	}
	defer c.problems(m.e, "main")
	m.parsed()
	e, b := m.e, m.e.bdd
	var runs, loads []*Effect
	for _, ef := range e.effects {
		switch ef.name {
		case anaPkg + ".RunCapslock":
			runs = append(runs, ef)
		case anaPkg + ".LoadPackages":
			loads = append(loads, ef)
		}
	}
	if !c.need("vacuity", "calls to RunCapslock", len(runs), 1) || !c.need("vacuity", "calls to LoadPackages", len(loads), 2) {
		return
	}
	run := runs[0]
	for _, r := range runs[1:] {
		c.failEff("one analysis", r, "the analysis is started in a second place")
	}
	// the packages analysed are those of the last load
	pkgs := run.args[2]
	rule := "packages analysed"
	for i, l := range loads {
		if len(l.loops) > 0 {
			c.failEff(rule, l, "packages are loaded in a loop")
			return
		}
		last := b.And(l.pc, run.pc)
		for _, k := range loads[i+1:] {
			last = b.And(last, b.Not(k.pc))
		}
		got := e.mk(OExtract, "0", nil, l.res)
		for _, a := range e.alts(pkgs) {
			if b.And(a.c, last) != False && a.t != got && !(a.t.op == OExtract && a.t.aux == "0" && a.t.args[0] == l.res) {
				c.failEff(rule, run, "the packages analysed are not those of the last load at %s", c.pos(posOf(l)))
			}
		}
		c.okEff(rule, l)
	}
	for _, a := range e.alts(run.args[3]) {
		if b.And(a.c, run.pc) == False {
			continue
		}
		if libraryResult(a.t) != anaPkg+".GetQueriedPackages" || !m.sameUnder(a.t.args[0], pkgs, b.And(a.c, run.pc)) {
			c.failEff(rule, run, "the queried packages are not made from the packages loaded")
		}
	}
	// no packages
	rule = "no packages"
	if x := b.And(run.pc, e.Cond(e.Eq(e.Len(pkgs), e.Int(0)))); x != False {
		c.failEff(rule, run, "the analysis is made when no package matched: %s", m.cube(x))
	} else {
		c.okEff(rule, run)
	}
	if x := m.without(run.pc); x != False {
		c.failEff(rule, run, "the command succeeds without an analysis: %s", m.cube(x))
	}
	// what is printed for the user
	printed := False
	for _, ef := range e.effects {
		if len(ef.loops) > 0 {
			continue
		}
		if w, ok := e.asWrite(ef); ok && w.to != nil && w.to.op == ODeref && w.to.args[0].op == OGlobal && w.to.args[0].aux == "os.Stderr" || strings.HasPrefix(ef.name, "log.") {
			printed = b.Or(printed, ef.pc)
		}
	}
	// errors of packages and modules
	type found struct{ pkg, mod bool }
	var f found
	latches := map[int]bool{}
	excluded := func(n Node, loops []*Loop) bool {
		ns, l := m.raise(n, loops)
		if l != nil {
			return false
		}
		for _, x := range ns {
			if b.And(x, run.pc, m.latches(), m.care(x, run.pc)) != False || b.And(x, b.Not(m.code[2]), m.latches(), m.care(x, m.code[2])) != False {
				return false
			}
		}
		for _, x := range ns {
			for _, v := range b.Support(x) {
				if e.atoms[v].op == OLV {
					latches[v] = true
				}
			}
		}
		return len(ns) > 0
	}
	var last *Loop
	for _, cl := range m.closureLoops() {
		if !m.sameUnder(cl.pkgs, pkgs, run.pc) {
			continue
		}
		l := cl.l
		// nothing else may end the visit
		early := false
		for _, x := range l.exits {
			if b.And(e.Cond(x.atom), run.pc) != False {
				early = true
			}
		}
		if early || b.And(run.pc, b.Not(l.pc)) != False {
			continue
		}
		last = l
		loops := append(append([]*Loop(nil), l.parents...), l)
		errs := e.Field(cl.elem, "Errors", nil)
		some := b.And(l.pc, b.Not(e.Cond(e.Eq(e.Len(errs), e.Int(0)))))
		if excluded(some, loops) {
			f.pkg = true
		}
		for _, in := range e.allLoops {
			if in.container == nil || in == l || !hasLoop(in.parents, l) {
				continue
			}
			same := in.container.op == OField && in.container.aux == "Errors" && in.container.args[0] == cl.elem
			if !same || b.And(some, b.Not(in.pc)) != False {
				continue
			}
			if excluded(b.And(in.pc, in.cont), append(append([]*Loop(nil), loops...), in)) {
				f.pkg = true
			}
		}
		mod := e.Field(cl.elem, "Module", nil)
		merr := e.Field(mod, "Error", nil)
		n := b.And(l.pc, b.Not(e.Cond(e.Eq(mod, e.Nil()))), b.Not(e.Cond(e.Eq(merr, e.Nil()))))
		// modules seen before were handled then
		for _, a := range e.atoms {
			if (a.op == OIn || a.op == OLookup) && a.args[1] == mod && a.args[0].op == OObj {
				sets := true
				for _, ef := range e.effects {
					if ef.kind == "mapset" && ef.args[0] == a.args[0] && (ef.args[1] != mod || !hasLoop(ef.loops, l)) {
						sets = false
					}
				}
				if sets {
					n = b.And(n, b.Not(e.Cond(a)))
				}
			}
		}
		if excluded(n, loops) {
			f.mod = true
		}
	}
	for _, ef := range e.effects {
		if strings.HasPrefix(ef.name, "golang.org/x/tools/go/packages.PrintErrors") && m.sameUnder(ef.args[0], pkgs, run.pc) {
			n := b.And(ef.pc, b.Not(e.Cond(e.Eq(ef.res, e.Int(0)))))
			if x := b.And(n, run.pc); x == False && b.And(run.pc, b.Not(ef.pc)) == False {
				f.pkg, f.mod = true, true
			}
		}
	}
	if !f.pkg {
		c.failEff("package errors", run, "an error of a package or of something it imports does not always keep the analysis from being made with exit status 2")
	} else {
		c.okEff("package errors", run)
	}
	if !f.mod {
		c.failEff("module errors", run, "an error of a module does not always keep the analysis from being made with exit status 2")
	} else {
		c.okEff("module errors", run)
	}
	for v := range latches {
		n := b.Var(v)
		if last != nil && b.And(n, last.pc, b.Not(printed), m.latches(), m.care(n, printed, last.pc)) != False {
			c.failEff("errors printed", run, "errors were found but nothing is printed")
		} else {
			c.okEff("errors printed", run)
		}
	}
	c.count("error_variables", len(latches))
	// otherwise it analyses
	sub := func(a *Term) (bool, bool) {
		if a.op == OEq && e.isNil(a.args[1]) && a.args[0].typ != nil && types.Identical(a.args[0].typ, errorType) {
			return true, true
		}
		if a.op == OExists {
			return false, true
		}
		if a.op == OLV && latches[e.atomV[a]] {
			return false, true
		}
		if a.op == OEq && a.args[0].op == OLen && a.args[1].aux == "0" && (libraryResult(a.args[0].args[0]) == anaPkg+".LoadPackages") {
			return false, true
		}
		return false, false
	}
	rest := run.pc
	for _, v := range b.Support(run.pc) {
		if val, known := sub(e.atoms[v]); known {
			rest = b.Cofactor(rest, v, val)
		}
	}
	usage := False
	if dis, mp := e.flagTerm("disable_builtin"), e.flagTerm("capability_map"); dis != nil && mp != nil {
		usage = b.And(e.Cond(dis), e.Cond(e.Eq(mp, e.Const(`""`, nil))))
	}
	if x := b.And(b.Not(rest), b.Not(usage), m.care(rest, usage)); x != False {
		c.failEff("otherwise analysed", run, "the packages loaded without errors but the analysis is not made: %s", m.cube(x))
	} else {
		c.okEff("otherwise analysed", run)
	}
	// the retry
	rule = "retry"
	for i, l := range loads[1:] {
		prev := loads[i]
		list := e.mk(OExtract, "0", nil, prev.res)
		for _, t := range e.list {
			if t.op == OExtract && t.aux == "0" && t.args[0] == prev.res {
				list = t
			}
		}
		if force := e.flagTerm("force_local_module"); force == nil || b.And(l.pc, e.Cond(force)) != False {
			c.failEff(rule, l, "the retry is made although the user forbade it")
			continue
		}
		n := l.pc
		for _, v := range b.Support(n) {
			a := e.atoms[v]
			switch {
			case a == e.atomOf(e.Eq(e.Len(list), e.Int(0))):
				n = b.Cofactor(n, v, false)
			case a.op == OExists && m.listErrorLoop(a.loop, list):
				n = b.Cofactor(n, v, false)
			}
		}
		if n != False {
			c.failEff(rule, l, "the retry is made although packages were found and listed: %s", m.cube(n))
			continue
		}
		// both reasons lead to a retry, unless something fails on the way
		reasons := e.Cond(e.Eq(e.Len(list), e.Int(0)))
		listed := map[int]bool{}
		for _, a := range e.atoms {
			if a.op == OExists && m.listErrorLoop(a.loop, list) {
				listed[e.atomV[a]] = true
				reasons = b.Or(reasons, e.Cond(a))
			}
		}
		if len(listed) == 0 {
			c.failEff(rule, l, "packages that could not be listed are not looked for")
			continue
		}
		made := l.pc
		for _, v := range b.Support(made) {
			a := e.atoms[v]
			switch {
			case a.op == OEq && e.isNil(a.args[1]) && a.args[0].typ != nil && types.Identical(a.args[0].typ, errorType):
				made = b.Cofactor(made, v, true)
			case a.op == OExists && !listed[v]:
				made = b.Cofactor(made, v, false)
			}
		}
		reasons = b.And(reasons, b.Not(e.Cond(e.flagTerm("force_local_module"))), b.Not(usage))
		if x := b.And(reasons, b.Not(made), m.care(reasons, made)); x != False {
			c.failEff(rule, l, "the retry is not made although loading found nothing or could not list a package: %s", m.cube(x))
			continue
		}
		c.okEff(rule, l)
	}
}

func hasLoop(ls []*Loop, l *Loop) bool {
	for _, x := range ls {
		if x == l {
			return true
		}
	}
	return false
}

// listErrorLoop: a loop looking for packages that could not be listed.
func (s *Sem) listErrorLoop(l *Loop, pkgs *Term) bool {
	e := s.e
	inner := func(l *Loop, el *Term) bool {
		ct := l.container
		if ct == nil || ct.op != OField || ct.aux != "Errors" || ct.args[0] != el {
			return false
		}
		kind := e.Field(s.q.elemOf(ct, l), "Kind", nil)
		want := s.c.constVal("golang.org/x/tools/go/packages", "ListError")
		for _, x := range l.exits {
			if !e.bdd.Implies(x.cond, e.Cond(e.Eq(kind, e.Const(want, nil)))) {
				return false
			}
		}
		return len(l.exits) > 0
	}
	if l.container != pkgs {
		return false
	}
	el := s.q.elemOf(pkgs, l)
	for _, x := range l.exits {
		ok := false
		for _, v := range e.bdd.Support(x.cond) {
			if a := e.atoms[v]; a.op == OExists && inner(a.loop, el) && e.bdd.And(x.cond, e.bdd.Not(e.bdd.Var(v))) == False {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return len(l.exits) > 0
}

// listItem is one element, or all elements of a list, of a built-up list.
type listItem struct {
	t      *Term
	spread bool
}

type listAlt struct {
	c     Node
	items []listItem
}

// listAlts spells out the contents of a list built by literals and appends.
func (s *Sem) listAlts(t *Term, pc Node) []listAlt {
	e := s.e
	var out []listAlt
	for _, a := range e.alts(t) {
		n := e.bdd.And(a.c, pc)
		if n == False {
			continue
		}
		x := a.t
		switch {
		case e.isNil(x) || x.op == OZero:
			out = append(out, listAlt{n, nil})
		case x.op == OList:
			var items []listItem
			for _, y := range x.args {
				items = append(items, listItem{y, false})
			}
			out = append(out, listAlt{n, items})
		case x.op == OAppend:
			for _, p := range s.listAlts(x.args[0], n) {
				for _, q := range s.listAlts(x.args[1], p.c) {
					out = append(out, listAlt{q.c, append(append([]listItem(nil), p.items...), q.items...)})
				}
			}
		case x.op == OGate:
			out = append(out, s.listAlts(x, n)...)
		default:
			out = append(out, listAlt{n, []listItem{{x, true}}})
		}
	}
	return out
}

// text splits a string built by concatenation.
func (s *Sem) text(t *Term) []piece { return flat(s.e, t, "s") }

// isText reports whether t is the fixed prefix followed by val.
func (s *Sem) isText(t *Term, prefix string, val *Term) bool {
	ps := s.text(t)
	return len(ps) == 2 && ps[0].term == nil && ps[0].text == prefix && ps[1].term == val && (ps[1].verb == "s" || ps[1].verb == "v")
}

func ruleC17(c *Check) {
	s, _ := c.sem("/analyzer", "LoadPackages")
	if s != nil {
		s.loadConfig()
		c.problems(s.e, s.name)
	}
	m := c.command("/cmd/capslock")
	if m == nil {
		return
	}
	defer c.problems(m.e, "main")
	m.parsed()
	n := 0
	for _, ef := range m.e.effects {
		if ef.name != anaPkg+".LoadPackages" {
			continue
		}
		n++
		ok := true
		for f, name := range map[string]string{"BuildTags": "buildtags", "GOOS": "goos", "GOARCH": "goarch"} {
			v := m.e.Field(ef.args[1], f, nil)
			if !m.e.isFlag(v, name) {
				ok = false
				c.failEff("options passed", ef, "%s is %s, not the -%s option", f, m.short(v), name)
			}
		}
		if p := ef.args[0]; !(p.op == OCall && strings.HasPrefix(p.aux, "strings.Split") && len(p.args) == 2 && m.e.isFlag(p.args[0], "packages") && p.args[1].aux == `","`) {
			ok = false
			c.failEff("options passed", ef, "the packages loaded are not those of the -packages option")
		}
		if ok {
			c.okEff("options passed", ef)
		}
	}
	c.need("vacuity", "calls to LoadPackages", n, 2)
	// other loads of packages
	for _, ef := range m.e.effects {
		if strings.HasPrefix(ef.name, "golang.org/x/tools/go/packages.Load") {
			c.failEff("options passed", ef, "packages are loaded without the options")
		}
	}
}

func (s *Sem) loadConfig() {
	c, e, b := s.c, s.e, s.e.bdd
	var load *Effect
	for _, ef := range e.effects {
		if ef.name == "golang.org/x/tools/go/packages.Load" {
			if load != nil {
				c.failEff("load configuration", ef, "packages are loaded in a second place")
			}
			load = ef
		}
	}
	if load == nil {
		c.fail("load configuration", "-", s.fn, "packages.Load is not called")
		return
	}
	if b.And(s.total, b.Not(load.pc)) != False || len(load.loops) > 0 {
		c.failEff("load configuration", load, "the packages are not always loaded")
	}
	fn := c.prog.fn(anaPkg, "LoadPackages")
	var names, lcfg *Term
	for i, p := range fn.Params {
		if p.Type().String() == "[]string" {
			names = e.param(fn, i)
		} else {
			lcfg = e.param(fn, i)
		}
	}
	if names == nil || lcfg == nil || !s.sameUnder(load.args[1], names, load.pc) {
		c.failEff("load configuration", load, "the packages loaded are not those asked for")
		return
	}
	empty := e.Const(`""`, types.Typ[types.String])
	opt := func(f string) (*Term, Node) {
		v := e.Field(lcfg, f, nil)
		for _, t := range e.list {
			if t.op == OField && t.aux == f && t.args[0] == lcfg {
				v = t
			}
		}
		return v, b.Not(e.Cond(e.Eq(v, empty)))
	}
	tags, hasTags := opt("BuildTags")
	goos, hasOS := opt("GOOS")
	goarch, hasArch := opt("GOARCH")
	field := func(f string) *Term {
		for _, fv := range structFields(elemTypeOf(load.args[0])) {
			if fv.Name() == f {
				return e.load(load.mem, e.FAddr(load.args[0], f, fv.Type()), fv.Type())
			}
		}
		return e.Nil()
	}
	rule := "build flags"
	bad := false
	for _, a := range s.listAlts(field("BuildFlags"), load.pc) {
		given := b.And(a.c, hasTags)
		none := b.And(a.c, b.Not(hasTags))
		it := a.items
		isTags := len(it) == 1 && !it[0].spread && (s.isText(it[0].t, "-tags=", tags) || s.isText(it[0].t, "--tags=", tags)) ||
			len(it) == 2 && it[0].t.aux == `"-tags"` && it[1].t == tags && !it[1].spread
		if given != False && !isTags {
			bad = true
			c.failEff(rule, load, "build tags were given, but the flags are not exactly -tags with them: %s", s.cube(given))
		}
		if none != False && len(it) > 0 && !(isTags) {
			bad = true
			c.failEff(rule, load, "build flags are passed although no tags were given: %s", s.cube(none))
		}
	}
	if !bad {
		c.okEff(rule, load)
	}
	rule = "environment"
	bad = false
	isEnviron := func(it listItem) bool { return it.spread && libraryResult(it.t) == "os.Environ" }
	cases := 0
	for _, a := range s.listAlts(field("Env"), load.pc) {
		for _, os := range []bool{false, true} {
			for _, arch := range []bool{false, true} {
				n := a.c
				if os {
					n = b.And(n, hasOS)
				} else {
					n = b.And(n, b.Not(hasOS))
				}
				if arch {
					n = b.And(n, hasArch)
				} else {
					n = b.And(n, b.Not(hasArch))
				}
				if n == False {
					continue
				}
				cases++
				base, gotOS, gotArch, other := 0, 0, 0, false
				for i, it := range a.items {
					switch {
					case isEnviron(it):
						base++
						if i > 0 {
							other = true
						}
					case !it.spread && s.isText(it.t, "GOOS=", goos):
						gotOS++
					case !it.spread && s.isText(it.t, "GOARCH=", goarch):
						gotArch++
					default:
						other = true
					}
				}
				wantBase := 0
				if len(a.items) > 0 {
					wantBase = 1
				}
				if base != wantBase || other || (gotOS > 0) != os || (gotArch > 0) != arch {
					bad = true
					c.failEff(rule, load, "with GOOS given: %v and GOARCH given: %v the environment is not the process's own followed by exactly these: %s", os, arch, s.cube(n))
				}
			}
		}
	}
	if !bad && c.need("vacuity", "combinations of options", cases, 4) {
		c.okEff(rule, load)
	}
	c.count("option_combinations", cases)
	for _, f := range []string{"Tests", "Overlay", "Dir", "ParseFile"} {
		for _, fv := range structFields(elemTypeOf(load.args[0])) {
			if fv.Name() != f {
				continue
			}
			v := field(f)
			if !(e.isNil(v) || v.op == OZero || v.aux == "false" || v.aux == `""` || isBoolTerm(v) && e.Cond(v) == False) {
				c.failEff("load configuration", load, "packages are loaded with %s set to %s", f, s.short(v))
			}
		}
	}
}

// elemTypeOf is the struct type a pointer term refers to.
func elemTypeOf(t *Term) types.Type {
	if t.typ == nil {
		return nil
	}
	return elemType(t.typ)
}

// ---- directories ----

type dirAlt struct {
	c   Node
	dir *Term
}

// cwdAt gives the possible working directories at an effect; start is the
// one the command was started in.
func (m *command) cwdAt(at *Effect, start *Term) ([]dirAlt, bool) {
	e, b := m.e, m.e.bdd
	cur := []dirAlt{{True, start}}
	for _, ef := range e.effects {
		if ef == at || ef.seq >= at.seq {
			break
		}
		if ef.name != "os.Chdir" {
			continue
		}
		if len(ef.loops) > 0 {
			return nil, false
		}
		ok := b.And(ef.pc, e.Cond(e.Eq(ef.res, e.Nil())))
		var next []dirAlt
		for _, d := range cur {
			if n := b.And(d.c, b.Not(ok)); n != False {
				next = append(next, dirAlt{n, d.dir})
			}
		}
		for _, a := range e.alts(ef.args[0]) {
			n := b.And(a.c, ok)
			if n == False {
				continue
			}
			if libraryResult(a.t) == "os.Getwd" {
				var src *Effect
				for _, g := range e.effects {
					if g.name == "os.Getwd" && a.t.op == OExtract && g.res == a.t.args[0] {
						src = g
					}
				}
				if src == nil {
					return nil, false
				}
				ds, ok := m.cwdAt(src, start)
				if !ok {
					return nil, false
				}
				for _, d := range ds {
					if k := b.And(n, d.c); k != False {
						next = append(next, dirAlt{k, d.dir})
					}
				}
				continue
			}
			next = append(next, dirAlt{n, a.t})
		}
		cur = next
	}
	return cur, true
}

// dirOf is the directory a command runs in: its own, or the process's.
func (m *command) dirOf(ef *Effect, start *Term) ([]dirAlt, bool) {
	e := m.e
	if strings.HasPrefix(ef.name, "(*os/exec.Cmd).") {
		if cmd := ef.args[0]; cmd.typ != nil {
			v := e.load(ef.mem, e.FAddr(cmd, "Dir", types.Typ[types.String]), types.Typ[types.String])
			if !(v.op == OField || v.aux == `""`) {
				var out []dirAlt
				for _, a := range e.alts(v) {
					out = append(out, dirAlt{a.c, a.t})
				}
				return out, true
			}
		}
	}
	return m.cwdAt(ef, start)
}

func ruleC22(c *Check) {
	m := c.command("/cmd/capslock")
	if m != nil {
		m.tempDirs(1)
		m.directories()
		c.problems(m.e, "main")
	}
	m = c.command("/cmd/capslock-git-diff")
	if m != nil {
		m.tempDirs(2)
		m.directories()
		c.problems(m.e, "main")
	}
	c.need("vacuity", "temporary directories", c.stats["temporary_directories"], 3)
	c.need("vacuity", "operations depending on the working directory", c.stats["directory_uses"], 10)
}

// tempDirs: every temporary directory is removed on every way out.
func (m *command) tempDirs(min int) {
	c, e, b := m.c, m.e, m.e.bdd
	rule := "temporary directory removed"
	for _, mk := range e.effects {
		if mk.name != "os.MkdirTemp" && mk.name != "io/ioutil.TempDir" && mk.name != "os.Mkdir" && mk.name != "os.MkdirAll" && mk.name != "os.CreateTemp" {
			continue
		}
		c.count("temporary_directories", 1)
		if len(mk.loops) > 0 {
			c.failEff(rule, mk, "temporary directories are created in a loop")
			continue
		}
		dir := e.mk(OExtract, "0", nil, mk.res)
		for _, t := range e.list {
			if t.op == OExtract && t.aux == "0" && t.args[0] == mk.res {
				dir = t
			}
		}
		made := b.And(mk.pc, e.Cond(e.Eq(e.errOf(mk), e.Nil())))
		removed := False
		var first *Effect
		for _, ef := range e.effects {
			if ef.name != "os.RemoveAll" || ef.seq < mk.seq || len(ef.loops) > 0 {
				continue
			}
			for _, a := range e.alts(ef.args[0]) {
				if a.t == dir && b.And(ef.pc, a.c) != False {
					removed = b.Or(removed, b.And(ef.pc, a.c))
					if first == nil {
						first = ef
					}
				}
			}
		}
		if x := b.And(made, b.Not(removed), m.care(made, removed)); x != False {
			c.failEff(rule, mk, "the directory is not removed when %s", m.cube(x))
			continue
		}
		// nothing uses the directory after its removal
		late := false
		for _, ef := range e.effects {
			if first == nil || !usesDir(ef) {
				continue
			}
			for _, rm := range e.effects {
				if rm.name != "os.RemoveAll" || rm.seq > ef.seq || rm.seq < mk.seq {
					continue
				}
				gone := False
				for _, a := range e.alts(rm.args[0]) {
					if a.t == dir {
						gone = b.Or(gone, b.And(rm.pc, a.c))
					}
				}
				ds, ok := m.dirOf(ef, e.mk(ONamed, "start", nil))
				if !ok {
					continue
				}
				for _, d := range ds {
					if mentions(d.dir, dir) && b.And(d.c, ef.pc, gone) != False {
						late = true
						c.failEff(rule, rm, "the directory is removed before it is used at %s", c.pos(posOf(ef)))
					}
				}
			}
		}
		if !late {
			c.okEff(rule, mk)
		}
	}
}

// usesDir: operations whose meaning depends on the working directory.
func usesDir(ef *Effect) bool {
	switch ef.name {
	case anaPkg + ".LoadPackages", anaPkg + ".RunCapslock", "(*os/exec.Cmd).Run", "(*os/exec.Cmd).Output", "(*os/exec.Cmd).CombinedOutput",
		"(*os/exec.Cmd).Start", "os.Open", "os.Create", "os.ReadFile", "os.Getwd", "golang.org/x/tools/go/packages.Load":
		return ef.kind == "call"
	}
	return false
}

func mentions(t, x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.args {
		if mentions(a, x) {
			return true
		}
	}
	return false
}

// directories: each operation runs in the directory it needs.
func (m *command) directories() {
	c, e, b := m.c, m.e, m.e.bdd
	start := e.mk(ONamed, "start", nil)
	rule := "working directory"
	var loads []*Effect
	for _, ef := range e.effects {
		if ef.name == anaPkg+".LoadPackages" {
			loads = append(loads, ef)
		}
	}
	isTemp := func(t *Term) bool {
		return t.op == OExtract && t.aux == "0" && libraryResult(t) == "os.MkdirTemp"
	}
	for _, ef := range e.effects {
		if !usesDir(ef) {
			continue
		}
		c.count("directory_uses", 1)
		ds, ok := m.dirOf(ef, start)
		if !ok {
			c.failEff(rule, ef, "undecided: the working directory here is not known")
			continue
		}
		// where it has to happen
		want := func(d *Term) bool { return d == start }
		what := "the directory the command was started in"
		switch {
		case ef.name == anaPkg+".LoadPackages" && len(loads) > 1 && ef != loads[0]:
			want, what = isTemp, "the temporary module"
		case strings.HasPrefix(ef.name, "(*os/exec.Cmd)"):
			name, args := commandArgs(ef.args[0])
			sub := ""
			if len(args) > 0 {
				sub, _ = unquote(args[0])
			}
			switch {
			case name == "go":
				want, what = isTemp, "the temporary module"
			case name == "git" && sub == "checkout":
				want, what = isTemp, "the temporary clone"
			case name == "capslock":
				want = func(d *Term) bool { return d == start || m.isCheckout(d) }
				what = "the directory the command was started in or the same directory of a temporary clone"
			}
		}
		good := true
		for _, d := range ds {
			n := b.And(d.c, ef.pc)
			if n == False || b.And(n, m.care(n)) == False {
				continue
			}
			if !want(d.dir) {
				good = false
				c.failEff(rule, ef, "%s runs in %s instead of %s", shortName(ef.name), m.short(d.dir), what)
			}
		}
		if good {
			c.okEff(rule, ef)
		}
	}
}

// isCheckout: a temporary directory, or a directory in it named by
// `git rev-parse --show-prefix`.
func (m *command) isCheckout(d *Term) bool {
	isTemp := func(t *Term) bool {
		return t.op == OExtract && t.aux == "0" && libraryResult(t) == "os.MkdirTemp"
	}
	if d.op == OCall && d.aux == "path/filepath.Join" && len(d.args) == 1 && d.args[0].op == OList && len(d.args[0].args) == 2 {
		return isTemp(d.args[0].args[0])
	}
	return false
}
