package main

import (
	"go/token"
	"go/types"
	"strings"
)

func init() {
	register("C21", "NewCapabilitySet's loop over the comma-separated items is read off the program as a finite automaton over its "+
		"boolean variables and the tests it makes on an item, and compared state by state with the meaning of a list; "+
		"CapabilitySet.Has is compared with membership; the set is followed from the -capabilities option to the filtered "+
		"graph and the intermediate results; a wrapper passes the option on unchanged.", ruleC21)
}

// capItem is one kind of item of a capability list.
type capItem struct {
	empty, neg    bool
	long, short   bool // the name is a capability with or without the prefix
	startsWithCap bool
}

func ruleC21(c *Check) {
	c.capabilityList()
	s, _ := c.graphRun(true)
	if s != nil {
		s.checkGraph(true, true)
		c.problems(s.e, s.name)
	}
	i, f := c.semWith("/analyzer", "GetCapabilityInfo", given{"Granularity": c.constVal(modulePath+"/analyzer", "GranularityIntermediate"), "CapabilitySet": "set!"})
	if i != nil {
		i.intermediate(f, false)
		c.problems(i.e, "GetCapabilityInfo")
	}
	c.capsWiring()
}

// capabilityList checks the parser of capability lists and Has.
func (c *Check) capabilityList() {
	e, f, fn := c.root("/analyzer", "NewCapabilitySet")
	if e == nil {
		return
	}
	defer c.problems(e, "NewCapabilitySet")
	q := NewQuery(e)
	cs := e.param(fn, 0)
	rule := "list parser"
	var L *Loop
	for _, l := range e.allLoops {
		if ct := l.container; ct != nil && l.kind == "index" && ct.op == OCall && strings.HasPrefix(ct.aux, "strings.Split") && len(ct.args) == 2 && ct.args[0] == cs && ct.args[1].aux == `","` {
			if L != nil {
				c.fail(rule, c.pos(l.pos), "NewCapabilitySet", "the items are read twice")
				return
			}
			L = l
		}
	}
	if L == nil || L.reversed {
		c.fail(rule, c.pos(fn.Pos()), "NewCapabilitySet", "no loop over the comma-separated items of the list was found")
		return
	}
	item := q.elemOf(L.container, L)
	emptyList := e.atomOf(e.Eq(cs, e.Const(`""`, types.Typ[types.String])))
	// what is said about an item
	name := func(neg bool) *Term {
		if neg {
			return e.sliceOf(item, e.Int(1), e.Nil(), types.Typ[types.String])
		}
		return item
	}
	long := func(neg bool) *Term {
		return e.bin(token.ADD, e.Const(`"CAPABILITY_"`, types.Typ[types.String]), name(neg), types.Typ[types.String])
	}
	isTable := func(t *Term) bool {
		return t.op == ODeref && t.args[0].op == OGlobal && strings.HasSuffix(t.args[0].aux, "proto.Capability_value")
	}
	firstNeg := false
	input := func(a *Term, it any, first bool) (bool, bool) {
		if a == emptyList {
			return false, true
		}
		x, isItem := it.(capItem)
		if a.op == OCall && a.aux == "strings.HasPrefix" && len(a.args) == 2 && a.args[1].aux == `"-"` {
			if a.args[0] == cs || a.args[0].op == OIndex && a.args[0].args[0] == L.container && a.args[0].args[1].aux == "0" {
				if first && isItem {
					return x.neg, true
				}
				return firstNeg, true
			}
		}
		if !isItem {
			return false, false
		}
		switch {
		case a.op == OEq && (a.args[0] == item || a.args[1] == item) && (a.args[0].aux == `""` || a.args[1].aux == `""`):
			return x.empty, true
		case a.op == OEq && (a.args[0] == name(true) || a.args[1] == name(true)) && (a.args[0].aux == `""` || a.args[1].aux == `""`):
			if x.neg && (x.long || x.short) {
				return false, true
			}
		case a.op == OCall && a.aux == "strings.HasPrefix" && a.args[0] == item && a.args[1].aux == `"-"`:
			return x.neg, true
		case a.op == OCall && a.aux == "strings.HasPrefix" && a.args[0] == name(x.neg) && a.args[1].aux == `"CAPABILITY_"`:
			return x.startsWithCap, true
		case a.op == OIn && isTable(a.args[0]):
			switch a.args[1] {
			case name(x.neg):
				return x.long, true
			case long(x.neg):
				return x.short, true
			}
		}
		return false, false
	}
	var items []capItem
	for _, neg := range []bool{false, true} {
		for _, startsWithCap := range []bool{false, true} {
			items = append(items, capItem{neg: neg, startsWithCap: startsWithCap},
				capItem{neg: neg, long: startsWithCap, short: !startsWithCap, startsWithCap: startsWithCap})
		}
	}
	items = append(items, capItem{empty: true})
	m := newMachine(e, L, f.rets)
	m.input = input
	// the set returned for the empty list
	emptyV := func(a *Term) (bool, bool) {
		if a == emptyList {
			return true, true
		}
		return false, false
	}
	has := c.prog.fn(modulePath+"/analyzer", "CapabilitySet.Has")
	if has == nil {
		c.fail("anchor", "-", "CapabilitySet.Has", "method not found")
		return
	}
	cp := e.mk(OParam, "capability", has.Params[1].Type())
	// hasOf evaluates Has on the set returned
	self := e.mk(OParam, "self!", has.Params[0].Type())
	fh, _ := e.Run(has, []*Term{self, cp})
	hasN := False
	for _, r := range fh.rets {
		hasN = e.bdd.Or(hasN, e.bdd.And(r.st.pc, e.Cond(r.vals[0])))
	}
	fnil, _ := e.Run(has, []*Term{e.Nil(), cp})
	nilN := False
	for _, r := range fnil.rets {
		nilN = e.bdd.Or(nilN, e.bdd.And(r.st.pc, e.Cond(r.vals[0])))
	}
	for fn, n := range e.fnSeen {
		_ = n
		c.fns[fn] = true
	}
	if nilN != True {
		c.fail("membership", c.pos(has.Pos()), "Has", "a nil set does not contain every capability")
	} else {
		c.ok("membership", c.pos(has.Pos())+" Has of nil")
	}
	// hasOn gives the condition of membership in what a return gives
	hasOn := func(r *Ret, v valuation) (Node, bool) {
		for _, a := range e.alts(r.vals[0]) {
			b, unk := e.decide(a.c, v)
			if unk != nil {
				return False, false
			}
			if !b {
				continue
			}
			if e.isNil(a.t) {
				return True, true
			}
			sub := map[*Term]*Term{}
			for _, fv := range structFields(elemType(has.Params[0].Type())) {
				sub[e.Field(self, fv.Name(), fv.Type())] = e.load(r.st.mem, e.FAddr(a.t, fv.Name(), fv.Type()), fv.Type())
			}
			return e.SubstNode(hasN, sub), true
		}
		return False, false
	}
	emptyOK := false
	for i := range f.rets {
		r := &f.rets[i]
		b, unk := e.decide(r.st.pc, emptyV)
		if unk != nil || !b {
			continue
		}
		n, known := hasOn(r, emptyV)
		errNil, unk := e.decide(e.Cond(e.Eq(r.vals[1], e.Nil())), emptyV)
		emptyOK = known && n == True && unk == nil && errNil
	}
	if !emptyOK {
		c.fail("empty list", c.pos(fn.Pos()), "NewCapabilitySet", "an empty list does not give the set of all capabilities")
	} else {
		c.ok("empty list", c.pos(fn.Pos())+" NewCapabilitySet")
	}
	// the automaton
	type spec struct {
		st  mstate
		neg bool
	}
	start, unk := m.start()
	if unk != nil {
		c.fail(rule, c.pos(L.pos), "NewCapabilitySet", "undecided: a loop variable starts from %s", e.str(unk, 4))
		return
	}
	seen := map[spec]bool{}
	todo := []spec{{start, false}}
	bad := func(format string, a ...any) { c.fail(rule, c.pos(L.pos), "NewCapabilitySet", format, a...) }
	describe := func(x capItem) string {
		switch {
		case x.empty:
			return "an empty item"
		case !x.long && !x.short && x.neg:
			return "a negated unknown name"
		case !x.long && !x.short:
			return "an unknown name"
		case x.neg:
			return "a negated capability"
		}
		return "a capability"
	}
	var sets map[*Term]bool = map[*Term]bool{}
	for len(todo) > 0 {
		sp := todo[0]
		todo = todo[1:]
		if seen[sp] {
			continue
		}
		seen[sp] = true
		firstNeg = sp.neg
		where := "after other items"
		if sp.st.first {
			where = "as the first item"
		}
		for _, it := range items {
			reject := it.empty || !it.long && !it.short || !sp.st.first && it.neg != sp.neg
			o, unk := m.step(sp.st, it)
			if unk != nil {
				bad("undecided: what happens to %s depends on %s", describe(it), e.str(unk, 5))
				return
			}
			c.count("automaton_steps", 1)
			if o.ret == nil && reject && (it.empty || !it.long && !it.short) {
				bad("%s %s is accepted", describe(it), where)
				continue
			}
			if o.ret == nil && reject {
				// a mixture may be rejected at the end
				firstNeg = sp.neg
				if fin, unk := m.end(o.next); unk == nil && fin.ret != nil {
					if isNil, unk := e.decide(e.Cond(e.Eq(fin.ret.vals[1], e.Nil())), fin.v); unk == nil && !isNil {
						continue
					}
				}
				bad("%s following items of the other kind is accepted", describe(it))
				continue
			}
			if o.ret != nil {
				isNil, unk := e.decide(e.Cond(e.Eq(o.ret.vals[1], e.Nil())), o.v)
				if unk != nil {
					bad("undecided: whether %s gives an error depends on %s", describe(it), e.str(unk, 4))
					return
				}
				switch {
				case reject && isNil:
					bad("%s %s ends the list without an error", describe(it), where)
				case !reject && isNil:
					bad("%s %s ends the list: the items after it are not read", describe(it), where)
				case !reject:
					bad("%s %s is rejected", describe(it), where)
				}
				continue
			}
			todo = append(todo, spec{o.next, it.neg})
		}
		if sp.st.first {
			continue
		}
		firstNeg = sp.neg
		fin, unk := m.end(sp.st)
		if unk != nil || fin.ret == nil {
			bad("undecided: what is returned at the end of the list")
			return
		}
		if isNil, unk := e.decide(e.Cond(e.Eq(fin.ret.vals[1], e.Nil())), fin.v); unk != nil || !isNil {
			bad("a list of acceptable items gives an error")
			continue
		}
		n, known := hasOn(fin.ret, fin.v)
		if !known {
			bad("undecided: the set returned")
			return
		}
		for _, in := range []bool{false, true} {
			got, unk := e.decide(n, func(a *Term) (bool, bool) {
				if (a.op == OIn || a.op == OLookup) && a.args[1] == cp {
					sets[a.args[0]] = true
					return in, true
				}
				return fin.v(a)
			})
			if unk != nil {
				bad("undecided: membership depends on %s", e.str(unk, 4))
				return
			}
			if want := in != sp.neg; got != want {
				kind := "plain"
				if sp.neg {
					kind = "negated"
				}
				bad("after a %s list, Has is %v for a capability whose being listed is %v", kind, got, in)
			}
		}
	}
	c.ok(rule, c.pos(L.pos)+" NewCapabilitySet")
	c.need("vacuity", "states of the list automaton", len(seen), 3)
	// what is put in the set
	rule = "listed capabilities"
	if len(sets) != 1 {
		c.fail(rule, c.pos(L.pos), "NewCapabilitySet", "Has looks in %d sets, expected one", len(sets))
		return
	}
	for set := range sets {
		// an item is recorded under its own capability whenever it is accepted
		for _, ef := range e.effects {
			if ef.kind != "mapset" || ef.args[0] != set {
				if (ef.kind == "mapdel" || ef.kind == "clear" || ef.kind == "mapcopy") && len(ef.args) > 0 && ef.args[0] == set {
					c.failEff(rule, ef, "capabilities are removed from the set again")
				}
				continue
			}
			if len(ef.loops) != 1 || ef.loops[0] != L {
				c.failEff(rule, ef, "a capability is added outside the loop over the items")
			}
		}
		for sp := range seen {
			firstNeg = sp.neg
			for _, it := range items {
				if it.empty || !it.long && !it.short || !sp.st.first && it.neg != sp.neg {
					continue
				}
				v := m.valuation(sp.st, it, nil, false)
				added := 0
				for _, ef := range e.effects {
					if ef.kind != "mapset" || ef.args[0] != set {
						continue
					}
					b, unk := e.decide(ef.pc, v)
					if unk != nil {
						c.failEff(rule, ef, "undecided: whether a capability is added depends on %s", e.str(unk, 4))
						return
					}
					if !b {
						continue
					}
					for _, a := range e.alts(ef.args[1]) {
						if b, _ := e.decide(a.c, v); !b {
							continue
						}
						want := name(it.neg)
						if it.short {
							want = long(it.neg)
						}
						k := a.t
						for k.op == OConv {
							k = k.args[0]
						}
						if k.op != OLookup || !isTable(k.args[0]) || k.args[1] != want {
							c.failEff(rule, ef, "%s is recorded as %s", describe(it), e.str(k, 5))
							return
						}
						added++
					}
					if e.Cond(ef.args[2]) == False && isBoolTerm(ef.args[2]) {
						c.failEff(rule, ef, "a listed capability is recorded as absent")
					}
				}
				if added == 0 {
					c.fail(rule, c.pos(L.pos), "NewCapabilitySet", "%s is accepted but not added to the set", describe(it))
					return
				}
				c.count("items_recorded", 1)
			}
		}
		c.ok(rule, c.pos(L.pos)+" NewCapabilitySet")
	}
}

// configField is a field of the configuration a command passes to
// RunCapslock.
func (m *command) configField(run *Effect, field string) *Term {
	arg := run.args[len(run.args)-1]
	for _, fv := range structFields(elemTypeOf(arg)) {
		if fv.Name() == field {
			return m.e.load(run.mem, m.e.FAddr(arg, field, fv.Type()), fv.Type())
		}
	}
	return m.e.Nil()
}

// capsWiring follows the option into the configuration.
func (c *Check) capsWiring() {
	rule := "option passed on"
	if m := c.command("/cmd/capslock"); m != nil {
		m.parsed()
		e, b := m.e, m.e.bdd
		n := 0
		for _, ef := range e.effects {
			if ef.name != anaPkg+".RunCapslock" {
				continue
			}
			n++
			good := true
			for _, a := range e.alts(m.configField(ef, "CapabilitySet")) {
				if b.And(a.c, ef.pc) == False {
					continue
				}
				if !(a.t.op == OExtract && a.t.aux == "0" && libraryResult(a.t) == anaPkg+".NewCapabilitySet" && e.isFlag(a.t.args[0].args[0], "capabilities")) {
					good = false
					c.failEff(rule, ef, "the capabilities selected are %s, not those of the -capabilities option", m.short(a.t))
					continue
				}
				err := e.mk(OExtract, "1", errorType, a.t.args[0])
				if b.And(ef.pc, a.c, b.Not(e.Cond(e.Eq(err, e.Nil())))) != False {
					good = false
					c.failEff(rule, ef, "the analysis is made although the capability list was rejected")
				}
			}
			if good {
				c.okEff(rule, ef)
			}
		}
		c.need("vacuity", "calls to RunCapslock", n, 1)
		c.problems(e, "main")
	}
	if m := c.command("/cmd/capslock-git-diff"); m != nil {
		m.parsed()
		m.capslockArgs(rule, "capabilities")
		c.problems(m.e, "main")
	}
}

// capslockArgs checks that the revision tool passes an option of its own on
// to every run of capslock, unless it is empty.
func (m *command) capslockArgs(rule, option string) {
	c, e, b := m.c, m.e, m.e.bdd
	n := 0
	opt := e.flagTerm(option)
	if opt == nil {
		c.fail(rule, "-", "main", "the revision tool has no option %s", option)
		return
	}
	given := b.Not(e.Cond(e.Eq(opt, e.Const(`""`, nil))))
	for _, ef := range e.effects {
		if ef.kind != "call" || !isRun(ef.name) {
			continue
		}
		name, list := commandList(ef.args[0])
		if name != "capslock" {
			continue
		}
		n++
		good := true
		for _, a := range m.listAlts(list, ef.pc) {
			seen := 0
			for _, it := range a.items {
				ps := m.text(it.t)
				if it.spread {
					seen = 2
				}
				if len(ps) == 0 || ps[0].term != nil || !strings.HasPrefix(strings.TrimLeft(ps[0].text, "-"), option+"=") {
					continue
				}
				seen++
				if !(m.isText(it.t, "-"+option+"=", opt) || m.isText(it.t, "--"+option+"=", opt)) {
					seen = 2
				}
			}
			if seen > 1 || seen == 0 && b.And(a.c, given) != False {
				good = false
				c.failEff(rule, ef, "capslock is not run with the -%s option given to the revision tool: %s", option, m.cube(b.And(a.c, given)))
			}
		}
		if good {
			c.okEff(rule, ef)
		}
	}
	c.need("vacuity", "runs of capslock", n, 2)
}

func isRun(name string) bool {
	switch name {
	case "(*os/exec.Cmd).Run", "(*os/exec.Cmd).Output", "(*os/exec.Cmd).CombinedOutput", "(*os/exec.Cmd).Start":
		return true
	}
	return false
}

func isBoolTerm(t *Term) bool {
	return t.op == OBool || t.typ != nil && types.Identical(t.typ.Underlying(), types.Typ[types.Bool])
}
