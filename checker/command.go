package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	anaPkg = modulePath + "/analyzer"
	intPkg = modulePath + "/interesting"
)

// libraryCalls are the exported functions a command calls; they are checked
// on their own and kept as calls when a command is evaluated.
var libraryCalls = []string{
	anaPkg + ".RunCapslock", anaPkg + ".NewCapabilitySet", anaPkg + ".GranularityFromString", anaPkg + ".LoadPackages",
	anaPkg + ".GetQueriedPackages", anaPkg + ".GetClassifier", intPkg + ".LoadClassifier",
	intPkg + ".ClassifierExcludingUnanalyzed", intPkg + ".DefaultClassifier",
}

// command is the evaluation of a main function.
type command struct {
	*Sem
	f    *Frame
	pkg  string
	code map[int]Node // condition of each exit status, except returning from main

	// set by revisions: the maps of the two reports, and the condition under
	// which they are compared
	B, C *Term
	base Node
}

func (c *Check) command(pkg string) *command {
	c.opaque = map[string]bool{}
	for _, n := range libraryCalls {
		c.opaque[n] = true
	}
	s, f := c.sem(pkg, "main", pkg)
	c.opaque = nil
	if s == nil {
		return nil
	}
	m := &command{Sem: s, f: f, pkg: pkg, code: map[int]Node{0: False, 1: False, 2: False}}
	e := s.e
	for _, ef := range e.effects {
		k := -1
		switch {
		case ef.kind == "panic" || strings.HasPrefix(ef.name, "log.Panic") || strings.HasPrefix(ef.name, "(*log.Logger).Panic"):
			k = 2
		case ef.name == "os.Exit" && ef.args[0].op == OConst:
			k, _ = strconv.Atoi(ef.args[0].aux)
		case ef.name == "os.Exit":
			for _, a := range e.alts(ef.args[0]) {
				if n, err := strconv.Atoi(a.t.aux); a.t.op == OConst && err == nil {
					m.code[n] = e.bdd.Or(m.code[n], e.bdd.And(ef.pc, a.c))
				} else {
					c.failEff("exit status", ef, "undecided: the exit status is %s", e.str(a.t, 4))
				}
			}
		case strings.HasPrefix(ef.name, "log.Fatal") || strings.HasPrefix(ef.name, "(*log.Logger).Fatal"):
			k = 1
		}
		if k < 0 {
			continue
		}
		if len(ef.loops) > 0 {
			c.failEff("exit status", ef, "the program exits inside a loop")
			continue
		}
		m.code[k] = e.bdd.Or(m.code[k], ef.pc)
	}
	for _, r := range f.rets {
		m.code[0] = e.bdd.Or(m.code[0], r.st.pc)
	}
	return m
}

// isFlag reports whether t is the value of a command-line option.
func (e *Eval) isFlag(t *Term, name string) bool {
	n, ok := e.flagName(t)
	return ok && n == name
}

func (e *Eval) flagName(t *Term) (string, bool) {
	if t.op != ODeref {
		return "", false
	}
	p := t.args[0]
	if p.op == OCall && strings.HasPrefix(p.aux, "flag.") && len(p.args) == 3 {
		return unquote(p.args[0])
	}
	for _, ef := range append(e.initEffects, e.effects...) {
		if strings.HasPrefix(ef.name, "flag.") && strings.HasSuffix(strings.SplitN(ef.name, "#", 2)[0], "Var") && len(ef.args) == 4 && ef.args[0] == p {
			return unquote(ef.args[1])
		}
	}
	return "", false
}

// parsed checks that the command line is parsed before anything in it is read.
func (m *command) parsed() {
	c, e, b := m.c, m.e, m.e.bdd
	rule := "options parsed"
	var parse *Effect
	at := -1
	for i, ef := range e.effects {
		if (ef.name == "flag.Parse" || ef.name == "(*flag.FlagSet).Parse") && len(ef.loops) == 0 {
			parse, at = ef, i
			break
		}
	}
	if parse == nil {
		c.fail(rule, c.pos(m.f.fn.Pos()), "main", "the command line is never parsed")
		return
	}
	early := func(what string, pc Node, seq int, in ssa.Instruction, fn *ssa.Function) {
		c.count("option_reads", 1)
		if seq <= at || b.And(pc, b.Not(parse.pc)) != False {
			c.fail(rule, c.pos(in.Pos()), fn.Name(), "%s is read before the command line is parsed", what)
		}
	}
	for _, d := range e.derefs {
		if name, ok := e.flagName(e.mk(ODeref, "", elemType(d.base.typ), d.base)); ok {
			early("the option -"+name, d.pc, d.seq, d.instr, d.frame.fn)
		}
	}
	for i, ef := range e.effects {
		if ef.name == "flag.Args" || ef.name == "flag.Arg" || ef.name == "flag.NArg" {
			early("an argument", ef.pc, i, ef.instr, ef.frame.fn)
		}
	}
	c.okEff(rule, parse)
	c.need("vacuity", "reads of options", c.stats["option_reads"], 1)
}

// flagTerm finds the term of an option's value.
func (e *Eval) flagTerm(name string) *Term {
	for _, t := range e.list {
		if e.isFlag(t, name) {
			return t
		}
	}
	return nil
}

var errorType = types.Universe.Lookup("error").Type()

// errOf is the error a call returned, nil if it returns none.
func (e *Eval) errOf(ef *Effect) *Term {
	call, ok := ef.instr.(ssa.CallInstruction)
	if !ok || ef.kind != "call" && ef.kind != "invoke" && ef.kind != "dyncall" {
		return nil
	}
	r := call.Common().Signature().Results()
	n := r.Len()
	if n == 0 || !types.Identical(r.At(n-1).Type(), errorType) || ef.res == nil {
		return nil
	}
	if n == 1 {
		return ef.res
	}
	if ef.res.op == OTuple {
		if len(ef.res.args) == n {
			return ef.res.args[n-1]
		}
		return nil
	}
	return e.mk(OExtract, strconv.Itoa(n-1), errorType, ef.res)
}

// raise lifts a condition that holds in one iteration of some loops to the
// conditions it makes true after them: an early exit, or a variable that is
// set and stays set.
func (s *Sem) raise(n Node, loops []*Loop) ([]Node, *Loop) {
	e := s.e
	keep := s.latches()
	cur := []Node{n}
	for i := len(loops) - 1; i >= 0; i-- {
		l := loops[i]
		var next []Node
		for _, n := range cur {
			rest := n
			for _, x := range l.exits {
				if k := e.bdd.And(n, x.cond); k != False {
					next = append(next, e.bdd.And(k, e.Cond(x.atom)))
					rest = e.bdd.And(rest, e.bdd.Not(x.cond))
				}
			}
			if rest == False {
				continue
			}
			found := false
			for lv, back := range l.back {
				now, set, ok := s.truth(lv), s.truth(back), isFlagLike(lv)
				if !ok || e.bdd.And(rest, e.bdd.Not(set), keep) != False || e.bdd.And(now, e.bdd.Not(set), keep, l.pc) != False {
					continue
				}
				next = append(next, e.bdd.And(now, l.pc))
				found = true
			}
			if !found {
				return nil, l
			}
		}
		cur = next
	}
	return cur, nil
}

// latches is what is known of variables that loops only ever set: once set
// before a loop they are set in it and after it.
func (s *Sem) latches() Node {
	if s.held != False {
		return s.held
	}
	e := s.e
	s.held = True
	done := map[*Term]bool{}
	for range [3]int{} {
		for i := len(e.allLoops) - 1; i >= 0; i-- {
			l := e.allLoops[i]
			for lv, back := range l.back {
				init := l.init[lv]
				if done[lv] || init == nil || !isFlagLike(lv) {
					continue
				}
				now := s.truth(lv)
				if e.bdd.And(now, e.bdd.Not(s.truth(back)), s.held, l.pc) != False {
					continue
				}
				done[lv] = true
				s.held = e.bdd.And(s.held, e.bdd.Or(now, e.bdd.Not(s.truth(init)), e.bdd.Not(l.pc)))
			}
		}
	}
	return s.held
}

// isFlagLike: variables that can record that something happened.
func isFlagLike(lv *Term) bool {
	if lv.typ == nil {
		return false
	}
	switch t := lv.typ.Underlying().(type) {
	case *types.Basic:
		return t.Info()&types.IsBoolean != 0
	case *types.Interface, *types.Pointer, *types.Map, *types.Slice:
		return true
	}
	return false
}

// truth is the condition that a variable is set: true, or not nil.
func (s *Sem) truth(t *Term) Node {
	if isBoolTerm(t) {
		return s.e.Cond(t)
	}
	return s.e.bdd.Not(s.e.Cond(s.e.Eq(t, s.e.Nil())))
}

// commandList gives the name and the argument list of an exec.Command call.
func commandList(t *Term) (string, *Term) {
	if t == nil || t.op != OCall || !strings.HasPrefix(t.aux, "os/exec.Command") {
		return "", nil
	}
	a := t.args
	if strings.HasPrefix(t.aux, "os/exec.CommandContext") {
		a = a[1:]
	}
	name, _ := unquote(a[0])
	if len(a) > 1 {
		return name, a[1]
	}
	return name, nil
}

// commandArgs gives the name and arguments of an exec.Command call.
func commandArgs(t *Term) (string, []*Term) {
	name, l := commandList(t)
	if l != nil && l.op == OList {
		return name, l.args
	}
	return name, nil
}
