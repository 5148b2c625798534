package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C15", "Every call in both main functions, in RunCapslock and in the loading and parsing functions whose result includes an "+
		"error is taken, and the condition 'it was made and failed' is followed through loops, variables and returns: it must "+
		"imply exit status 2, or an error result of the library function. The conditions of exit statuses 1 and 2 are compared "+
		"with the error values that may cause them.", ruleC15)
}

func ruleC15(c *Check) {
	// library functions return every error
	for _, r := range []struct{ pkg, name string }{
		{"/analyzer", "RunCapslock"}, {"/analyzer", "LoadPackages"}, {"/analyzer", "NewCapabilitySet"},
		{"/analyzer", "GranularityFromString"}, {"/interesting", "LoadClassifier"},
	} {
		s, f := c.sem(r.pkg, r.name, "/analyzer", "/interesting")
		if s == nil {
			continue
		}
		// condition that the function reports an error
		failed := False
		for _, x := range f.rets {
			v := x.vals[len(x.vals)-1]
			failed = s.e.bdd.Or(failed, s.e.bdd.And(x.st.pc, s.e.bdd.Not(s.e.Cond(s.e.Eq(v, s.e.Nil())))))
		}
		failed = s.e.bdd.Or(failed, s.exited())
		s.surfaced("errors returned", failed, nil, "an error result")
		if r.name != "RunCapslock" {
			for _, x := range f.rets {
				if s.e.bdd.And(x.st.pc, s.diffType(x.vals[len(x.vals)-1])) != False {
					c.fail("errors returned", c.pos(x.instr.Pos()), r.name, "the function can report a difference found")
				}
			}
		}
		c.problems(s.e, s.name)
	}
	n := c.stats["failures_followed"]
	c.need("vacuity", "failing operations in library functions", n, 8)
	c.capslockExit()
	c.need("vacuity", "failing operations in capslock", c.stats["failures_followed"]-n, 15)
	n = c.stats["failures_followed"]
	c.gitDiffExit()
	c.need("vacuity", "failing operations in capslock-git-diff", c.stats["failures_followed"]-n, 12)
}

// exited is the condition of panicking or exiting with an error.
func (s *Sem) exited() Node {
	e := s.e
	n := False
	for _, ef := range e.effects {
		if ef.kind == "panic" && len(ef.loops) == 0 {
			n = e.bdd.Or(n, ef.pc)
		}
	}
	return n
}

// harmless lists calls whose failure does not affect the result.
func (s *Sem) harmless(ef *Effect) string {
	e := s.e
	switch {
	case strings.HasPrefix(ef.name, "log.") || strings.HasPrefix(ef.name, "(*log."):
		return "diagnostics"
	case ef.name == "(*flag.FlagSet).Parse" && ef.args[0].op == ODeref && ef.args[0].args[0].op == OGlobal && ef.args[0].args[0].aux == "flag.CommandLine":
		return "exits by itself"
	case ef.name == "os.RemoveAll" || ef.name == "os.Remove":
		return "clean-up"
	case ef.name == "fmt.Errorf" || ef.name == "errors.New" || ef.name == "errors.Join" || ef.name == "errors.Unwrap":
		return "makes an error"
	case strings.HasSuffix(ef.name, ".Err") && strings.HasPrefix(ef.name, "(context."):
		return "context"
	}
	if w, ok := e.asWrite(ef); ok {
		if w.to == nil {
			return s.stdoutHarmless()
		}
		all := true
		for _, a := range e.alts(w.to) {
			x := a.t
			if x.op == OObj || x.op == OCall && strings.Contains(x.aux, "bufio.NewWriter") {
				continue // reported by Flush, or memory
			}
			if x.op == OCall && strings.Contains(x.aux, "tabwriter.NewWriter") {
				continue
			}
			if x.op == ODeref && x.args[0].op == OGlobal && x.args[0].aux == "os.Stderr" {
				continue
			}
			if x.op == ODeref && x.args[0].op == OGlobal && x.args[0].aux == "os.Stdout" && s.stdoutHarmless() != "" {
				continue
			}
			all = false
		}
		if all {
			return "in memory or diagnostics"
		}
	}
	if ef.name == "(*text/tabwriter.Writer).Flush" && s.stdoutHarmless() != "" {
		return s.stdoutHarmless()
	}
	if strings.HasSuffix(ef.name, ".Close") && len(ef.args) > 0 {
		for _, a := range e.alts(ef.args[0]) {
			if !(a.t.op == OExtract && strings.HasPrefix(a.t.args[0].aux, "os.Open")) {
				return ""
			}
		}
		return "closes a file that was read"
	}
	if ef.name == "(*os/exec.Cmd).Run" {
		if name, args := commandArgs(ef.args[0]); name == "git" && len(args) > 0 {
			if a, _ := unquote(args[0]); a == "log" {
				return "lists commits for information"
			}
		}
	}
	return ""
}

// stdoutHarmless: the revision tool's listing is printed as it goes.
func (s *Sem) stdoutHarmless() string {
	if strings.Contains(s.fn, "capslock-git-diff") {
		return "listing of the revision tool"
	}
	return ""
}

// surfaced checks that each failing call implies failed.
func (s *Sem) surfaced(rule string, failed Node, skip func(ef *Effect, n Node) Node, what string) {
	c, e := s.c, s.e
	for _, ef := range e.effects {
		err := e.errOf(ef)
		if err == nil || ef.init {
			if call, ok := ef.instr.(ssa.CallInstruction); ok && ef.kind == "call" && ef.res == nil && !ef.init {
				_ = call // a deferred call: its results cannot be used
			}
			continue
		}
		if s.harmless(ef) != "" {
			c.count("calls_without_influence", 1)
			continue
		}
		n := e.bdd.And(ef.pc, e.bdd.Not(e.Cond(e.Eq(err, e.Nil()))))
		if skip != nil {
			n = skip(ef, n)
		}
		c.count("failures_followed", 1)
		ns, l := s.raise(n, ef.loops)
		if l != nil {
			c.failEff(rule, ef, "a failure of %s here is lost when the loop at %s goes on", shortName(ef.name), c.pos(l.pos))
			continue
		}
		bad := False
		for _, x := range ns {
			bad = e.bdd.Or(bad, e.bdd.And(x, e.bdd.Not(failed), s.care(x, failed)))
		}
		if bad != False {
			c.failEff(rule, ef, "a failure of %s does not always lead to %s: %s", shortName(ef.name), what, s.cube(bad))
			continue
		}
		c.okEff(rule, ef)
	}
}

func shortName(n string) string {
	if i := strings.LastIndex(n, "/"); i >= 0 && !strings.HasPrefix(n, "(") {
		return n[i+1:]
	}
	return n
}

// diffType is the condition that a value is a DifferenceFoundError.
func (s *Sem) diffType(v *Term) Node {
	p := s.c.prog.byPkg[anaPkg]
	if p == nil || p.Types.Scope().Lookup("DifferenceFoundError") == nil {
		s.c.fail("anchor", "-", "DifferenceFoundError", "type not found")
		return False
	}
	return s.e.typeIs(v, p.Types.Scope().Lookup("DifferenceFoundError").Type())
}

// diffFound is the condition that an error says a difference was found.
func (s *Sem) diffFound(err *Term) Node {
	e := s.e
	n := False
	for _, a := range e.atoms {
		switch {
		case a.op == OTypeIs && a.args[0] == err && strings.HasSuffix(a.aux, "analyzer.DifferenceFoundError"):
			n = e.bdd.Or(n, e.Cond(a))
		case a.op == OCall && strings.HasPrefix(a.aux, "errors.As") && a.args[0] == err && a.args[1].typ != nil && strings.Contains(a.args[1].typ.String(), "DifferenceFoundError"):
			n = e.bdd.Or(n, e.Cond(a))
		}
	}
	return n
}

func (c *Check) capslockExit() {
	m := c.command("/cmd/capslock")
	if m == nil {
		return
	}
	defer c.problems(m.e, "main")
	m.parsed()
	e := m.e
	var runs, loads []*Effect
	for _, ef := range e.effects {
		switch ef.name {
		case anaPkg + ".RunCapslock":
			runs = append(runs, ef)
		case anaPkg + ".LoadPackages":
			loads = append(loads, ef)
		}
	}
	if !c.need("vacuity", "calls to RunCapslock", len(runs), 1) {
		return
	}
	found := False
	for _, r := range runs {
		found = e.bdd.Or(found, e.bdd.And(r.pc, m.diffFound(r.res)))
	}
	// no other function reports a difference (checked above)
	known := True
	for _, a := range e.atoms {
		if a.op == OTypeIs && strings.HasSuffix(a.aux, "analyzer.DifferenceFoundError") && libraryResult(a.args[0]) != anaPkg+".RunCapslock" {
			if n := libraryResult(a.args[0]); n != "" {
				known = e.bdd.And(known, e.bdd.Not(e.Cond(a)))
			}
		}
	}
	two := e.bdd.Or(m.code[2], e.bdd.Not(known))
	m.surfaced("exit status 2", two, func(ef *Effect, n Node) Node {
		switch ef.name {
		case anaPkg + ".RunCapslock":
			return e.bdd.And(n, e.bdd.Not(m.diffFound(ef.res)))
		case anaPkg + ".LoadPackages":
			// only the last attempt counts
			for _, l := range loads {
				if l.seq > ef.seq {
					n = e.bdd.And(n, e.bdd.Not(l.pc))
				}
			}
			// an attempt that led to another one that could not be made
			for _, t := range e.effects {
				if t.seq > ef.seq && t.name == "os.Getwd" {
					n = e.bdd.And(n, e.bdd.Not(t.pc))
				}
			}
		}
		return n
	}, "exit status 2")
	// exit status 1 means difference found
	if x := e.bdd.And(m.code[1], known, e.bdd.Not(found), m.care(m.code[1], found)); x != False || m.code[1] == False {
		c.fail("exit status 1", "-", "main", "exit status 1 is given although no difference was reported, or never: %s", m.cube(x))
	} else {
		c.ok("exit status 1", "main")
	}
	if x := e.bdd.And(found, e.bdd.Not(m.code[1]), e.bdd.Not(m.code[2]), m.care(found, m.code[1], m.code[2])); x != False {
		c.fail("exit status 1", "-", "main", "a difference found does not give exit status 1: %s", m.cube(x))
	} else {
		c.ok("difference found", "main")
	}
	// a difference found gives status 2 only if something failed afterwards
	late := e.bdd.And(found, m.code[2])
	for _, ef := range e.effects {
		if err := e.errOf(ef); err != nil && ef.seq > runs[0].seq {
			late = e.bdd.And(late, e.Cond(e.Eq(err, e.Nil())))
		}
	}
	if late != False {
		c.fail("exit status 1", "-", "main", "exit status 2 is given when a difference was found and nothing failed: %s", m.cube(late))
	}
	// the process exits with no other status
	for k := range m.code {
		if k < 0 || k > 2 {
			c.fail("exit status", "-", "main", "the command can exit with status %d", k)
		}
	}
	// success means that the analysis was made
	ran := False
	for _, r := range runs {
		ran = e.bdd.Or(ran, r.pc)
	}
	if x := m.without(ran); x != False {
		c.fail("exit status 0", "-", "main", "exit status 0 is given although no analysis was made: %s", m.cube(x))
	} else {
		c.ok("exit status 0", "main")
	}
	// builtin classification is only disabled together with a map
	dis, mp := e.flagTerm("disable_builtin"), e.flagTerm("capability_map")
	if dis != nil && mp != nil {
		bad := e.bdd.And(e.Cond(dis), e.Cond(e.Eq(mp, e.Const(`""`, nil))))
		if e.bdd.And(bad, ran) != False {
			c.fail("command line", "-", "main", "-disable_builtin without -capability_map is accepted")
		} else {
			c.ok("command line", "main")
		}
	}
}

// without is the condition of exit status 0 without what n stands for.
func (m *command) without(n Node) Node {
	x := m.e.bdd.And(m.code[0], m.e.bdd.Not(n), m.latches())
	return m.e.bdd.And(x, m.care(x, n))
}

func (c *Check) gitDiffExit() {
	m := c.command("/cmd/capslock-git-diff")
	if m == nil {
		return
	}
	defer c.problems(m.e, "main")
	m.parsed()
	e := m.e
	m.surfaced("exit status 2", m.code[2], nil, "exit status 2")
	for k := range m.code {
		if k < 0 || k > 2 {
			c.fail("exit status", "-", "main", "the command can exit with status %d", k)
		}
	}
	// a wrong number of arguments
	var args *Term
	for _, ef := range e.effects {
		if ef.name == "flag.Args" {
			args = ef.res
		}
	}
	if args == nil {
		c.fail("command line", "-", "main", "the arguments are not read")
		return
	}
	n := e.Len(args)
	wrong := e.bdd.And(e.bdd.Not(e.Cond(e.Eq(n, e.Int(2)))), e.bdd.Not(e.Cond(e.Eq(n, e.Int(3)))))
	if x := e.bdd.And(wrong, e.bdd.Not(m.code[2])); x != False {
		c.fail("command line", "-", "main", "a wrong number of arguments does not give exit status 2: %s", m.cube(x))
	} else {
		c.ok("command line", "main")
	}
}
