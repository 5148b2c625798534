package main

import (
	"go/constant"
	"go/types"
	"strconv"
	"strings"
)

func init() {
	register("C09", "In every entry point that builds a call graph, each walk over packages is examined as a graph traversal (it starts from "+
		"the packages given, goes on to every import of every package, and marks a package before it can be met again), each syntax visit "+
		"must lie in such a walk and reach every file whatever the package; the calls that build the program are followed by value "+
		"and by order: all rewriting before it, all packages and all functions into it, generic functions instantiated. The mode "+
		"given to packages.Load is evaluated as a constant.", ruleC09)
}

const (
	ssautilPkg = "golang.org/x/tools/go/ssa/ssautil"
	ssaPkg     = "golang.org/x/tools/go/ssa"
	vtaCall    = "golang.org/x/tools/go/callgraph/vta.CallGraph"
	chaCall    = "golang.org/x/tools/go/callgraph/cha.CallGraph"
	applyCall  = "golang.org/x/tools/go/ast/astutil.Apply"
	pkgsPkg    = "golang.org/x/tools/go/packages"
)

func ruleC09(c *Check) {
	for _, s := range c.analyses() {
		s.wholeClosure()
		s.wholeProgram()
		c.problems(s.e, s.name)
	}
	c.need("vacuity", "walks over packages", c.stats["walks"], 21)
	c.need("vacuity", "syntax visits", c.stats["visits"], 14)
	c.need("vacuity", "call graphs built", c.stats["graphs"], 7)
	c.loadMode()
}

// wholeClosure checks the walks over packages and the syntax visits in them.
func (s *Sem) wholeClosure() {
	c, e, b := s.c, s.e, s.e.bdd
	for _, cl := range s.closures() {
		c.count("walks", 1)
		cl.check("each package visited once", s.pkgsParam())
	}
	type visit struct {
		node  *Term
		loops []*Loop
		pc    Node
		pos   string
		fn    string
	}
	var visits []visit
	for _, ef := range e.effects {
		if ef.kind == "call" && (strings.HasPrefix(ef.name, walkCall)) {
			visits = append(visits, visit{ef.args[len(ef.args)-1], ef.loops, ef.pc, c.pos(posOf(ef)), ef.frame.fn.Name()})
		}
	}
	for _, l := range e.allLoops {
		if strings.HasPrefix(l.kind, applyCall) || strings.HasPrefix(l.kind, "go/ast.Inspect") {
			visits = append(visits, visit{l.container, l.parents, l.pc, c.pos(l.pos), l.frame.fn.Name()})
		}
	}
	for _, v := range visits {
		rule := "every file visited"
		if v.node == nil {
			c.fail(rule, v.pos, v.fn, "what is visited could not be determined")
			continue
		}
		nested := false
		for _, l := range v.loops {
			nested = nested || strings.HasPrefix(l.kind, applyCall) || strings.HasPrefix(l.kind, "go/ast.Inspect")
		}
		if nested {
			continue // looks at a part of what another visit reached
		}
		c.count("visits", 1)
		cl, rest := s.walkOf(v.loops)
		if cl == nil {
			c.fail(rule, v.pos, v.fn, "syntax is not visited in a walk over all packages and their imports")
			continue
		}
		var file *Loop
		good := true
		node := v.node
		if node.op == OElem && len(rest) > 0 && node.loop == rest[len(rest)-1] {
			if ct := node.args[0]; ct.op == OField && ct.aux == "Decls" && ct.args[0].op == OElem {
				node = ct.args[0]
			}
		}
		if node.op == OElem && node.args[0] == e.Field(cl.pkg, "Syntax", nil) {
			file = node.loop
		}
		for _, l := range rest {
			if l != file && !(v.node.op == OElem && l == v.node.loop) {
				good = false
			}
		}
		if file == nil || !good || !hasLoop(rest, file) {
			c.fail(rule, v.pos, v.fn, "what is visited is %s, not each file of the package or each of its declarations", s.short(v.node))
			continue
		}
		if ex := s.q.earlyExits(rest); len(ex) > 0 {
			c.fail(rule, v.pos, v.fn, "files can be missed: %s", shorten.Replace(ex[0]))
			continue
		}
		n, ok := cl.within(v.pc)
		care := b.And(cl.base, s.loopCare(n, rest, nil), s.care(n))
		miss := b.And(care, b.Not(n))
		// whether visits are made at all may depend on the options
		for _, x := range b.Support(miss) {
			t := e.atoms[x]
			if !e.contains(t, func(y *Term) bool { return y == cl.pkg || y == v.node || y == node }) {
				continue
			}
			ok = false
		}
		if !ok {
			c.fail(rule, v.pos, v.fn, "some files are not visited: %s", s.cube(miss))
			continue
		}
		c.ok(rule, v.pos+" "+v.fn)
	}
}

// wholeProgram checks the calls that build the call graph.
func (s *Sem) wholeProgram() {
	c, e, b := s.c, s.e, s.e.bdd
	rule := "call graph"
	var create, build, all, graph []*Effect
	last := -1 // the last change to the syntax
	var lastEf *Effect
	for _, ef := range e.effects {
		switch {
		case strings.HasPrefix(ef.name, ssautilPkg+".AllPackages"):
			create = append(create, ef)
		case strings.HasPrefix(ef.name, ssautilPkg+".Packages") || strings.HasPrefix(ef.name, ssautilPkg+".BuildPackage") || strings.HasPrefix(ef.name, ssaPkg+".NewProgram"):
			c.failEff(rule, ef, "the program is not created with all packages that are imported")
			return
		case ef.name == "(*"+ssaPkg+".Program).Build":
			build = append(build, ef)
		case ef.name == ssautilPkg+".AllFunctions":
			all = append(all, ef)
		case ef.name == vtaCall:
			graph = append(graph, ef)
		case strings.HasPrefix(ef.name, "(*golang.org/x/tools/go/ast/astutil.Cursor)."):
			switch strings.TrimPrefix(ef.name, "(*golang.org/x/tools/go/ast/astutil.Cursor).") {
			case "Replace", "Delete", "InsertBefore", "InsertAfter":
				c.count("rewrites", 1)
				last, lastEf = ef.seq, ef
			}
		}
	}
	if len(create) != 1 || len(build) == 0 || len(all) == 0 || len(graph) == 0 {
		c.fail(rule, "-", s.fn, "the program is created %d times, built %d times, its functions listed %d times and its call graph made %d times", len(create), len(build), len(all), len(graph))
		return
	}
	cr := create[0]
	if cr.args[0] != s.pkgsParam() {
		c.failEff(rule, cr, "the program is made of %s, not of the packages given", s.short(cr.args[0]))
		return
	}
	if last > cr.seq {
		c.failEff("rewriting first", lastEf, "statements are rewritten after the program was created from them")
	} else {
		c.okEff("rewriting first", cr)
	}
	if b.And(s.total, b.Not(cr.pc)) != False || len(cr.loops) > 0 {
		c.failEff(rule, cr, "the program is not always created: %s", s.cube(b.And(s.total, b.Not(cr.pc))))
	}
	generic, ok := c.bits(ssaPkg, "InstantiateGenerics")
	for _, a := range e.alts(cr.args[1]) {
		n, err := strconv.ParseInt(a.t.aux, 10, 64)
		if !ok || a.t.op != OConst || err != nil || n&generic == 0 {
			c.failEff("generics instantiated", cr, "the mode of the program is %s, without InstantiateGenerics", s.short(a.t))
			continue
		}
		c.okEff("generics instantiated", cr)
	}
	prog := cr.res
	isProg := func(t *Term) bool {
		return t != nil && t.op == OExtract && t.args[0] == prog && t.aux == "0"
	}
	var all1 *Effect
	for _, ef := range all {
		// the functions exist once the program was built
		built := False
		for _, bl := range build {
			if isProg(bl.args[0]) && bl.seq < ef.seq && len(bl.loops) == 0 {
				built = b.Or(built, bl.pc)
			}
		}
		if !isProg(ef.args[0]) {
			c.failEff(rule, ef, "the functions listed are those of %s", s.short(ef.args[0]))
			return
		}
		if d := b.And(ef.pc, b.Not(built)); d != False {
			c.failEff(rule, ef, "the functions are listed before the program was built")
			return
		}
		all1 = ef
	}
	c.count("graphs", 1)
	first := graph[0]
	var sound func(t *Term) bool
	allFns := func(t *Term) bool { return t == all1.res }
	sound = func(t *Term) bool {
		if e.isNil(t) {
			return true
		}
		if t.op == OCall && t.aux == chaCall && len(t.args) == 1 && isProg(t.args[0]) {
			return true
		}
		for _, g := range graph {
			if t == g.res {
				return allFns(g.args[0]) && sound(g.args[1])
			}
		}
		return libraryResult(t) == chaCall
	}
	for _, g := range graph {
		if !allFns(g.args[0]) {
			c.failEff(rule, g, "the call graph is made from %s, not from all functions of the program", s.short(g.args[0]))
			return
		}
		if !sound(g.args[1]) {
			c.failEff(rule, g, "the call graph starts from %s, which need not hold every possible call", s.short(g.args[1]))
			return
		}
	}
	for _, ef := range e.effects {
		if (ef.kind == "mapdel" || ef.kind == "clear" || ef.kind == "deletefunc") && ef.args[0] == all1.res {
			c.failEff(rule, ef, "functions are removed from the set of all functions")
			return
		}
		if ef.kind == "mapdel" && ef.args[0] == s.nodes || strings.HasPrefix(ef.name, "(*golang.org/x/tools/go/callgraph.Graph).DeleteS") || strings.HasPrefix(ef.name, "(*golang.org/x/tools/go/callgraph.Graph).DeleteN") {
			c.failEff(rule, ef, "nodes are removed from the call graph")
			return
		}
	}
	c.okEff(rule, first)
}

// bits is the value of an integer constant.
func (c *Check) bits(pkg, name string) (int64, bool) {
	for _, p := range c.prog.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if k, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok {
				return constant.Int64Val(constant.ToInt(k.Val()))
			}
		}
	}
	c.fail("anchor", "-", name, "constant %s.%s not found", pkg, name)
	return 0, false
}

// loadMode checks what is asked of packages.Load.
func (c *Check) loadMode() {
	s, _ := c.sem("/analyzer", "LoadPackages")
	if s == nil {
		return
	}
	e, b := s.e, s.e.bdd
	rule := "load mode"
	n := 0
	for _, ef := range e.effects {
		if ef.name != pkgsPkg+".Load" {
			continue
		}
		n++
		field := func(f string) *Term {
			for _, fv := range structFields(elemTypeOf(ef.args[0])) {
				if fv.Name() == f {
					return e.load(ef.mem, e.FAddr(ef.args[0], f, fv.Type()), fv.Type())
				}
			}
			return e.Nil()
		}
		for _, a := range e.alts(field("Mode")) {
			if b.And(a.c, ef.pc) == False {
				continue
			}
			mode, err := strconv.ParseInt(a.t.aux, 10, 64)
			if a.t.op != OConst || err != nil {
				c.failEff(rule, ef, "the mode is %s, not a constant", s.short(a.t))
				continue
			}
			for _, need := range []string{"NeedName", "NeedCompiledGoFiles", "NeedImports", "NeedDeps", "NeedTypes", "NeedSyntax", "NeedTypesInfo"} {
				if bit, ok := c.bits(pkgsPkg, need); !ok || mode&bit == 0 {
					c.failEff(rule, ef, "packages are loaded without %s", need)
				} else {
					c.okEff(rule, ef)
				}
			}
		}
		if v := field("ParseFile"); !e.isNil(v) {
			c.failEff(rule, ef, "files are parsed by %s, which can leave parts out", s.short(v))
		}
	}
	c.need("vacuity", "calls to packages.Load", n, 1)
	c.problems(e, "LoadPackages")
	// users of the library are told which mode to use
	if mode, ok := c.bits(anaPkg, "PackagesLoadModeNeeded"); ok {
		for _, need := range []string{"NeedName", "NeedCompiledGoFiles", "NeedImports", "NeedDeps", "NeedTypes", "NeedSyntax", "NeedTypesInfo"} {
			if bit, ok := c.bits(pkgsPkg, need); !ok || mode&bit == 0 {
				c.fail(rule, "-", "PackagesLoadModeNeeded", "the mode users are told to load packages with lacks %s", need)
			}
		}
	}
}
