package main

import (
	"go/token"
	"go/types"
	"slices"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C31", "Every place where the code reads a field of, or calls a method on, a value that the libraries document as nil for some "+
		"programs (packages of wrappers, objects of function literals, origins, packages of builtins, receivers, types of expressions, "+
		"functions of graph nodes, modules, entries looked up in a map) must be reached only when the value has been found not to be nil; "+
		"a value got from a type assertion only when the assertion held. Assertions that cannot report failure must hold, "+
		"an element at a fixed position must exist, and a panic may be raised only when a library reports an error.", ruleC31)
}

// mayBeNil lists results and fields of the libraries used that are nil for
// some programs, by their documentation.
var mayBeNil = map[string]string{
	"(*golang.org/x/tools/go/ssa.Function).Package":        "wrappers, bound methods and instances have no package",
	"golang.org/x/tools/go/ssa.Function.Pkg":               "wrappers, bound methods and instances have no package",
	"(*golang.org/x/tools/go/ssa.Function).Object":         "function literals and synthetic functions have no object",
	"(*golang.org/x/tools/go/ssa.Function).Syntax":         "synthetic functions have no syntax",
	"(*golang.org/x/tools/go/ssa.Function).Parent":         "declared functions have no parent",
	"(*golang.org/x/tools/go/ssa.Function).Origin":         "functions that are not instances have no origin",
	"(*golang.org/x/tools/go/ssa.CallCommon).StaticCallee": "dynamic calls have no static callee",
	"(*golang.org/x/tools/go/ssa.Program).FuncValue":       "not every function has a value",
	"(*golang.org/x/tools/go/ssa.Program).Package":         "not every package is part of the program",
	"(*golang.org/x/tools/go/ssa.Program).ImportedPackage": "not every package is part of the program",
	"(*golang.org/x/tools/go/ssa.Package).Func":            "not every function is declared",
	"(go/types.Object).Pkg":                                "builtins have no package",
	"(*go/types.object).Pkg":                               "builtins have no package",
	"(go/types.Object).Parent":                             "methods and fields have no scope",
	"(*go/types.Info).TypeOf":                              "not every expression has a type",
	"(*go/types.Info).ObjectOf":                            "not every identifier denotes an object",
	"(*go/types.Info).PkgNameOf":                           "not every import has a name",
	"(*go/types.Signature).Recv":                           "functions have no receiver",
	"(*go/types.Scope).Lookup":                             "not every name is declared",
	"(*go/types.MethodSet).Lookup":                         "not every type has the method",
	"(*go/token.FileSet).File":                             "not every position is in a file",
	"golang.org/x/tools/go/types/typeutil.Callee":          "dynamic calls have no callee",
	"golang.org/x/tools/go/types/typeutil.StaticCallee":    "dynamic calls have no callee",
	"golang.org/x/tools/go/callgraph.Node.Func":            "the root node has no function",
	"golang.org/x/tools/go/callgraph.Edge.Site":            "synthetic edges have no call site",
	"golang.org/x/tools/go/packages.Package.Module":        "standard library packages have no module",
	"golang.org/x/tools/go/packages.Module.Replace":        "most modules are not replaced",
	"golang.org/x/tools/go/packages.Module.Error":          "most modules load without error",
	"go/ast.FuncDecl.Recv":                                 "functions have no receiver",
	"go/ast.FuncDecl.Body":                                 "functions without Go source have no body",
	"go/ast.FuncType.Results":                              "not every function has results",
	"go/ast.Ident.Obj":                                     "identifiers are not resolved",
}

func ruleC31(c *Check) {
	run := func(s *Sem, lookups bool) {
		if s == nil {
			return
		}
		(&crashes{s: s, lookups: lookups}).check()
		c.problems(s.e, s.name)
	}
	for i, s := range c.analyses() {
		if i == 0 {
			visitors(s)
		}
		run(s, true)
	}
	mode := func(name string) argFn {
		return func(e *Eval, p *ssa.Parameter) *Term {
			if isStringType(p.Type()) {
				return e.Const("\""+name+"\"", p.Type())
			}
			return nil
		}
	}
	for _, m := range []string{"", "v", "json", "m", "compare"} {
		c.opaque = map[string]bool{anaPkg + ".GetCapabilityInfo": true, anaPkg + ".GetCapabilityCounts": true, anaPkg + ".GetCapabilityStats": true}
		s, _ := c.semArgs("/analyzer", "RunCapslock", nil, mode(m), "/analyzer")
		c.opaque = nil
		run(s, true)
	}
	for _, filtered := range []bool{false, true} {
		s, _ := c.graphRun(filtered)
		run(s, true)
	}
	for _, pkg := range []string{"/cmd/capslock", "/cmd/capslock-git-diff"} {
		if m := c.command(pkg); m != nil {
			run(m.Sem, false)
		}
	}
	s, _ := c.sem("/interesting", "LoadClassifier", "/interesting")
	run(s, true)
	c.need("vacuity", "uses of values that may be nil", c.stats["nil_uses"], 500)
	c.need("vacuity", "uses of packages of functions", c.stats["use: wrappers, bound methods and instances have no package"], 50)
	c.need("vacuity", "uses of values from type assertions", c.stats["assertion_uses"], 50)
	c.need("vacuity", "elements at fixed positions", c.stats["fixed_elements"], 50)
	c.need("vacuity", "assertions that must hold", c.stats["must_assertions"], 3)
	c.need("vacuity", "explicit panics", c.stats["panics"], 5)
}

// visitors evaluates the methods that ast.Walk calls.
func visitors(s *Sem) {
	e, done := s.e, map[*ssa.Function]bool{}
	for _, ef := range append([]*Effect(nil), e.effects...) {
		if ef.name != "go/ast.Walk" {
			continue
		}
		fn := s.c.method((&unsafeScan{Sem: s}).visitorType(ef), "Visit")
		if fn == nil || done[fn] || len(fn.Blocks) == 0 || len(fn.Params) != 2 {
			continue
		}
		done[fn] = true
		n := len(e.effects)
		e.Run(fn, []*Term{e.mk(OParam, "visitor!", fn.Params[0].Type()), e.mk(OParam, "node!", fn.Params[1].Type())})
		e.effects = e.effects[:n]
	}
}

// crashes finds places that can fail at run time.
type crashes struct {
	s       *Sem
	lookups bool // entries looked up in maps count as well
}

func (t *crashes) check() {
	s, e, b := t.s, t.s.e, t.s.e.bdd
	c := s.c
	for _, ef := range e.effects {
		switch ef.kind {
		case "assert":
			c.count("must_assertions", 1)
			if signature(ef) {
				c.okEff("assertion", ef)
				continue
			}
			pc := b.And(s.normN(ef.pc, ef), b.Not(s.normN(e.Cond(ef.args[1]), ef)))
			if x := t.possible(pc, ef.loops); x != False {
				c.failEff("assertion", ef, "%s may not be of type %s, and nothing tests it: %s", s.short(ef.args[0]), ef.name, s.cube(x))
			} else {
				c.okEff("assertion", ef)
			}
		case "panic":
			c.count("panics", 1)
			if x := t.possible(t.noErrors(s.normN(ef.pc, ef)), ef.loops); x != False {
				c.failEff("panic", ef, "this panic is raised although no library reports an error: %s", s.cube(x))
			} else {
				c.okEff("panic", ef)
			}
		}
	}
	var ds []*Deref
	for _, d := range e.derefs {
		ds = append(ds, d)
	}
	sort.Slice(ds, func(i, j int) bool {
		if ds[i].seq != ds[j].seq {
			return ds[i].seq < ds[j].seq
		}
		if p, q := ds[i].instr.Pos(), ds[j].instr.Pos(); p != q {
			return p < q
		}
		return ds[i].frame.id < ds[j].frame.id
	})
	for _, d := range ds {
		if d.index != nil {
			t.inRange(d)
			continue
		}
		t.deref(d)
	}
}

// possible is the part of n that can come about in the given loops.
func (t *crashes) possible(n Node, loops []*Loop) Node {
	s, b := t.s, t.s.e.bdd
	for _, l := range loops {
		n = b.And(n, s.normN(l.cont, nil))
	}
	return b.And(n, s.care(n))
}

// noErrors is n under the assumption that no call reports an error.
func (t *crashes) noErrors(n Node) Node {
	e := t.s.e
	for _, v := range e.bdd.Support(n) {
		a := e.atoms[v]
		if a.op == OEq && e.isNil(a.args[1]) && isErrorType(a.args[0].typ) && (a.args[0].op == OExtract || a.args[0].op == OCall) {
			n = e.bdd.Cofactor(n, v, true)
		}
	}
	return n
}

func isErrorType(t types.Type) bool { return t != nil && t.String() == "error" }

// signature: the assertion is about the type of a method or function object,
// which is a signature always.
func signature(ef *Effect) bool {
	x := ef.args[0]
	for x.op == OCall && x.aux == "go/types.Unalias" {
		x = x.args[0]
	}
	if ef.name != "*go/types.Signature" || x.op != OCall {
		return false
	}
	switch x.aux {
	case "(*go/types.Selection).Type":
		y := x.args[0]
		return y.op == OCall && y.aux == "(*go/types.MethodSet).Lookup"
	case "(*go/types.object).Type", "(*go/types.Func).Type", "(*go/types.Func).Signature":
		return true
	}
	return false
}

// deref checks a use of a value that may be nil.
func (t *crashes) deref(d *Deref) {
	s, e, b := t.s, t.s.e, t.s.e.bdd
	c := s.c
	where, fn := c.pos(posAt(d)), d.frame.fn.Name()
	if d.ok != True {
		c.count("assertion_uses", 1)
		pc := b.And(s.normN(d.pc, nil), b.Not(s.normN(d.ok, nil)))
		if x := t.possible(pc, d.loops); x != False {
			c.fail("asserted", where, fn, "%s of %s is used although the type assertion it comes from may have failed: %s", d.what, s.short(d.base), s.cube(x))
		} else {
			c.ok("asserted", fn+" "+where)
		}
	}
	if strings.HasPrefix(d.what, "Get") && d.base.typ != nil && strings.HasPrefix(d.base.typ.String(), "*"+protoPath+".") {
		return // accessors of messages accept nil
	}
	pc0, base := t.firstTime(d)
	for _, a := range e.alts(base) {
		why, ok := t.nullable(a.t)
		if !ok {
			continue
		}
		c.count("nil_uses", 1)
		c.count("use: "+why, 1)
		pc := b.And(pc0, a.c, e.Cond(e.Eq(a.t, e.Nil())))
		root := false
		switch a.t.op {
		case OLookup:
			pc = b.And(pc, b.Not(e.Atom(e.mk(OIn, "", types.Typ[types.Bool], a.t.args[0], a.t.args[1]))))
		case OField:
			root = a.t.aux == "Func"
			for _, v := range b.Support(pc) {
				// something that is a type or a value has a type
				if x := e.atoms[v]; x.op == OCall && strings.HasPrefix(x.aux, "(go/types.TypeAndValue).Is") && x.args[0] == a.t.args[0] {
					pc = b.And(pc, b.Not(b.Var(v)))
				}
			}
		}
		pc = s.normN(pc, nil)
		for _, l := range d.loops {
			pc = b.And(pc, s.normN(l.cont, nil))
		}
		if !root {
			pc = b.And(pc, s.care(pc))
		}
		if pc != False {
			c.fail("nil", where, fn, "%s of %s is used, which may be nil (%s): %s", d.what, s.short(a.t), why, s.cube(pc))
			continue
		}
		c.ok("nil", fn+" "+where)
	}
}

// firstTime reads the values of variables as they are in the first iteration
// where d happens in no other.
func (t *crashes) firstTime(d *Deref) (Node, *Term) {
	e, b := t.s.e, t.s.e.bdd
	pc, base := d.pc, d.base
	for _, l := range d.loops {
		for lv, init := range l.init {
			back := l.back[lv]
			if back == nil || lv.typ == nil {
				continue
			}
			var first, later Node
			if isBoolType(lv.typ) {
				first = e.Cond(lv)
				if e.Cond(init) == False {
					first = b.Not(first)
				} else if e.Cond(init) != True {
					continue
				}
				later = e.Cond(back)
				if e.Cond(init) == False {
					later = b.Not(later)
				}
			} else if init.op == OConst || e.isNil(init) {
				first = e.Cond(e.Eq(lv, init))
				later = e.Cond(e.Eq(back, init))
				if stepOf(back, lv) > 0 {
					later = False // counting up
				}
			} else {
				continue
			}
			if later == False && b.And(pc, b.Not(first)) == False {
				return e.SubstNode(pc, l.init), e.Subst(base, l.init)
			}
		}
	}
	return pc, base
}

func posAt(d *Deref) token.Pos {
	if p := d.instr.Pos(); p.IsValid() {
		return p
	}
	return d.frame.fn.Pos()
}

// nullable says for which programs t is nil.
func (t *crashes) nullable(x *Term) (string, bool) {
	e := t.s.e
	if !(x.op == OField && x.aux == "Site") && t.rebuilt(x) {
		return "", false
	}
	switch x.op {
	case OCall:
		n, _, _ := strings.Cut(x.aux, "#")
		why, ok := mayBeNil[n]
		return why, ok
	case OField:
		typ := x.args[0].typ
		if typ == nil {
			return "", false
		}
		if p, ok := typ.Underlying().(*types.Pointer); ok {
			typ = p.Elem()
		}
		name := types.TypeString(typ, nil)
		if strings.HasPrefix(name, protoPath+".") && x.typ != nil {
			_, ok := x.typ.Underlying().(*types.Pointer)
			return "fields of messages are optional", ok && (x.aux == "Site" || t.read(x))
		}
		if name == "go/types.TypeAndValue" && x.aux == "Type" && x.args[0].op == OLookup {
			return "not every expression has a type", true
		}
		why, ok := mayBeNil[name+"."+x.aux]
		if ok && x.aux == "Func" {
			// only the root has none, and no edge leads there
			y := x.args[0]
			ok = y.op == OLookup && y.args[0].op == OField && y.args[0].aux == "Nodes" && y.args[1].op == OKey
		}
		return why, ok
	case OLookup:
		if k := x.args[1]; k.op == OKey && k.args[0] == x.args[0] {
			return "", false
		}
		return "not every key is in the map", t.lookups
	}
	if e.isNil(x) {
		return "it is nil", true
	}
	return "", false
}

// read: x belongs to a message that was read from somewhere, so that nothing is
// known of what it holds.
func (t *crashes) read(x *Term) bool {
	for len(x.args) > 0 {
		x = x.args[0]
	}
	if x.op != OObj {
		return false
	}
	for _, ef := range t.s.e.effects {
		if strings.Contains(ef.name, "Unmarshal") && slices.Contains(ef.args, x) {
			return true
		}
	}
	return false
}

// rebuilt: x belongs to an element of a list of the repository's own structures
// that a loop changes while going over it. What such an element was made from
// is not traced.
func (t *crashes) rebuilt(x *Term) bool {
	found := false
	t.s.e.walk(x, func(y *Term) bool {
		if y.op == OElem && y.args[0].op == OLV && y.typ != nil {
			typ := y.typ
			if p, ok := typ.Underlying().(*types.Pointer); ok {
				typ = p.Elem()
			}
			if n, ok := types.Unalias(typ).(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modulePath) {
				found = true
			}
		}
		return !found
	})
	if found {
		t.s.c.count("not_traced", 1)
	}
	return found
}

// inRange checks that an element at a fixed position exists.
func (t *crashes) inRange(d *Deref) {
	s, e, b := t.s, t.s.e, t.s.e.bdd
	c := s.c
	for _, a := range e.alts(d.base) {
		for _, i := range e.alts(d.index) {
			pc := b.And(d.pc, a.c, i.c)
			if pc == False || i.t.op != OConst || outside(a.t) {
				continue
			}
			n, err := strconv.Atoi(i.t.aux)
			if err != nil {
				continue
			}
			for _, l := range d.loops {
				pc = b.And(pc, l.cont)
			}
			c.count("fixed_elements", 1)
			size := e.Len(a.t)
			bad := False
			if size.op == OConst {
				if m, err := strconv.Atoi(size.aux); err != nil || m <= n {
					bad = t.noExits(pc, b.And(a.c, i.c))
				}
			} else {
				for k := least(a.t); k <= n; k++ {
					m := map[*Term]*Term{size: e.Int(k), e.Len(d.base): e.Int(k)}
					bad = b.Or(bad, t.noExits(e.SubstNode(pc, m), e.SubstNode(b.And(a.c, i.c), m)))
				}
			}
			if x := b.And(bad, s.care(bad)); x != False {
				c.fail("element", c.pos(posAt(d)), d.frame.fn.Name(), "element %d of %s is used, which may not exist: %s", n, s.short(a.t), s.cube(x))
			} else {
				c.ok("element", d.frame.fn.Name()+" "+c.pos(posAt(d)))
			}
		}
	}
}

// outside: a list some library keeps.
func outside(x *Term) bool {
	for x.op == ODeref || x.op == OFAddr || x.op == OField {
		x = x.args[0]
	}
	return x.op == OGlobal
}

// least is the number of elements a list always has.
func least(x *Term) int {
	if x.op == OCall && (strings.HasPrefix(x.aux, "strings.Split") || strings.HasPrefix(x.aux, "bytes.Split")) {
		return 1
	}
	return 0
}

// noExits drops ways out of loops that cannot be taken.
func (t *crashes) noExits(n, given Node) Node {
	e := t.s.e
	for _, v := range e.bdd.Support(n) {
		if a := e.atoms[v]; a.op == OExists && e.bdd.And(a.node, given) == False {
			n = e.bdd.Cofactor(n, v, false)
		}
	}
	return n
}
