package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const walkCall = "go/ast.Walk"

func ruleC05(c *Check) {
	for _, s := range c.analyses() {
		u := &unsafeScan{Sem: s, rule: "conversions from unsafe.Pointer"}
		u.check()
		s.scanSearched("CAPABILITY_UNSAFE_POINTER")
		c.problems(s.e, s.name)
	}
	c.need("vacuity", "scans for conversions", c.stats["scans"], 7)
	c.need("vacuity", "classes of conversion", c.stats["conversion_classes"], 1000)
	c.need("vacuity", "kinds of syntax node", c.stats["node_kinds"], 350)
}

// unsafeScan follows the capability from the set of functions reported back
// to the syntax visitor.
type unsafeScan struct {
	*Sem
	rule  string
	funcs *Term // the set of syntax nodes of functions
	inits *Term // the set of packages
	flag  *Term // the variable set for a conversion outside functions
	flagL *Loop
}

func (u *unsafeScan) check() {
	s, c, e := u.Sem, u.c, u.e
	b := e.bdd
	evs := s.findings("CAPABILITY_UNSAFE_POINTER")
	F := s.theFunction()
	fns := s.allFns()
	if len(evs) == 0 || fns == nil || fns.op != OCall || len(fns.args) == 0 {
		c.fail(u.rule, "-", s.fn, "no function is given the capability for converting from unsafe.Pointer")
		return
	}
	prog := fns.args[0]
	byNode, byInit := False, False
	care := s.scanCare()
	var where *Effect
	var initEvents []Event
	for _, x := range evs {
		if b.And(x.pc, b.Not(s.disableBuiltin())) == False {
			continue
		}
		if y, rest, ok := s.perFunction(x); ok && len(rest) == 0 && y.terms[0] == s.nodeOf(F) {
			if !s.complete(u.rule, x, x.loops) {
				return
			}
			byNode = b.Or(byNode, y.pc)
			where = x.eff
			continue
		}
		// the initialisation of a package
		pk, why := u.initOf(x.terms[0], prog)
		if pk == nil {
			c.failEff(u.rule, x.eff, "%s is given this capability: %s", s.short(x.terms[0]), why)
			return
		}
		icare := s.scanCareOf(x.terms[0].args[1])
		if pk.op == OElem && pk.args[0].op == OCall && strings.HasSuffix(pk.args[0].aux, "ssa.Program).AllPackages") {
			if pk.args[0].args[0] != prog || len(x.loops) != 1 || x.loops[0] != pk.loop {
				c.failEff(u.rule, x.eff, "package initialisation is not looked for in all packages of the program")
				return
			}
			if !s.complete(u.rule, x, x.loops) {
				return
			}
			I := u.memberKey(x.pc, e.Field(pk, "Pkg", nil))
			if I == nil || u.inits != nil && I != u.inits {
				c.failEff(u.rule, x.eff, "package initialisation is not chosen by a set of packages: %s", s.cube(x.pc))
				return
			}
			u.inits = I
			in := e.Atom(e.mk(OIn, "", types.Typ[types.Bool], I, e.Field(pk, "Pkg", nil)))
			byInit = b.Or(byInit, x.pc)
			if same, why := s.same(x.pc, in, icare); !same {
				c.failEff(u.rule, x.eff, "which package initialisation is reported differs from \"the package has such a conversion in a variable's initial value\": %s", why)
				return
			}
			continue
		}
		x.pc = b.Restrict(x.pc, icare)
		initEvents = append(initEvents, x)
		byInit = True
	}
	if where == nil || byInit == False {
		c.fail(u.rule, "-", s.fn, "functions or package initialisation are never given this capability")
		return
	}
	syn := e.mk(OCall, "(*golang.org/x/tools/go/ssa.Function).Syntax", nil, F)
	u.funcs = u.memberKey(byNode, syn)
	if u.funcs == nil {
		c.failEff(u.rule, where, "which functions are reported is not chosen by a set of syntax nodes: %s", s.cube(byNode))
		return
	}
	in := e.Atom(e.mk(OIn, "", types.Typ[types.Bool], u.funcs, syn))
	if same, why := s.same(byNode, in, care); !same {
		c.failEff(u.rule, where, "which functions are reported differs from \"the function's syntax has such a conversion\": %s", why)
		return
	}
	c.okEff(u.rule, where)
	c.count("scans", 1)
	if ws := s.q.mi.sets[u.funcs]; len(ws) > 0 {
		c.failEff(u.rule, ws[0], "the set of functions is filled outside the syntax visitor")
		return
	}
	for _, m := range []*Term{u.funcs, u.inits} {
		if m != nil && len(s.q.mi.dels[m]) > 0 {
			c.failEff(u.rule, s.q.mi.dels[m][0], "findings are removed")
			return
		}
	}
	// the walk
	var walk *Effect
	for _, ef := range e.effects {
		if strings.HasPrefix(ef.name, walkCall) && ef.kind == "call" && u.fieldWith(ef, u.funcs) != "" {
			if walk != nil {
				c.failEff(u.rule, ef, "syntax is visited in two places")
				return
			}
			walk = ef
		}
	}
	if walk == nil {
		c.fail(u.rule, "-", s.fn, "no syntax visitor fills the set of functions")
		return
	}
	cl, rest := s.walkOf(walk.loops)
	if cl == nil {
		c.failEff("packages scanned", walk, "syntax is not visited in a walk over all packages and their imports")
		return
	}
	if !cl.check("packages scanned", s.pkgsParam()) {
		return
	}
	file := walk.args[len(walk.args)-1]
	if len(rest) != 1 || rest[0].container != e.Field(cl.pkg, "Syntax", nil) || file.op != OElem || file.loop != rest[0] {
		c.failEff("files scanned", walk, "the syntax visited is %s, not each file of the package", s.short(file))
		return
	}
	if ex := s.q.earlyExits(rest); len(ex) > 0 {
		c.failEff("files scanned", walk, "files can be missed: %s", shorten.Replace(ex[0]))
		return
	}
	n, ok := cl.within(walk.pc)
	if same, why := s.same(n, True, b.And(b.Not(s.disableBuiltin()), cl.base, s.loopCare(n, rest, nil))); !ok || !same {
		c.failEff("files scanned", walk, "some files are not visited: %s", why)
		return
	}
	c.okEff("files scanned", walk)
	// the packages whose initialisation is reported
	if u.inits != nil {
		for _, ef := range s.q.mi.sets[u.inits] {
			initEvents = append(initEvents, s.q.event(ef, ef.args[1]))
		}
	}
	for _, x := range initEvents {
		icl, irest := s.walkOf(x.loops)
		if icl != cl || len(irest) > 0 {
			c.failEff(u.rule, x.eff, "package initialisation is not decided in the walk over packages")
			return
		}
		t := x.terms[0]
		if x.eff.kind == "mapset" && x.eff.args[0] == u.inits {
			if t != e.Field(cl.pkg, "Types", nil) {
				c.failEff(u.rule, x.eff, "%s is recorded, not the package at hand", s.short(t))
				return
			}
		} else if pk, _ := u.initOf(t, prog); pk == nil || pk.op != OCall || pk.args[1] != e.Field(cl.pkg, "Types", nil) {
			c.failEff(u.rule, x.eff, "%s is reported, not the package at hand", s.short(t))
			return
		}
		n, ok := cl.within(x.pc)
		n = b.Restrict(n, b.And(b.Not(s.disableBuiltin()), cl.base))
		vs := b.Support(n)
		if !ok || len(vs) != 1 || n != b.Var(vs[0]) || e.atoms[vs[0]].op != OLV {
			c.failEff(u.rule, x.eff, "whether package initialisation is reported does not depend on what the visitor found alone: %s", s.cube(n))
			return
		}
		lv := e.atoms[vs[0]]
		back := lv.loop.back[lv]
		if lv.loop != rest[0] || e.Cond(orNil(e, lv.loop.init[lv])) != False || back == nil || back.op != OMod || !strings.HasPrefix(back.aux, walkCall) && !strings.HasPrefix(back.aux, "mod:"+walkCall) {
			c.failEff(u.rule, x.eff, "the variable that records a conversion in an initial value is not set by the visits to the files of this package alone: %s", s.short(orNil(e, back)))
			return
		}
		if u.flag != nil && u.flag != back.args[0] {
			c.failEff(u.rule, x.eff, "two variables record conversions in initial values")
			return
		}
		u.flag = back.args[0]
		if was := e.load(walk.mem, u.flag, nil); was != lv {
			c.failEff(u.rule, x.eff, "what was found in other files is forgotten: the variable is %s when a file is visited", s.short(was))
			return
		}
		c.okEff(u.rule, x.eff)
	}
	if u.flag == nil && u.inits == nil {
		c.fail(u.rule, "-", s.fn, "no package initialisation is reported")
		return
	}
	u.visitor(walk, cl)
}

// initOf recognises the node of a package's initialisation and gives the SSA
// package.
func (u *unsafeScan) initOf(node, prog *Term) (*Term, string) {
	if node.op != OLookup || node.args[0] != u.nodes {
		return nil, "it is not a node of the call graph found by function"
	}
	g := node.args[1]
	if g.op != OCall || !strings.HasSuffix(g.aux, "ssa.Package).Func") || g.args[1] != u.e.Str("init") {
		return nil, "it is not the initialisation of a package"
	}
	pk := g.args[0]
	if pk.op == OCall && strings.HasSuffix(pk.aux, "ssa.Program).Package") && pk.args[0] != prog {
		return nil, "it belongs to another program"
	}
	return pk, ""
}

// memberKey finds the set in which a condition looks for the key.
func (u *unsafeScan) memberKey(n Node, key *Term) *Term {
	for _, v := range u.e.bdd.Support(n) {
		if m, k, ok := u.q.member(u.e.atoms[v]); ok && m.op == OObj && sameCall(k, key) {
			return m
		}
	}
	return nil
}

// sameCall compares terms, ignoring the number of the call.
func sameCall(a, b *Term) bool {
	return a == b || a.op == OCall && b.op == OCall && a.aux == b.aux && len(a.args) == 1 && len(b.args) == 1 && a.args[0] == b.args[0]
}

// pkgsParam is the parameter holding the packages given.
func (s *Sem) pkgsParam() *Term {
	for _, t := range s.e.list {
		if t.op == OParam && t.typ != nil {
			if sl, ok := t.typ.Underlying().(*types.Slice); ok && isPackagePtr(sl.Elem()) {
				return t
			}
		}
	}
	return nil
}

// visitorStruct is the struct type behind a visitor.
func visitorStruct(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, _ := t.Underlying().(*types.Struct)
	return st
}

func (u *unsafeScan) visitorType(walk *Effect) types.Type {
	v := walk.args[0]
	if call, ok := walk.instr.(ssa.CallInstruction); ok {
		if mi, ok := call.Common().Args[0].(*ssa.MakeInterface); ok {
			return mi.X.Type()
		}
	}
	if v.op == OObj {
		return v.obj.(*ObjInfo).instr.(ssa.Value).Type()
	}
	return v.typ
}

// fieldOf reads a field of a visitor.
func (u *unsafeScan) fieldOf(m *Mem, v *Term, f *types.Var) *Term {
	if isAddr(v) {
		return u.e.load(m, u.e.FAddr(v, f.Name(), f.Type()), f.Type())
	}
	return u.e.Field(v, f.Name(), f.Type())
}

func (u *unsafeScan) fieldWith(walk *Effect, val *Term) string {
	st := visitorStruct(u.visitorType(walk))
	if st == nil {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		if u.fieldOf(walk.mem, walk.args[0], st.Field(i)) == val {
			return st.Field(i).Name()
		}
	}
	return ""
}

var convClasses = wrapped([]string{"int", "string", "uintptr", "unsafe.Pointer", "pointer:int", "slice:int", "func", "interface", "struct:unsafe.Pointer"}, 2, "alias", "defined")

// visitor decides what the visitor does with each node.
func (u *unsafeScan) visitor(walk *Effect, cl *closure) {
	s, c, e := u.Sem, u.c, u.e
	b := e.bdd
	rule := "visitor"
	vt := u.visitorType(walk)
	st := visitorStruct(vt)
	fn := c.method(vt, "Visit")
	if st == nil || fn == nil || len(fn.Blocks) == 0 {
		c.failEff(rule, walk, "the visitor's method is not known")
		return
	}
	v := e.mk(OParam, "visitor!", fn.Params[0].Type())
	node := e.mk(OParam, "node!", fn.Params[1].Type())
	n0 := len(e.effects)
	f, _ := e.Run(fn, []*Term{v, node})
	effs := append([]*Effect(nil), e.effects[n0:]...)
	e.effects = e.effects[:n0]
	name := fn.Name()
	where := c.pos(fn.Pos())

	// the fields of every visitor in the walk are those of the first one,
	// except the current function
	m := map[*Term]*Term{}
	vals := map[string]*Term{}
	for i := 0; i < st.NumFields(); i++ {
		fl := st.Field(i)
		vals[fl.Name()] = u.fieldOf(walk.mem, walk.args[0], fl)
		m[e.Field(v, fl.Name(), fl.Type())] = vals[fl.Name()]
	}
	cur := ""
	for _, ef := range effs {
		if ef.kind == "mapset" && e.Subst(ef.args[0], m) == u.funcs {
			k := ef.args[1]
			if k.op != OField || k.args[0] != v || cur != "" && cur != k.aux {
				c.failEff(rule, ef, "%s is recorded, not the innermost function", s.short(k))
				return
			}
			cur = k.aux
		}
	}
	if cur == "" {
		c.fail(rule, where, name, "no function is recorded")
		return
	}
	if !e.isNil(vals[cur]) {
		c.failEff(rule, walk, "the walk starts inside a function: %s", s.short(vals[cur]))
		return
	}
	var curT *Term
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == cur {
			curT = e.Field(v, cur, st.Field(i).Type())
		}
	}
	delete(m, curT)
	sub := func(n Node) Node { return s.normN(e.SubstNode(n, m), nil) }
	type mark struct {
		pc   Node
		init bool
		eff  *Effect
	}
	var marks []mark
	for _, ef := range effs {
		switch ef.kind {
		case "mapset":
			t := e.Subst(ef.args[0], m)
			switch {
			case t == u.funcs:
				marks = append(marks, mark{sub(ef.pc), false, ef})
			case t == u.inits && u.inits != nil:
				if e.Subst(ef.args[1], m) != e.Field(cl.pkg, "Types", nil) {
					c.failEff(rule, ef, "%s is recorded, not the package at hand", s.short(ef.args[1]))
					return
				}
				marks = append(marks, mark{sub(ef.pc), true, ef})
			}
		case "mapdel", "clear":
			c.failEff(rule, ef, "the visitor removes findings")
			return
		case "store", "fieldset":
			t := e.Subst(ef.args[0], m)
			if t == u.flag {
				if e.Cond(ef.args[1]) != True {
					c.failEff(rule, ef, "the variable that records a conversion in an initial value is set to %s", s.short(ef.args[1]))
					return
				}
				marks = append(marks, mark{sub(ef.pc), true, ef})
			} else if r := rootOf(ef.args[0]); r == v || r.op == OGlobal {
				c.failEff(rule, ef, "the visitor changes %s, so nodes visited later are treated differently", s.short(ef.args[0]))
				return
			}
		}
	}
	for _, mk := range marks {
		if len(mk.eff.loops) > 0 {
			c.failEff(rule, mk.eff, "findings are recorded inside a loop")
			return
		}
	}
	// node kinds
	type conv struct {
		isType      bool
		nargs       int
		target, arg string
	}
	decideFor := func(kind types.Type, cv conv, inFunc bool) *shapes {
		sh := &shapes{e: e, env: map[*Term]string{}}
		key := func(k *Term) string {
			for k.op == OCall && strings.HasSuffix(k.aux, ".Unparen") {
				k = k.args[0]
			}
			switch {
			case k == e.Field(node, "Fun", nil):
				return "target"
			case k.op == OIndex && k.args[0] == e.Field(node, "Args", nil) && k.args[1] == e.Int(0):
				return "arg"
			}
			return ""
		}
		info := e.Field(cl.pkg, "TypesInfo", nil)
		typesOf := func(t *Term) string {
			if t.op == OLookup && t.args[0] == e.Field(info, "Types", nil) {
				return key(t.args[1])
			}
			return ""
		}
		sh.term = func(t *Term) (string, bool) {
			which := ""
			if t.op == OField && t.aux == "Type" {
				which = typesOf(t.args[0])
			}
			if t.op == OCall && strings.HasSuffix(t.aux, "types.Info).TypeOf") && t.args[0] == info {
				which = key(t.args[1])
			}
			switch which {
			case "target":
				return cv.target, true
			case "arg":
				return cv.arg, true
			}
			return "", false
		}
		sh.atom = func(a *Term) (bool, bool) {
			if mm, k, ok := s.q.member(a); ok && mm == e.Field(info, "Types", nil) && key(k) != "" {
				return true, true
			}
			switch a.op {
			case OTypeIs:
				if T, ok := a.obj.(types.Type); ok && a.args[0] == node {
					if types.IsInterface(T) {
						return types.Implements(kind, T.Underlying().(*types.Interface)), true
					}
					return types.Identical(T, kind), true
				}
				if T, ok := a.obj.(types.Type); ok && a.args[0] == curT && types.IsInterface(T) {
					return inFunc, true
				}
			case OEq:
				if e.isNil(a.args[1]) || e.isNil(a.args[0]) {
					x := a.args[0]
					if e.isNil(x) {
						x = a.args[1]
					}
					switch x {
					case node:
						return false, true
					case curT:
						return !inFunc, true
					}
				}
				x, y := a.args[0], a.args[1]
				if x.op == OConst {
					x, y = y, x
				}
				if x == e.Len(e.Field(node, "Args", nil)) && y.op == OConst {
					return y == e.Int(cv.nargs), true
				}
			case OLt:
				val := func(t *Term) (int, bool) {
					if t == e.Len(e.Field(node, "Args", nil)) {
						return cv.nargs, true
					}
					return intConst(t)
				}
				x, ok1 := val(a.args[0])
				y, ok2 := val(a.args[1])
				if ok1 && ok2 {
					return x < y, true
				}
			case OCall:
				switch which := ""; {
				case strings.HasSuffix(a.aux, "types.TypeAndValue).IsType"):
					which = typesOf(a.args[0])
					return which == "target" && cv.isType, which != ""
				}
			}
			return false, false
		}
		return sh
	}
	ask := func(sh *shapes, n Node, what string, ef *Effect) (bool, bool) {
		ok, unk := sh.decide(n)
		if unk != nil {
			if ef != nil {
				c.failEff(rule, ef, "%s depends on %s", what, s.short(unk))
			} else {
				c.fail(rule, where, name, "%s depends on %s", what, s.short(unk))
			}
			return false, false
		}
		return ok, true
	}
	marked := func(sh *shapes) (fun, init, ok bool) {
		for _, mk := range marks {
			got, ok := ask(sh, mk.pc, "whether a finding is recorded", mk.eff)
			if !ok {
				return false, false, false
			}
			if got && mk.init {
				init = true
			} else if got {
				fun = true
			}
		}
		return fun, init, true
	}
	kinds := nodeKinds(fn.Params[1].Type())
	if len(kinds) < 50 {
		c.fail("anchor", where, name, "only %d kinds of syntax node are known", len(kinds))
		return
	}
	// what each visit returns
	for _, kind := range kinds {
		kn := types.TypeString(kind, nil)
		isFunc := kn == "*go/ast.FuncDecl" || kn == "*go/ast.FuncLit"
		cvs := []conv{{false, 1, "func", "unsafe.Pointer"}}
		if kn == "*go/ast.CallExpr" {
			cvs = append(cvs, conv{false, 0, "func", "int"}, conv{true, 1, "pointer:int", "unsafe.Pointer"}, conv{true, 1, "uintptr", "unsafe.Pointer"}, conv{true, 1, "int", "int"})
		}
		c.count("node_kinds", 1)
		for _, cv := range cvs {
			for _, inFunc := range []bool{false, true} {
				sh := decideFor(kind, cv, inFunc)
				if kn != "*go/ast.CallExpr" {
					fun, init, ok := marked(sh)
					if !ok {
						return
					}
					if fun || init {
						c.fail(rule, where, name, "a node of type %s is recorded as a conversion", kn)
						return
					}
				}
				n := 0
				for _, r := range f.rets {
					took, ok := ask(sh, sub(r.st.pc), "what is returned", nil)
					if !ok {
						return
					}
					if !took {
						continue
					}
					for _, a := range e.alts(r.vals[0]) {
						took, ok := ask(sh, sub(a.c), "what is returned", nil)
						if !ok {
							return
						}
						if !took {
							continue
						}
						n++
						t := a.t
						if e.isNil(t) {
							c.fail(rule, c.pos(r.instr.Pos()), name, "what is below a node of type %s is not visited", kn)
							return
						}
						for i := 0; i < st.NumFields(); i++ {
							fl := st.Field(i)
							got := e.Subst(u.fieldOf(r.st.mem, t, fl), m)
							want := vals[fl.Name()]
							if fl.Name() == cur {
								want = curT
								if isFunc {
									want = node
								}
							}
							if got != want {
								c.fail(rule, c.pos(r.instr.Pos()), name, "below a node of type %s the visitor's field %s is %s, expected %s", kn, fl.Name(), s.short(got), s.short(want))
								return
							}
						}
					}
				}
				if n != 1 {
					c.fail(rule, where, name, "what is returned for a node of type %s is not known", kn)
					return
				}
			}
		}
	}
	// which calls are recorded
	var call types.Type
	for _, k := range kinds {
		if types.TypeString(k, nil) == "*go/ast.CallExpr" {
			call = k
		}
	}
	for _, target := range convClasses {
		for _, arg := range convClasses {
			for _, isType := range []bool{true, false} {
				for _, inFunc := range []bool{true, false} {
					nargs := []int{1}
					if !isType {
						if strings.Contains(target, "alias") || strings.Contains(arg, "alias") {
							continue
						}
						nargs = []int{0, 1, 2}
					}
					for _, na := range nargs {
						sh := decideFor(call, conv{isType, na, target, arg}, inFunc)
						fun, init, ok := marked(sh)
						if !ok {
							return
						}
						want := isType && under(arg) == "unsafe.Pointer" && under(target) != "uintptr"
						if fun != (want && inFunc) || init != (want && !inFunc) {
							what := "a conversion from " + arg + " to " + target
							if !isType {
								what = "a call with an argument of type " + arg
							}
							place := "outside functions"
							if inFunc {
								place = "in a function"
							}
							c.failEff(rule, marks[0].eff, "%s %s: recorded for the function: %v, for package initialisation: %v", what, place, fun, init)
							return
						}
						c.count("conversion_classes", 1)
					}
				}
			}
		}
	}
	_ = b
	c.ok(rule, where+" "+name)
}

// rootOf is the object an address is in.
func rootOf(t *Term) *Term {
	for t.op == OFAddr || t.op == OIAddr {
		t = t.args[0]
	}
	return t
}

// nodeKinds lists the types of syntax nodes.
func nodeKinds(node types.Type) []types.Type {
	n, ok := types.Unalias(node).(*types.Named)
	if !ok {
		return nil
	}
	iface, ok := n.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []types.Type
	sc := n.Obj().Pkg().Scope()
	for _, name := range sc.Names() {
		if tn, ok := sc.Lookup(name).(*types.TypeName); ok && !types.IsInterface(tn.Type()) {
			if p := types.NewPointer(tn.Type()); types.Implements(p, iface) {
				out = append(out, p)
			}
		}
	}
	return out
}

// method finds a method of a type of the analyzer package.
func (c *Check) method(t types.Type, name string) *ssa.Function {
	p := c.prog.ssa[anaPkg]
	if p == nil {
		return nil
	}
	sel := types.NewMethodSet(t).Lookup(p.Pkg, name)
	if sel == nil {
		return nil
	}
	return p.Prog.MethodValue(sel)
}

func intConst(t *Term) (int, bool) {
	if t.op != OConst {
		return 0, false
	}
	n, err := strconv.Atoi(t.aux)
	return n, err == nil
}
