package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"
)

func init() {
	register("C08", "Every replacement of a syntax node is taken with the condition under which it happens (tables of functions are taken entry by "+
		"entry) and with the tree it puts there. On every path of the condition the node must be a call statement to a function that is "+
		"known to do nothing but call its argument, the new statement must call exactly that argument (or Less, Swap and Len of the value "+
		"sorted), and every expression left out must have been found free of calls by a test that is itself checked for every kind of "+
		"expression. The callbacks must never stop the scan, and no other part of the syntax tree may be changed.", ruleC08)
}

const cursorType = "(*golang.org/x/tools/go/ast/astutil.Cursor)."

// directCallers are the functions that do nothing of interest but call their
// argument.
var directCallers = []struct {
	pkg, typ, name string
	arg, args      int
}{
	{"sync", "Once", "Do", 0, 1},
	{"sort", "", "Slice", 1, 2},
	{"sort", "", "SliceStable", 1, 2},
	{"sort", "", "SliceIsSorted", 1, 2},
	{"sort", "", "Search", 1, 2},
	{"sort", "", "Find", 1, 2},
	{"sort", "", "Sort", -1, 1},
	{"sort", "", "Stable", -1, 1},
	{"sort", "", "IsSorted", -1, 1},
}

func ruleC08(c *Check) {
	for _, name := range []string{"GetCapabilityInfo", "GetCapabilityStats", "GetCapabilityCounts", "CapabilityGraph"} {
		s, _ := c.sem("/analyzer", name, "/analyzer")
		if s == nil {
			continue
		}
		r := &rewriting{s: s, tests: map[string]bool{}}
		r.replacements()
		r.untouched()
		s.wholeClosure()
		c.problems(s.e, s.name)
	}
	c.need("vacuity", "replacements of syntax", c.stats["replacements"], 8)
	c.need("vacuity", "functions rewritten", c.stats["rewritten"], 24)
	c.need("vacuity", "kinds of expression", c.stats["expression_kinds"], 4*14)
}

type rewriting struct {
	s     *Sem
	tests map[string]bool // functions that look for calls, and whether they are right
}

// untouched checks the callbacks and that nothing else changes the syntax.
func (r *rewriting) untouched() {
	s, c, e, b := r.s, r.s.c, r.s.e, r.s.e.bdd
	for _, l := range e.allLoops {
		if !strings.HasPrefix(l.kind, applyCall) {
			continue
		}
		bad := False
		if l.ret != nil {
			bad = b.And(l.pc, b.Not(e.Cond(l.ret)), s.care(e.Cond(l.ret)))
		}
		if l.ret == nil || bad != False {
			c.fail("scan goes on", c.pos(l.pos), l.frame.fn.Name(), "the callback stops the scan when %s", s.cube(bad))
			continue
		}
		c.ok("scan goes on", c.pos(l.pos)+" "+l.kind)
	}
	for _, ef := range e.effects {
		switch ef.kind {
		case "call":
			if ef.name == cursorType+"Delete" {
				c.failEff("syntax untouched", ef, "a syntax node is removed")
			}
		case "fieldset", "store":
			base := ef.args[0]
			in := false
			for base.op == OFAddr || base.op == OIAddr || base.op == OField || base.op == OIndex {
				base = base.args[0]
				in = in || isSyntax(base.typ)
			}
			if base.op == OObj || !in {
				continue
			}
			c.failEff("syntax untouched", ef, "%s of the syntax tree is changed in place", s.short(ef.args[0]))
		case "mapdel":
			if m := ef.args[0]; m.op == OField && isInfo(m.args[0]) {
				c.failEff("syntax untouched", ef, "type information is removed")
			}
		case "mapset":
			if m, k := ef.args[0], ef.args[1]; m.op == OField && isInfo(m.args[0]) && k.op != OObj && !(k.op == OCall && strings.HasPrefix(k.aux, "go/ast.NewIdent")) {
				c.failEff("syntax untouched", ef, "the type information of existing syntax is changed")
			}
		}
	}
}

func isSyntax(t types.Type) bool {
	if t == nil {
		return false
	}
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "go/ast"
}

func isInfo(t *Term) bool { return t.op == OField && t.aux == "TypesInfo" }

// replacements checks every call of Cursor.Replace.
func (r *rewriting) replacements() {
	s, c, e, b := r.s, r.s.c, r.s.e, r.s.e.bdd
	for _, ef := range e.effects {
		if ef.kind != "call" || ef.name != cursorType+"Replace" {
			continue
		}
		c.count("replacements", 1)
		cl, _ := s.walkOf(ef.loops)
		if cl == nil {
			c.failEff("replacement", ef, "syntax is replaced outside the walk over packages")
			continue
		}
		bad := false
		for _, a := range e.alts(ef.args[1]) {
			pc := b.And(ef.pc, a.c)
			pc = b.And(pc, s.loopCare(pc, nil, nil))
			for _, m := range r.entries(pc, a.t) {
				if !r.replacement(ef, cl, r.entry(pc, m), e.Subst(a.t, m), m) {
					bad = true
				}
			}
		}
		if !bad {
			c.okEff("replacement", ef)
		}
	}
}

// entries lists the substitutions that stand for the entries of the tables a
// condition looks up.
func (r *rewriting) entries(n Node, v *Term) []map[*Term]*Term {
	e := r.s.e
	tables := map[*Term]bool{}
	find := func(t *Term) {
		e.contains(t, func(x *Term) bool {
			if x.op == OElem && x.args[0].op == OList {
				tables[x] = true
			}
			return false
		})
	}
	for _, i := range e.bdd.Support(n) {
		find(e.atoms[i])
	}
	find(v)
	out := []map[*Term]*Term{{}}
	for t := range tables {
		var next []map[*Term]*Term
		for _, m := range out {
			for _, x := range t.args[0].args {
				k := map[*Term]*Term{t: x}
				for a, b := range m {
					k[a] = b
				}
				next = append(next, k)
			}
		}
		out = next
	}
	return out
}

// entry specialises a condition to an entry of a table.
func (r *rewriting) entry(n Node, m map[*Term]*Term) Node {
	n = r.tables(r.fold(r.s.e.SubstNode(n, m)))
	return r.s.e.bdd.And(n, r.s.loopCare(n, nil, nil), r.s.care(n))
}

// fold decides comparisons of different objects.
func (r *rewriting) fold(n Node) Node {
	e, b := r.s.e, r.s.e.bdd
	for _, v := range b.Support(n) {
		if t := e.atoms[v]; t.op == OEq && t.args[0].op == OObj && t.args[1].op == OObj {
			n = b.Cofactor(n, v, t.args[0] == t.args[1])
		}
	}
	return n
}

// tables spells out what is looked up in fixed maps.
func (r *rewriting) tables(n Node) Node {
	s, e, b := r.s, r.s.e, r.s.e.bdd
	for _, v := range b.Support(n) {
		t := e.atoms[v]
		if t.op != OLookup && t.op != OIn || t.args[0].op != OObj {
			continue
		}
		m, in, ok := t.args[0], False, true
		for _, ef := range s.q.mi.sets[m] {
			ok = ok && ef.args[1].op == OConst
			x := e.Cond(e.Eq(t.args[1], ef.args[1]))
			if t.op == OLookup {
				x = b.And(x, e.Cond(ef.args[2]))
			}
			in = b.Or(in, x)
		}
		if ok && in != False && len(s.q.mi.dels[m]) == 0 && len(s.q.mi.copys[m]) == 0 {
			n = b.Or(b.And(in, b.Cofactor(n, v, true)), b.And(b.Not(in), b.Cofactor(n, v, false)))
		}
	}
	return n
}

type facts struct {
	lits map[*Term]bool
}

func (r *rewriting) replacement(ef *Effect, cl *closure, pc Node, to *Term, m map[*Term]*Term) bool {
	c, e, b := r.s.c, r.s.e, r.s.e.bdd
	if pc == False {
		return true // this entry never matches
	}
	node := e.mk(OCall, cursorType+"Node", nil, ef.args[0])
	cubes := b.Cubes(pc, 5000)
	if len(cubes) == 5000 {
		c.failEff("replacement", ef, "the condition of the replacement has too many cases")
		return false
	}
	done := map[string]bool{}
	for _, cube := range cubes {
		f := facts{map[*Term]bool{}}
		for v, x := range cube {
			f.lits[e.atoms[v]] = x
		}
		stmt := f.holds(func(t *Term) bool {
			return t.op == OTypeIs && t.aux == "*go/ast.ExprStmt" && sameMethod(t.args[0], node)
		})
		if stmt == nil {
			c.failEff("replacement", ef, "something else than a call statement can be replaced: %s", r.show(f))
			return false
		}
		x := e.Field(stmt.args[0], "X", nil)
		call := f.holds(func(t *Term) bool { return t.op == OTypeIs && t.aux == "*go/ast.CallExpr" && unparen(t.args[0]) == x })
		if call == nil {
			c.failEff("replacement", ef, "a statement that is not a call can be replaced: %s", r.show(f))
			return false
		}
		target := call.args[0]
		found := false
		for _, d := range directCallers {
			fun := r.callee(f, cl, target, d.pkg, d.typ, d.name)
			if fun == nil {
				continue
			}
			found = true
			args := e.Field(target, "Args", nil)
			if why := r.calls(ef, to, args, d.arg, r.node(f), m); why != "" {
				c.failEff("replacement", ef, "a call to %s.%s is replaced wrongly: %s", d.pkg, d.name, why)
				return false
			}
			if d.typ != "" && !r.free(f, e.Field(fun, "X", nil), m) {
				c.failEff("calls kept", ef, "%s.%s: the receiver is left out although it may contain calls", d.pkg, d.name)
				return false
			}
			for j := 0; j < d.args; j++ {
				if d.arg >= 0 && j != d.arg && !r.freeArg(f, args, j, m) {
					c.failEff("calls kept", ef, "%s.%s: argument %d is left out although it may contain calls", d.pkg, d.name, j)
					return false
				}
			}
			if !done[d.pkg+d.name] {
				done[d.pkg+d.name] = true
				c.count("rewritten", 1)
			}
			break
		}
		if !found {
			c.failEff("replacement", ef, "a call to a function that is not known to do nothing but call its argument can be replaced: %s", r.show(f))
			return false
		}
	}
	return true
}

// sameMethod compares calls of methods whatever their result type.
func sameMethod(a, b *Term) bool {
	return a.op == OCall && b.op == OCall && strings.SplitN(a.aux, "#", 2)[0] == b.aux && len(a.args) == len(b.args) && a.args[0] == b.args[0]
}

// unparen strips calls that remove parentheses.
func unparen(t *Term) *Term {
	for t.op == OCall && strings.HasSuffix(strings.SplitN(t.aux, "#", 2)[0], ".Unparen") {
		t = t.args[0]
	}
	return t
}

func (f facts) holds(is func(t *Term) bool) *Term {
	for t, v := range f.lits {
		if v && is(t) {
			return t
		}
	}
	return nil
}

func (r *rewriting) show(f facts) string {
	var out []string
	for t, v := range f.lits {
		x := r.s.short(t)
		if !v {
			x = "not " + x
		}
		if len(x) < 300 {
			out = append(out, x)
		}
	}
	sort.Strings(out)
	return strings.Join(out, " and ")
}

// node is the conjunction of the facts.
func (r *rewriting) node(f facts) Node {
	n := True
	for t, v := range f.lits {
		x := r.s.e.Atom(t)
		if !v {
			x = r.s.e.bdd.Not(x)
		}
		n = r.s.e.bdd.And(n, x)
	}
	return n
}

// callee tells whether the function called is the given one; it gives the
// expression for it.
func (r *rewriting) callee(f facts, cl *closure, call *Term, pkg, typ, name string) *Term {
	e := r.s.e
	info := e.Field(cl.pkg, "TypesInfo", nil)
	isFun := func(t *Term) bool { return unparen(t) == e.Field(call, "Fun", nil) }
	full := pkg + "." + name
	if typ != "" {
		full = "(*" + pkg + "." + typ + ")." + name
	}
	has := func(t *Term, is func(x *Term) bool) bool { return e.contains(t, is) }
	eq := func(t *Term, val string) *Term {
		if t.op != OEq {
			return nil
		}
		for i, x := range t.args {
			if x == e.Str(val) {
				return t.args[1-i]
			}
		}
		return nil
	}
	suffix := func(t *Term, s string) bool {
		return t.op == OCall && strings.HasSuffix(strings.SplitN(t.aux, "#", 2)[0], s)
	}
	var fun *Term
	sel := f.holds(func(t *Term) bool {
		if x := eq(t, full); x != nil && (suffix(x, ").FullName") || suffix(x, ".object).String")) && has(x, isFun) {
			return true
		}
		x := eq(t, name)
		return x != nil && x.op == OField && x.aux == "Name" && x.args[0].op == OField && x.args[0].aux == "Sel" && isFun(x.args[0].args[0])
	})
	if sel == nil {
		return nil
	}
	e.contains(sel, func(t *Term) bool {
		if isFun(t) {
			fun = t
		}
		return false
	})
	if eq(sel, full) != nil {
		return fun
	}
	recv := e.Field(fun, "X", nil)
	// the package or the type the name is selected from
	of := func(x *Term) bool {
		return has(x, func(t *Term) bool {
			switch {
			case t.op == OLookup && t.args[0] == e.Field(info, "Uses", nil):
				return typ == "" && t.args[1] == recv
			case suffix(t, "(*go/types.Info).ObjectOf") && t.args[0] == info:
				return typ == "" && t.args[1] == recv
			case suffix(t, "(*go/types.Info).TypeOf") && t.args[0] == info:
				return typ != "" && t.args[1] == recv
			case t.op == OLookup && t.args[0] == e.Field(info, "Types", nil):
				return typ != "" && t.args[1] == recv
			}
			return false
		})
	}
	if typ != "" && f.holds(func(t *Term) bool {
		for _, n := range []string{pkg + "." + typ, "*" + pkg + "." + typ} {
			if x := eq(t, n); x != nil && (suffix(x, ").String") || suffix(x, "types.TypeString")) && of(x) {
				return true
			}
		}
		return false
	}) != nil {
		return fun
	}
	if f.holds(func(t *Term) bool { x := eq(t, pkg); return x != nil && suffix(x, ").Path") && of(x) }) == nil {
		return nil
	}
	if typ == "" {
		if f.holds(func(t *Term) bool {
			x := eq(t, pkg)
			return x != nil && has(x, func(y *Term) bool { return suffix(y, "(*go/types.PkgName).Imported") }) && of(x)
		}) == nil {
			return nil
		}
		return fun
	}
	if f.holds(func(t *Term) bool { x := eq(t, typ); return x != nil && suffix(x, ").Name") && of(x) }) == nil {
		return nil
	}
	return fun
}

// calls checks what a call is replaced by.
func (r *rewriting) calls(ef *Effect, to *Term, args *Term, arg int, pc Node, m map[*Term]*Term) string {
	s, e := r.s, r.s.e
	field := func(t *Term, name string, mem *Mem, pc Node) *Term {
		if t.op == OObj {
			t = e.Subst(e.load(mem, e.FAddr(t, name, nil), nil), m)
		} else {
			t = e.Field(t, name, nil)
		}
		var one *Term
		for _, a := range e.alts(t) {
			if e.bdd.And(r.fold(a.c), pc) == False {
				continue
			}
			if one != nil {
				return t
			}
			one = a.t
		}
		return orEmpty(one)
	}
	isArg := func(t *Term, i int) bool {
		return t.op == OIndex && t.args[0] == args && t.args[1] == e.Int(i)
	}
	stmts := []newStmt{{to, pc, ef.mem}}
	if l := field(to, "List", ef.mem, pc); l.op == OList || l.op == OAppend || l.op == OLV {
		stmts = r.stmts(ef, l, pc, m)
	}
	var got []string
	for _, st := range stmts {
		for _, a := range e.alts(st.val) {
			pc := e.bdd.And(st.pc, a.c)
			if e.isNil(a.t) || pc == False {
				continue
			}
			call := field(a.t, "X", st.mem, pc)
			if call.op != OObj {
				return "the new statement is " + s.short(call) + ", not a new call"
			}
			fun := field(call, "Fun", st.mem, pc)
			if arg >= 0 {
				if !isArg(fun, arg) {
					return "it calls " + s.short(fun) + " instead of argument " + strconv.Itoa(arg)
				}
				got = append(got, "")
				continue
			}
			if fun.op != OObj || !isArg(field(fun, "X", st.mem, pc), 0) {
				return "it does not call a method of the value sorted"
			}
			sel := r.selection(fun, pc, m)
			if sel == nil || sel.op != OCall || !strings.HasPrefix(sel.aux, "(*go/types.MethodSet).Lookup") {
				return "the method called is not known"
			}
			if !e.contains(sel.args[0], func(t *Term) bool {
				return t.op == OCall && strings.HasPrefix(t.aux, "(*go/types.Info).TypeOf") && isArg(t.args[1], 0)
			}) {
				return "the method is not one of the value sorted"
			}
			names := []*Term{sel.args[2]}
			if x := names[0]; x.op == OElem && x.args[0].op == OList {
				names = x.args[0].args
			}
			for _, x := range names {
				if n, ok := unquote(x); ok {
					got = append(got, n)
				}
			}
		}
	}
	if arg >= 0 {
		if len(got) == 0 {
			return "nothing is called"
		}
		return ""
	}
	for _, n := range []string{"Less", "Swap", "Len"} {
		found := false
		for _, g := range got {
			found = found || g == n
		}
		if !found {
			return "the method " + n + " is not called"
		}
	}
	return ""
}

// newStmt is a statement put in the place of a call; pc is when.
type newStmt struct {
	val *Term
	pc  Node
	mem *Mem
}

// stmts lists the statements that are certainly in a list when pc holds.
func (r *rewriting) stmts(ef *Effect, list *Term, pc Node, m map[*Term]*Term) []newStmt {
	s, e, b := r.s, r.s.e, r.s.e.bdd
	around := map[*Loop]bool{}
	for _, l := range ef.loops {
		around[l] = true
	}
	var out []newStmt
	for _, src := range s.q.elems(list, nil) {
		if src.sym || src.partial {
			continue
		}
		when, ok := pc, true
		for _, l := range src.loops {
			if around[l] {
				continue
			}
			ok = ok && l.container != nil && l.container.op == OList
			for _, x := range l.exits {
				ok = ok && x.atom != nil && b.And(pc, e.Atom(e.Subst(x.atom, m))) == False
				when = b.And(when, b.Not(x.cond))
			}
		}
		if off := b.And(when, b.Not(src.pc)); !ok || b.And(off, s.care(off)) != False {
			continue
		}
		mem := ef.mem
		if src.eff != nil {
			mem = src.eff.mem
		}
		out = append(out, newStmt{src.val, r.fold(e.SubstNode(b.And(when, src.pc), m)), mem})
	}
	return out
}

// selection is what the type information says about a new selector.
func (r *rewriting) selection(sel *Term, pc Node, m map[*Term]*Term) *Term {
	var out *Term
	e, b := r.s.e, r.s.e.bdd
	for _, ef := range e.effects {
		if ef.kind == "mapset" && ef.args[1] == sel && ef.args[0].op == OField && ef.args[0].aux == "Selections" && isInfo(ef.args[0].args[0]) {
			sure := false
			for _, n := range []Node{ef.pc, e.SubstNode(ef.pc, m), r.s.normN(ef.pc, ef)} {
				sure = sure || b.And(pc, b.Not(r.tables(r.fold(n)))) == False
			}
			if !sure {
				return nil
			}
			out = ef.args[2]
		}
	}
	return out
}

// free tells whether the facts include that x contains no call.
func (r *rewriting) free(f facts, x *Term, m map[*Term]*Term) bool {
	for t, v := range f.lits {
		if !v && r.finds(t, x) || v && r.never(t, x) {
			return true
		}
	}
	return false
}

// never: a type test that leaves no room for a call.
func (r *rewriting) never(t, x *Term) bool {
	return r.absent(t, x) || t.op == OTypeIs && t.args[0] == x && (t.aux == "*go/ast.Ident" || t.aux == "*go/ast.BasicLit")
}

// absent: t says that there is no x.
func (r *rewriting) absent(t, x *Term) bool {
	e := r.s.e
	return t.op == OEq && (t.args[0] == x && e.isNil(t.args[1]) || t.args[1] == x && e.isNil(t.args[0]))
}

// finds tells whether t holds when x contains a call.
func (r *rewriting) finds(t, x *Term) bool {
	switch t.op {
	case ORec:
		return strings.HasSuffix(t.aux, "#0") && t.args[0] == x && r.test(t.aux)
	case OLV:
		return t.loop.kind == "go/ast.Inspect" && t.loop.container == x && r.inspect(t)
	}
	return false
}

// freeArg tells whether the facts include that argument j contains no call.
func (r *rewriting) freeArg(f facts, args *Term, j int, m map[*Term]*Term) bool {
	e, b := r.s.e, r.s.e.bdd
	if r.free(f, e.mk(OIndex, "", nil, args, e.Int(j)), m) {
		return true
	}
	for t := range f.lits {
		// a test in the same iteration
		if t.op == OIndex && t.args[0] == args && t.args[1] == e.Int(j) && r.free(f, t, m) {
			return true
		}
	}
	// in a loop over the arguments: whatever the iteration for j does when the
	// argument has calls is not what happened
	for t, v := range f.lits {
		if t.loop == nil || t.loop.container != args && e.Subst(orEmpty(t.loop.container), m) != args {
			continue
		}
		L := t.loop
		var hit Node // what the iteration does
		switch {
		case t.op == OExists && !v:
			hit = False
			for _, x := range L.exits {
				if x.atom == t || e.Subst(x.atom, m) == t {
					hit = x.cond
				}
			}
		case t.op == OLV && L.back[t] != nil && L.init[t] != nil:
			// a flag: once changed it stays so
			val := e.Cond(t)
			if !v {
				val = b.Not(val)
			}
			back := e.Cond(L.back[t])
			if !v {
				back = b.Not(back)
			}
			if b.And(b.Not(val), back) != False {
				continue
			}
			hit = b.Not(back)
		default:
			continue
		}
		sub := map[*Term]*Term{e.intern(Term{op: OIdx, loop: L, typ: types.Typ[types.Int]}): e.Int(j)}
		for a, b := range m {
			sub[a] = b
		}
		hit = e.SubstNode(hit, sub)
		el := r.s.q.elemOf(L.container, L)
		for _, i := range b.Support(hit) {
			a := e.atoms[i]
			if r.finds(a, el) || r.finds(a, e.mk(OIndex, "", nil, args, e.Int(j))) || a.op == ORec && a.args[0].op == OElem && a.args[0].loop == L && r.test(a.aux) {
				hit = b.Cofactor(hit, i, true)
			} else if r.absent(a, el) || r.absent(a, e.mk(OIndex, "", nil, args, e.Int(j))) {
				hit = b.Cofactor(hit, i, false)
			} else if v, ok := f.lits[a]; ok {
				hit = b.Cofactor(hit, i, v)
			}
		}
		if hit == True {
			return true
		}
	}
	return false
}

func orEmpty(t *Term) *Term {
	if t == nil {
		return &Term{}
	}
	return t
}

// expressionKinds lists the kinds of expression with the parts that are
// evaluated; nil for those that hold no value.
func (r *rewriting) expressionKinds() map[string][]string {
	var pkg *types.Package
	for _, p := range r.s.e.prog.prog.AllPackages() {
		if p.Pkg.Path() == "go/ast" {
			pkg = p.Pkg
		}
	}
	if pkg == nil {
		return nil
	}
	expr, _ := pkg.Scope().Lookup("Expr").Type().Underlying().(*types.Interface)
	out := map[string][]string{}
	for _, n := range pkg.Scope().Names() {
		tn, ok := pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || !tn.Exported() {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok || !types.Implements(types.NewPointer(tn.Type()), expr) {
			continue
		}
		switch n {
		case "FuncLit", "FuncType", "ArrayType", "StructType", "InterfaceType", "MapType", "ChanType", "Ellipsis", "BadExpr":
			continue // types, and code that does not run here
		}
		parts := []string{}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if f.Name() == "Type" || n == "IndexListExpr" && f.Name() == "Indices" {
				continue // a type
			}
			switch types.TypeString(f.Type(), nil) {
			case "go/ast.Expr", "[]go/ast.Expr":
				parts = append(parts, f.Name())
			}
		}
		out[n] = parts
	}
	return out
}

// test checks the recursive function that looks for calls: for every kind of
// expression it must hold when one of the parts contains a call.
func (r *rewriting) test(name string) bool {
	if ok, done := r.tests[name]; done {
		return ok
	}
	r.tests[name] = true
	s, c, e, b := r.s, r.s.c, r.s.e, r.s.e.bdd
	fail := func(where, format string, args ...interface{}) bool {
		r.tests[name] = false
		c.fail("test for calls", where, strings.TrimSuffix(name, "#0"), format, args...)
		return false
	}
	var fr *Frame
	for _, f := range e.frames {
		if f.fn.String()+"#0" == name && f.rec != nil && len(f.recRets) > 0 && (fr == nil || f.id < fr.id) {
			fr = f
		}
	}
	if fr == nil {
		return fail("-", "the recursive function is not known")
	}
	where := c.pos(fr.fn.Pos())
	R := fr.rec
	var p *Term
	for _, x := range R.recParams {
		if x.op == OLV && x.loop == R && isSyntax(x.typ) {
			p = x
		}
	}
	kinds := r.expressionKinds()
	if p == nil || len(kinds) == 0 {
		return fail(where, "the function has no expression parameter")
	}
	var result Node = False
	for _, ret := range fr.recRets {
		result = b.Or(result, b.And(ret.st.pc, e.Cond(ret.vals[0])))
	}
	// the circumstances of the call
	for _, cube := range b.Cubes(R.pc, 1) {
		for v, x := range cube {
			result = b.Cofactor(result, v, x)
		}
	}
	is := func(n Node, kind string) Node {
		for _, v := range b.Support(n) {
			switch t := e.atoms[v]; {
			case t.op == OTypeIs && t.args[0] == p:
				n = b.Cofactor(n, v, t.aux == "*go/ast."+kind || t.aux == "go/ast.Expr" || t.aux == "go/ast.Node")
			case r.absent(t, p):
				n = b.Cofactor(n, v, false)
			}
		}
		return n
	}
	names := make([]string, 0, len(kinds))
	for k := range kinds {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		n := is(result, k)
		c.count("expression_kinds", 1)
		if k == "CallExpr" {
			if n != True {
				return fail(where, "calls are overlooked when not %s", s.cube(n))
			}
			continue
		}
		for _, part := range kinds[k] {
			x := e.Field(p, part, nil)
			with := n
			for _, v := range b.Support(with) {
				t := e.atoms[v]
				switch {
				case t.op == ORec && t.aux == name && t.args[0] == x:
					with = b.Cofactor(with, v, true)
				case (t.op == OExists || t.op == OLV) && listed(t.loop.container, x):
					// some element has a call
					if val, ok := r.elementTest(t, name, is, k); ok {
						with = b.Cofactor(with, v, val)
					}
				case r.absent(t, x):
					with = b.Cofactor(with, v, false)
				case t.op == OEq && t.args[0].op == OLen && t.args[0].args[0] == x && t.args[1] == e.Int(0):
					with = b.Cofactor(with, v, false)
				}
			}
			if with != True {
				return fail(where, "calls inside %s of an %s are overlooked", part, k)
			}
		}
	}
	c.ok("test for calls", where+" "+name)
	return true
}

// listed tells whether a loop over l comes to x or to the elements of x.
func listed(l, x *Term) bool {
	if l == nil || l.op != OList {
		return l == x
	}
	for _, y := range l.args {
		if y == x {
			return true
		}
	}
	return false
}

// elementTest gives the value of a loop's exit or flag after some element was
// found to have a call.
func (r *rewriting) elementTest(t *Term, name string, is func(Node, string) Node, kind string) (bool, bool) {
	e, b := r.s.e, r.s.e.bdd
	with := func(n Node) Node {
		n = is(n, kind)
		for _, v := range b.Support(n) {
			if a := e.atoms[v]; a.op == ORec && a.aux == name && a.args[0].op == OElem && a.args[0].loop == t.loop {
				n = b.Cofactor(n, v, true)
			}
		}
		return n
	}
	if t.op == OExists {
		for _, x := range t.loop.exits {
			if x.atom == t && with(x.cond) == True {
				return true, true
			}
		}
		return false, false
	}
	back := t.loop.back[t]
	if back == nil {
		return false, false
	}
	n := with(e.Cond(back))
	if n == True && b.And(e.Cond(t), b.Not(is(e.Cond(back), kind))) == False {
		return true, true
	}
	if n == False && b.And(b.Not(e.Cond(t)), is(e.Cond(back), kind)) == False {
		return false, true
	}
	return false, false
}

// inspect checks a flag set while ast.Inspect goes through an expression.
func (r *rewriting) inspect(flag *Term) bool {
	e, b := r.s.e, r.s.e.bdd
	L := flag.loop
	if flag.loop.back[flag] == nil || L.ret == nil {
		return false
	}
	el := e.intern(Term{op: OElem, args: []*Term{e.mk(OCall, "nodes", nil, L.container)}, loop: L})
	is := func(n Node, kind string) Node {
		for _, v := range b.Support(n) {
			t := e.atoms[v]
			on := len(t.args) > 0 && (t.args[0] == el || t.args[0].op == OElem && t.args[0].loop == L)
			switch {
			case t.op == OTypeIs && on:
				n = b.Cofactor(n, v, t.aux == "*go/ast."+kind)
			case t.op == OEq && on && e.isNil(t.args[1]):
				n = b.Cofactor(n, v, false)
			}
		}
		return n
	}
	now := e.Cond(flag)
	back := e.Cond(L.back[flag])
	if is(back, "CallExpr") != True || b.And(now, b.Not(back)) != False {
		return false
	}
	for k := range r.expressionKinds() {
		if k != "CallExpr" && b.And(b.Not(is(e.Cond(L.ret), k)), b.Not(now), b.Not(is(back, k))) != False {
			return false
		}
	}
	r.s.c.count("expression_kinds", len(r.expressionKinds()))
	return true
}
