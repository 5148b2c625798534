package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
)

// Sem interprets the terms of one evaluated entry point in the vocabulary of
// the analysed domain: call graph nodes, categories, capability sets and
// searches.
type Sem struct {
	held    Node    // see latches
	graph2  *Effect // a second call graph
	c       *Check
	e       *Eval
	q       *Query
	name    string
	fn      string
	graph   *Term   // the call graph
	nodes   *Term   // its map of nodes
	cls     *Term   // the classifier
	nests   []*Term // maps from capability to set of nodes
	keep    map[*Term]bool
	staying map[*Term]bool // being examined by stays
	chars   map[*Term]*charSet
	depth   int
	total   Node // the entry point returns normally
	wl      []*Worklist
	found   []*Search
	walks   []*closure
	may     map[*Term]Node // see pairEvents
}

type charSet struct {
	ok  bool
	alt []charAlt
}

type charAlt struct {
	pc  Node
	v   *Term // stands for the member
	eff *Effect
}

const (
	ssaFn      = "(*golang.org/x/tools/go/ssa.Function)"
	graphCall  = "golang.org/x/tools/go/callgraph/vta.CallGraph"
	categoryFn = "FunctionCategory"
	includeFn  = "IncludeCall"
)

func (c *Check) sem(pkg, name string, inits ...string) (*Sem, *Frame) {
	return c.semWith(pkg, name, nil, inits...)
}

func (c *Check) semWith(pkg, name string, g given, inits ...string) (*Sem, *Frame) {
	return c.semArgs(pkg, name, g, nil, inits...)
}

func (c *Check) semArgs(pkg, name string, g given, fix argFn, inits ...string) (*Sem, *Frame) {
	e, f, fn := c.rootArgs(pkg, name, g, fix, inits...)
	if e == nil {
		return nil, nil
	}
	s := &Sem{c: c, e: e, q: NewQuery(e), name: name, fn: fn.String(), keep: map[*Term]bool{}, staying: map[*Term]bool{}, chars: map[*Term]*charSet{}}
	for _, ef := range e.effects {
		if ef.kind == "call" && ef.name == graphCall && ef.res != nil {
			if s.graph != nil && s.graph != ef.res {
				s.graph2 = ef
			}
			s.graph = ef.res
		}
		if ef.kind == "invoke" && (strings.HasSuffix(ef.name, ")."+categoryFn) || strings.HasSuffix(ef.name, ")."+includeFn)) {
			if s.cls == nil {
				s.cls = ef.args[0]
			}
		}
	}
	if s.graph != nil {
		for _, t := range e.list {
			if t.op == OField && t.aux == "Nodes" && t.args[0] == s.graph {
				s.nodes = t
			}
		}
		if s.nodes == nil {
			s.nodes = e.mk(OField, "Nodes", nil, s.graph)
		}
	}
	s.q.after = s.after
	s.total = False
	for _, r := range f.rets {
		s.total = e.bdd.Or(s.total, r.st.pc)
	}
	s.findNests()
	s.findWorklists()
	return s, f
}

// findNests lists the maps whose values are sets built by the program.
func (s *Sem) findNests() {
	seen := map[*Term]bool{}
	for _, ef := range s.e.effects {
		if ef.kind != "mapset" {
			continue
		}
		for _, a := range s.e.alts(ef.args[0]) {
			if a.t.op != OObj || seen[a.t] {
				continue
			}
			m, ok := typeUnder(a.t.typ).(*types.Map)
			if !ok {
				continue
			}
			if _, ok := m.Elem().Underlying().(*types.Map); !ok {
				continue
			}
			seen[a.t] = true
			if len(s.q.nestedSets(a.t)) > 0 {
				s.nests = append(s.nests, a.t)
				s.q.stop[a.t] = true
			}
		}
	}
}

func (s *Sem) isNest(t *Term) bool {
	for _, n := range s.nests {
		if n == t {
			return true
		}
	}
	return false
}

// ---- normal forms ----

func isNodeType(t types.Type) bool {
	return t != nil && strings.HasSuffix(t.String(), "callgraph.Node") && strings.HasPrefix(t.String(), "*")
}

func (s *Sem) norm(t *Term, at *Effect) *Term { return s.normer(at).term(t) }
func (s *Sem) normN(n Node, at *Effect) Node  { return s.normer(at).nodeS(n) }

func (s *Sem) normer(at *Effect) *substituter {
	sb := &substituter{u: s.e.U, m: map[*Term]*Term{}, memo: map[*Term]*Term{}, nmemo: map[Node]Node{}}
	sb.f = func(t *Term) *Term { return s.rewrite(t, at) }
	return sb
}

func (s *Sem) funcOf(x *Term) *Term {
	if x.op == OLookup && x.args[0] == s.nodes {
		return x.args[1]
	}
	return s.e.Field(x, "Func", nil)
}

func (s *Sem) nodeOf(f *Term) *Term {
	if f.op == OField && f.aux == "Func" {
		return f.args[0]
	}
	return s.e.mk(OLookup, "", nil, s.nodes, f)
}

func (s *Sem) rewrite(t *Term, at *Effect) *Term {
	e := s.e
	switch t.op {
	case OField:
		if t.aux == "Func" && t.args[0].op == OLookup && t.args[0].args[0] == s.nodes {
			return t.args[0].args[1]
		}
	case OLookup:
		if t.args[0] == s.nodes && t.args[1].op == OField && t.args[1].aux == "Func" {
			return t.args[1].args[0]
		}
		if m, k, ok := s.q.member(t); ok {
			return s.inSet(m, k, at)
		}
	case OCall:
		if t.aux == ssaFn+".Package" {
			return e.Field(t.args[0], "Pkg", t.typ)
		}
	case OIn:
		return s.inSet(t.args[0], t.args[1], at)
	case OEq:
		if m, k, ok := s.q.nilEntry(t); ok && m.op == OObj && s.storesNonNil(m) {
			return e.Bool(e.bdd.Not(e.Cond(s.inSet(m, k, at))))
		}
	}
	return nil
}

func (s *Sem) storesNonNil(m *Term) bool {
	sets := s.q.mi.sets[m]
	if len(sets) == 0 {
		return false
	}
	for _, ef := range sets {
		for _, a := range s.e.alts(ef.args[2]) {
			if !nonNil(a.t) && !(a.t.typ != nil && strings.Contains(a.t.typ.String(), "callgraph.Edge")) {
				return false
			}
		}
	}
	return true
}

// inSet is the test "k is in m", with m replaced by the condition under which
// its members were put there when that can be read off.
func (s *Sem) inSet(m, k *Term, at *Effect) *Term {
	e := s.e
	if m.op == OGate || k.op == OGate {
		r := False
		for _, a := range e.alts(m) {
			for _, b := range e.alts(k) {
				if e.isNil(a.t) {
					continue
				}
				r = e.bdd.Or(r, e.bdd.And(a.c, b.c, e.Cond(s.inSet(a.t, b.t, at))))
			}
		}
		return e.Bool(r)
	}
	if k.op == OKey && k.args[0] == m && len(s.q.mi.dels[m]) == 0 {
		return e.Bool(True)
	}
	if m.op == OObj && !s.keep[m] && !s.isNest(m) {
		if cs := s.char(m); cs.ok {
			r := False
			for _, a := range cs.alt {
				if at != nil && s.q.later(a.eff, at) {
					continue
				}
				r = e.bdd.Or(r, s.instantiate(a, k, at))
			}
			return e.Bool(r)
		}
	}
	return e.Bool(e.Atom(e.mk(OIn, "", types.Typ[types.Bool], m, k)))
}

// instantiate gives the condition of a for member k.
func (s *Sem) instantiate(a charAlt, k *Term, at *Effect) Node {
	mm := map[*Term]*Term{}
	if a.v.op == OKey && a.v.args[0] == s.nodes {
		mm[a.v] = s.funcOf(k)
		mm[s.e.mk(OLookup, "", nil, s.nodes, a.v)] = k
	} else {
		mm[a.v] = k
	}
	n := s.e.SubstNode(a.pc, mm)
	return s.normN(n, at)
}

// char computes the membership condition of a set built by the program, if
// every member is put there for itself in one pass over the graph's nodes.
func (s *Sem) char(m *Term) *charSet {
	if cs, ok := s.chars[m]; ok {
		return cs
	}
	cs := &charSet{}
	s.chars[m] = cs // guards against recursion
	if s.depth > 8 || len(s.q.mi.dels[m]) > 0 || len(s.q.mi.sets[m])+len(s.q.mi.copys[m]) == 0 {
		return cs
	}
	s.depth++
	defer func() { s.depth-- }()
	res := &charSet{ok: true}
	for _, src := range s.q.entries(m, nil) {
		if src.eff == nil || src.sym && src.eff.kind != "mapcopy" {
			return cs
		}
		ev := Event{pc: src.pc, loops: src.loops, terms: []*Term{src.key}, eff: src.eff, cont: map[*Loop]*Term{}}
		if src.sym {
			// every member of another set
			L := s.q.copyLoop(src.eff)
			ev.loops = addLoop(ev.loops, L)
			ev.cont[L] = src.cont
		}
		for _, x := range s.flatten(s.q.expand(ev)) {
			if x.cut || len(s.exitsOf(x)) > 0 {
				return cs
			}
			key := s.norm(x.terms[0], x.eff)
			if len(x.loops) != 1 || x.container(x.loops[0]) != s.nodes {
				return cs
			}
			kt := s.e.intern(Term{op: OKey, args: []*Term{s.nodes}, loop: x.loops[0]})
			if key != s.nodeOf(kt) && key != kt {
				return cs
			}
			v := kt
			if key == kt {
				// a set of functions rather than nodes
				v = s.e.mk(ONamed, fmt.Sprintf("member%d", m.id), nil)
				x.pc = s.e.SubstNode(x.pc, map[*Term]*Term{kt: v})
			}
			res.alt = append(res.alt, charAlt{s.normN(x.pc, x.eff), v, src.eff})
		}
	}
	s.chars[m] = res
	return res
}

// flatten expands the two loops "for c in N, for x in N[c]" over a map of sets
// into the insertions made into it before the event.
func (s *Sem) flatten(evs []Event) []Event {
	var out []Event
	for _, ev := range evs {
		out = append(out, s.flatten1(ev)...)
	}
	return out
}

func (s *Sem) flatten1(ev Event) []Event {
	e := s.e
	for _, L := range ev.loops {
		c := ev.container(L)
		if c == nil || c.op != OLookup || !s.isNest(c.args[0]) {
			continue
		}
		nest, k := c.args[0], c.args[1]
		var out []Event
		for _, ns := range s.q.nestedSets(nest) {
			if s.q.later(ns.eff, ev.eff) {
				continue
			}
			src := Source{key: ns.key, val: ns.k, pc: ns.pc, loops: ns.eff.loops, eff: ns.eff}
			src = s.q.freshen(src, ev, L)
			key := src.val
			m := map[*Term]*Term{
				e.intern(Term{op: OKey, args: []*Term{c}, loop: L}):           src.key,
				e.intern(Term{op: OKey, args: []*Term{L.container}, loop: L}): src.key,
			}
			n := Event{eff: ev.eff, cont: ev.cont, cut: ev.cut, trail: append(append([]*Effect(nil), ev.trail...), ns.eff), via: addLoop(ev.via, L)}
			var outer *Loop
			if k.op == OKey {
				m[k] = key
				outer = k.loop
				n.via = addLoop(n.via, outer)
			}
			n.pc = e.bdd.And(e.SubstNode(ev.pc, m), src.pc)
			if outer == nil {
				n.pc = e.bdd.And(n.pc, e.Cond(e.Eq(k, key)))
			}
			for _, t := range ev.terms {
				n.terms = append(n.terms, e.Subst(t, m))
			}
			for _, x := range ev.loops {
				if x != L && x != outer {
					n.loops = addLoop(n.loops, x)
				}
			}
			n.loops = joinLoops(n.loops, src.loops)
			for _, y := range s.q.expand(n) {
				out = append(out, s.flatten1(y)...)
			}
		}
		return out
	}
	return []Event{ev}
}

// exitsOf lists early exits of all loops an event goes through.
func (s *Sem) exitsOf(ev Event) []string {
	var ls []*Loop
	for _, L := range append(append([]*Loop(nil), ev.loops...), ev.via...) {
		// "for { if len(list) == 0 { break } ..." is not an early exit
		for _, w := range s.wl {
			if w.loop == L && w.lv != nil && len(L.exits) == 1 && L.exits[0].cond == s.emptyTest(w.lv) {
				L = nil
				break
			}
		}
		if L != nil {
			ls = append(ls, L)
		}
	}
	return s.q.earlyExits(ls)
}

// memberOf is the condition under which node x is in N[c] at effect at.
func (s *Sem) memberOf(nest, c, x *Term, at *Effect) (Node, bool) {
	return s.memberBy(nest, c, x, at, true)
}

// memberBy leaves out members copied from another map of sets unless copies
// is set.
func (s *Sem) memberBy(nest, c, x *Term, at *Effect, copies bool) (Node, bool) {
	e := s.e
	r := False
	for _, ns := range s.q.nestedSets(nest) {
		if at != nil && s.q.later(ns.eff, at) {
			continue
		}
		ev := Event{pc: ns.pc, loops: ns.eff.loops, terms: []*Term{ns.k, ns.key}, eff: ns.eff, cont: map[*Loop]*Term{}}
		for _, y := range s.q.expand(ev) {
			k, key := y.terms[0], s.norm(y.terms[1], y.eff)
			switch len(y.loops) {
			case 1:
				L := y.loops[0]
				kt := e.intern(Term{op: OKey, args: []*Term{s.nodes}, loop: L})
				if y.container(L) != s.nodes || key != s.nodeOf(kt) {
					return False, false
				}
				m := map[*Term]*Term{kt: s.funcOf(x), s.nodeOf(kt): x}
				n := e.bdd.And(e.SubstNode(y.pc, m), e.Cond(e.Eq(e.Subst(k, m), c)))
				r = e.bdd.Or(r, s.normN(n, at))
			case 2:
				// copied from another map of sets
				L0, L1 := y.loops[0], y.loops[1]
				c0, c1 := y.container(L0), y.container(L1)
				if !s.isNest(c0) || c1.op != OLookup || c1.args[0] != c0 {
					return False, false
				}
				if !copies {
					continue
				}
				k0 := e.intern(Term{op: OKey, args: []*Term{c0}, loop: L0})
				k1 := e.intern(Term{op: OKey, args: []*Term{c1}, loop: L1})
				if k != k0 || key != k1 {
					return False, false
				}
				m := map[*Term]*Term{k0: c, k1: x}
				in := e.Atom(e.mk(OIn, "", types.Typ[types.Bool], e.mk(OLookup, "", nil, c0, c), x))
				r = e.bdd.Or(r, e.bdd.And(in, s.normN(e.SubstNode(y.pc, m), at)))
			default:
				return False, false
			}
		}
	}
	return r, true
}

// after gives the value t has once the loops it was computed in are done,
// for values that only the first pass through the loop sets.
func (s *Sem) after(t *Term) *Term {
	e := s.e
	sb := &substituter{u: e.U, m: map[*Term]*Term{}, memo: map[*Term]*Term{}, nmemo: map[Node]Node{}}
	sb.f = func(x *Term) *Term {
		if x.op == OGate {
			return s.afterGate(x)
		}
		if x.op != OLV || x.loop.back[x] == nil {
			return nil
		}
		if v := s.firstValue(x); v != nil {
			return v
		}
		return nil
	}
	return sb.term(t)
}

// afterGate is after for a value read when the loop is left in the middle of a
// pass: the one just set if it is the first pass, else the one set then.
func (s *Sem) afterGate(t *Term) *Term {
	e, b := s.e, s.e.bdd
	var lv *Term
	for _, a := range e.alts(t) {
		if a.t.op == OLV && a.t.loop.kind == "while" && a.t.loop.back[a.t] != nil {
			lv = a.t
		}
	}
	if lv == nil {
		return nil
	}
	L := lv.loop
	inits := map[*Term]*Term{}
	for x, i := range L.init {
		inits[x] = i
	}
	v := s.firstPass(lv)
	if v == nil {
		return nil
	}
	for _, ft := range s.firstTests(L) {
		var first []alt
		good := true
		for _, a := range e.alts(t) {
			if b.And(a.c, b.Not(ft)) != False && a.t != lv {
				good = false
			}
			if c := b.And(a.c, ft); c != False {
				first = append(first, alt{e.SubstNode(c, inits), e.Subst(a.t, inits)})
			}
		}
		if good && e.Gate(first, True, lv.typ) == v {
			return v
		}
	}
	return nil
}

// firstTest finds the tests that are true in the first pass through a loop
// only: a counter that is still at its start, or a flag that is cleared.
func (s *Sem) firstTests(L *Loop) []Node {
	e := s.e
	var out []Node
	for lv, init := range L.init {
		back := L.back[lv]
		if back == nil {
			continue
		}
		if init.op == OConst {
			if base, n, _ := plus(back); base == lv && n > 0 {
				out = append(out, e.Cond(e.Eq(lv, init)))
			}
		}
		if init.op == OBool && back.op == OBool && (init.node == True && back.node == False) {
			out = append(out, e.Cond(lv))
		}
		if init.op == OBool && back.op == OBool && (init.node == False && back.node == True) {
			out = append(out, e.bdd.Not(e.Cond(lv)))
		}
	}
	return out
}

func (s *Sem) firstValue(lv *Term) *Term {
	e := s.e
	L := lv.loop
	if L.kind != "while" {
		return nil
	}
	inits := map[*Term]*Term{}
	for x, i := range L.init {
		inits[x] = i
	}
	// the loop runs at least once
	if c := e.SubstNode(L.cont, inits); c != True {
		for _, v := range e.bdd.Support(c) {
			t := e.atoms[v]
			if !(t.op == OEq && e.isNil(t.args[1]) && isNodeType(t.args[0].typ)) {
				return nil
			}
		}
		if len(L.exits) > 0 {
			return nil
		}
	}
	return s.firstPass(lv)
}

// firstPass is the value lv has after the first pass through its loop, if
// later ones leave it alone.
func (s *Sem) firstPass(lv *Term) *Term {
	e := s.e
	L := lv.loop
	if L.kind != "while" {
		return nil
	}
	back := L.back[lv]
	if back == nil {
		return nil
	}
	inits := map[*Term]*Term{}
	for x, i := range L.init {
		inits[x] = i
	}
	for _, ft := range s.firstTests(L) {
		var first []alt
		ok := true
		for _, a := range e.alts(back) {
			if later := e.bdd.And(a.c, e.bdd.Not(ft)); later != False && a.t != lv {
				ok = false
			}
			if c := e.bdd.And(a.c, ft); c != False {
				first = append(first, alt{e.SubstNode(c, inits), e.Subst(a.t, inits)})
			}
		}
		if ok {
			return e.Gate(first, True, lv.typ)
		}
	}
	return nil
}

// ---- categories ----

// category lists the guarded category of function f according to the map.
func (s *Sem) category(f *Term) []alt {
	e := s.e
	fc := func(g *Term) (*Term, Node) {
		pkg := e.Field(g, "Pkg", nil)
		tp := e.Field(pkg, "Pkg", nil)
		path := e.mk(OCall, "(*go/types.Package).Path", types.Typ[types.String], tp)
		name := e.mk(OCall, ssaFn+".String", types.Typ[types.String], g)
		t := e.mk(OCall, s.catName(), nil, s.cls, path, name)
		return t, e.bdd.Not(e.Cond(e.Eq(pkg, e.Nil())))
	}
	own, g1 := fc(f)
	origin := e.mk(OCall, ssaFn+".Origin", nil, f)
	org, g2 := fc(origin)
	g2 = e.bdd.And(e.bdd.Not(g1), e.bdd.Not(e.Cond(e.Eq(origin, e.Nil()))), g2)
	return []alt{{g1, own}, {g2, org}}
}

func (s *Sem) catName() string {
	return "(" + modulePath + "/analyzer.Classifier)." + categoryFn
}

func (s *Sem) safe(x *Term) Node {
	e := s.e
	r := False
	for _, a := range s.category(s.funcOf(x)) {
		r = e.bdd.Or(r, e.bdd.And(a.c, e.Cond(e.Eq(a.t, s.capConst("CAPABILITY_SAFE")))))
	}
	return r
}

func (s *Sem) explicit(x *Term) Node {
	e := s.e
	r := False
	for _, a := range s.category(s.funcOf(x)) {
		r = e.bdd.Or(r, e.bdd.And(a.c,
			e.bdd.Not(e.Cond(e.Eq(a.t, s.capConst("CAPABILITY_SAFE")))),
			e.bdd.Not(e.Cond(e.Eq(a.t, s.capConst("CAPABILITY_UNSPECIFIED"))))))
	}
	return r
}

// capConst is the constant of a capability.
func (s *Sem) capConst(name string) *Term {
	return s.e.Const(s.c.constVal(protoPath, "Capability_"+name), nil)
}

// constVal reads a declared constant.
func (c *Check) constVal(pkg, name string) string {
	var obj types.Object
	for _, p := range c.prog.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			obj = p.Pkg.Scope().Lookup(name)
		}
	}
	k, ok := obj.(*types.Const)
	if !ok {
		c.fail("anchor", "-", name, "constant %s.%s not found", pkg, name)
		return "?" + name
	}
	if k.Val().Kind() == constant.String {
		return k.Val().ExactString()
	}
	return k.Val().ExactString()
}

// queried is the test that x's function belongs to one of the packages asked
// about.
func (s *Sem) queried(x *Term) Node {
	e := s.e
	pkg := e.Field(s.funcOf(x), "Pkg", nil)
	in := e.Atom(e.mk(OIn, "", types.Typ[types.Bool], s.queriedSet(), e.Field(pkg, "Pkg", nil)))
	return e.bdd.And(e.bdd.Not(e.Cond(e.Eq(pkg, e.Nil()))), in)
}

func (s *Sem) queriedSet() *Term { return s.paramOf("map[*go/types.Package]struct{}") }

// paramOf finds the root's parameter of the given type.
func (s *Sem) paramOf(typ string) *Term {
	for _, t := range s.e.list {
		if t.op == OParam && strings.HasPrefix(t.aux, s.rootName()+".") && t.typ != nil && t.typ.String() == typ {
			return t
		}
	}
	return s.e.mk(OParam, "missing "+typ, nil)
}

func (s *Sem) rootName() string {
	if i := strings.LastIndex(s.name, "."); i >= 0 {
		return s.name[i+1:]
	}
	return s.name
}

// ---- comparison of conditions ----

// care is a condition that always holds, built from what the atoms mean.
func (s *Sem) care(ns ...Node) Node {
	e := s.e
	b := e.bdd
	sup := map[int]bool{}
	for _, n := range ns {
		for _, v := range b.Support(n) {
			sup[v] = true
		}
	}
	var vs []int
	for v := range sup {
		vs = append(vs, v)
	}
	sort.Ints(vs)
	r := True
	byTerm := map[*Term][]Node{}
	types_ := map[*Term][]typeAtom{}
	nils := map[*Term]Node{}
	ins := map[*Term]Node{} // keyed by the lookup term
	for _, v := range vs {
		t := e.atoms[v]
		n := b.Var(v)
		switch t.op {
		case OExists:
			if t.dies() {
				r = b.And(r, b.Not(n)) // there is no result then
			}
		case OIn:
			ins[e.mk(OLookup, "", nil, t.args[0], t.args[1])] = n
		case OEq:
			if t.args[1].op == OConst {
				byTerm[t.args[0]] = append(byTerm[t.args[0]], n)
				if s.stays(t.args[0], t.args[1]) {
					r = b.And(r, n)
				}
			}
			// nothing is two objects at once
			for i, x := range t.args {
				if x.op == OObj && t.args[1-i].op != OObj {
					byTerm[t.args[1-i]] = append(byTerm[t.args[1-i]], n)
				}
			}
			if e.isNil(t.args[1]) {
				nils[t.args[0]] = n
				// functions of graph nodes and packages of SSA packages exist
				x := t.args[0]
				if x.op == OField && x.aux == "Func" || x.op == OKey && x.args[0] == s.nodes {
					r = b.And(r, b.Not(n))
				}
				if x.op == OField && x.aux == "Pkg" && x.args[0].op == OField && x.args[0].aux == "Pkg" {
					r = b.And(r, b.Not(n))
				}
			}
		case OTypeIs:
			if T, ok := t.obj.(types.Type); ok {
				if _, isIface := T.Underlying().(*types.Interface); !isIface {
					types_[t.args[0]] = append(types_[t.args[0]], typeAtom{n, T})
				}
			}
		}
	}
	for _, ns := range byTerm {
		for i := range ns {
			for j := i + 1; j < len(ns); j++ {
				r = b.And(r, b.Not(b.And(ns[i], ns[j])))
			}
		}
	}
	for x, n := range ins {
		m := x.args[0]
		// the inner map of a nested one exists if something is in it
		if m.op == OLookup {
			if in, ok := ins[m]; ok {
				r = b.And(r, b.Or(b.Not(n), in))
			}
			if nl, ok := nils[m]; ok {
				r = b.And(r, b.Not(b.And(n, nl)))
			}
		}
		if nl, ok := nils[x]; ok {
			r = b.And(r, b.Or(n, nl))
			if s.neverNil(m) {
				r = b.And(r, b.Not(b.And(n, nl)))
			}
		}
	}
	for x, ts := range types_ {
		for i := range ts {
			if n, ok := nils[x]; ok {
				r = b.And(r, b.Not(b.And(n, ts[i].n)))
			}
			for j := i + 1; j < len(ts); j++ {
				r = b.And(r, b.Not(b.And(ts[i].n, ts[j].n)))
			}
		}
	}
	return r
}

// stays reports whether a variable that a loop assigns has its first value
// whenever the loop goes on.
func (s *Sem) stays(t, c *Term) bool {
	if t.op != OLV || t.loop.init[t] != c || t.loop.back[t] == nil {
		return false
	}
	e, b := s.e, s.e.bdd
	on := e.Cond(e.Eq(t, c))
	for _, x := range t.loop.exits {
		on = b.And(on, b.Not(x.cond))
	}
	off := b.And(on, b.Not(e.Cond(e.Eq(t.loop.back[t], c))))
	if on == False || off == False || s.staying[t] {
		return on != False && off == False
	}
	s.staying[t] = true
	defer delete(s.staying, t)
	return b.And(off, s.care(off)) == False
}

// neverNil reports whether only new objects are stored in a map.
func (s *Sem) neverNil(m *Term) bool {
	if m.op != OObj || len(s.q.mi.sets[m]) == 0 || len(s.q.mi.copys[m]) > 0 {
		return false
	}
	for _, ef := range s.q.mi.sets[m] {
		for _, a := range s.e.alts(ef.args[2]) {
			if a.t.op == OLookup && a.t.args[0] == m {
				// stored again under the condition that it is there
				if s.e.bdd.And(ef.pc, a.c, s.e.Cond(s.e.Eq(a.t, s.e.Nil()))) == False {
					continue
				}
			}
			if a.t.op != OObj && s.e.bdd.And(ef.pc, a.c) != False {
				return false
			}
		}
	}
	return true
}

type typeAtom struct {
	n Node
	t types.Type
}

// loopCare says that the containers of the loops around an event are neither
// nil nor empty.
func (s *Sem) loopCare(n Node, loops []*Loop, conts map[*Loop]*Term) Node {
	e := s.e
	r := True
	full := map[*Term]bool{}
	for _, L := range loops {
		if L.container != nil {
			for _, a := range e.alts(L.container) {
				full[a.t] = true
			}
			full[L.container] = true
		}
		if t := conts[L]; t != nil {
			full[t] = true
		}
	}
	for _, v := range e.bdd.Support(n) {
		t := e.atoms[v]
		if t.op == OExists && t.dies() {
			r = e.bdd.And(r, e.bdd.Not(e.bdd.Var(v)))
		}
		if t.op != OEq || t.args[1].op != OConst {
			continue
		}
		x := t.args[0]
		if t.args[1].aux == "0" && x.op == OLen && full[x.args[0]] {
			r = e.bdd.And(r, e.bdd.Not(e.bdd.Var(v)))
		}
		if e.isNil(t.args[1]) && full[x] {
			r = e.bdd.And(r, e.bdd.Not(e.bdd.Var(v)))
		}
	}
	return r
}

// same compares conditions; when they differ it explains how.
func (s *Sem) same(got, want, care Node) (bool, string) {
	b := s.e.bdd
	care = b.And(care, s.total, s.care(got, want, care))
	if care == False {
		return false, "the situation it is about can never arise"
	}
	more := b.And(got, b.Not(want), care)
	less := b.And(want, b.Not(got), care)
	if more == False && less == False {
		return true, ""
	}
	var out []string
	if more != False {
		out = append(out, "it also happens when "+s.cube(more))
	}
	if less != False {
		out = append(out, "it does not happen when "+s.cube(less))
	}
	return false, strings.Join(out, "; ")
}

func (s *Sem) cube(n Node) string {
	// one example, shortest first
	cs := s.e.bdd.Cubes(n, 64)
	if len(cs) == 0 {
		return "?"
	}
	best := cs[0]
	for _, c := range cs {
		if len(c) < len(best) {
			best = c
		}
	}
	var vs []int
	for v := range best {
		vs = append(vs, v)
	}
	sort.Ints(vs)
	var out []string
	for _, v := range vs {
		x := s.short(s.e.atoms[v])
		if !best[v] {
			x = "not(" + x + ")"
		}
		out = append(out, x)
	}
	return strings.Join(out, " and ")
}

var shorten = strings.NewReplacer("golang.org/x/tools/go/", "", modulePath+"/", "", "go/types.", "types.", "go/ast.", "ast.")

func (s *Sem) short(t *Term) string { return shorten.Replace(s.e.str(t, 5)) }
