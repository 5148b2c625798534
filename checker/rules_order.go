package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C20", "Every loop whose iterations come in no fixed order is found: loops over maps, over the edges of call graph nodes, over "+
		"lists filled by such loops and not sorted afterwards by a comparison whose ties are identical elements, searches whose queue is "+
		"such a list, and recursions started in such loops. Nothing that outlives an iteration may depend on the order: values stored "+
		"must be the same for all iterations or be determined by the key, counters may only be added to, no element that happens to "+
		"come first may be used after the loop, nothing may be printed and no callback called in it, and no list filled in it may reach "+
		"the report unsorted. Nothing printed may hold addresses, times or other accidents.", ruleC20)
}

func ruleC20(c *Check) {
	run := func(s *Sem) {
		if s == nil {
			return
		}
		o := &ordering{s: s, loops: map[*Loop]string{}, busy: map[*Loop]bool{}, lbusy: map[*Term]bool{}}
		o.check()
		c.problems(s.e, s.name)
	}
	for _, s := range c.analyses() {
		run(s)
	}
	mode := func(name string) argFn {
		return func(e *Eval, p *ssa.Parameter) *Term {
			if isStringType(p.Type()) {
				return e.Const("\""+name+"\"", p.Type())
			}
			return nil
		}
	}
	for _, m := range []string{"", "v", "json", "m", "compare"} {
		c.opaque = map[string]bool{anaPkg + ".GetCapabilityInfo": true, anaPkg + ".GetCapabilityCounts": true, anaPkg + ".GetCapabilityStats": true}
		s, _ := c.semArgs("/analyzer", "RunCapslock", nil, mode(m), "/analyzer")
		c.opaque = nil
		run(s)
	}
	for _, filtered := range []bool{false, true} {
		s, _ := c.graphRun(filtered)
		run(s)
	}
	s, _ := c.sem("/cmd/capslock-git-diff", "main", "/cmd/capslock-git-diff")
	run(s)
	s, _ = c.sem("/interesting", "LoadClassifier", "/interesting")
	run(s)
	c.need("vacuity", "loops without a fixed order", c.stats["unordered_loops"], 100)
	c.need("vacuity", "effects in them", c.stats["unordered_effects"], 100)
	c.need("vacuity", "sorts that restore the order", c.stats["sorts"], 20)
}

// ordering finds what depends on the order of iterations.
type ordering struct {
	s     *Sem
	loops map[*Loop]string // why the iterations come in no fixed order
	busy  map[*Loop]bool
	lbusy map[*Term]bool
	side  map[string]bool // ends that can differ among the edges being sorted
	bad   string          // why the last sort looked at does not count
}

func (o *ordering) check() {
	c, e := o.s.c, o.s.e
	for _, l := range e.allLoops {
		if why := o.loop(l); why != "" {
			c.count("unordered_loops", 1)
			if o.variables(l, why) {
				c.ok("order", c.pos(l.pos)+" "+l.frame.fn.Name()+" "+why)
			}
		}
	}
	for _, ef := range e.effects {
		if ef.init {
			continue
		}
		ok := true
		for _, l := range ef.loops {
			if why := o.loop(l); why != "" {
				c.count("unordered_effects", 1)
				if bad := o.effect(ef, l); bad != "" {
					c.failEff("order", ef, "%s in a loop over %s, which comes in no fixed order", bad, why)
					ok = false
					break
				}
			}
		}
		if ok {
			o.uses(ef)
		}
	}
}

// loop tells why the iterations of a loop come in no fixed order; it gives ""
// if they do come in one.
func (o *ordering) loop(l *Loop) string {
	if why, ok := o.loops[l]; ok {
		return why
	}
	if o.busy[l] {
		return ""
	}
	o.busy[l] = true
	why := o.why(l)
	delete(o.busy, l)
	if len(o.busy) == 0 || why != "" {
		o.loops[l] = why
	}
	return why
}

func (o *ordering) why(l *Loop) string {
	s, e := o.s, o.s.e
	switch {
	case l.kind == "map":
		return "a map"
	case l.kind == "index" && !(l.container != nil && l.container.op == OLV && l.container.loop == l):
		return o.list(l.container, l.seq, l.parents, l.pc, l)
	case l.kind == "while" || l.kind == "index":
		for lv := range l.init {
			if sliceElem(lv.typ) == nil || l.back[lv] == nil || l.back[lv] == lv || !o.taken(l, lv) && lv != l.container {
				continue
			}
			if why := o.list(l.init[lv], l.seq, l.parents, l.pc, l); why != "" {
				return why
			}
			for _, src := range s.q.elems(l.back[lv], nil, lv) {
				for _, x := range minus(src.loops, append(append([]*Loop(nil), l.parents...), l)) {
					if why := o.loop(x); why != "" {
						return why
					}
				}
			}
		}
	case l.kind == "rec":
		// called again from a loop in no fixed order
		for _, ef := range e.effects {
			if ef.kind != "reccall" || !hasLoop(ef.loops, l) {
				continue
			}
			in := false
			for _, x := range ef.loops {
				if in {
					if why := o.loop(x); why != "" {
						return why
					}
				}
				in = in || x == l
			}
		}
	case strings.HasPrefix(l.kind, "maps."):
		return "a map"
	}
	return ""
}

// taken: the loop takes elements off the list.
func (o *ordering) taken(l *Loop, lv *Term) bool {
	for _, t := range o.s.e.list {
		if t.op == OIndex && t.args[0] == lv {
			return true
		}
	}
	return false
}

// list tells why the elements of a list come in no fixed order where it is
// used: after the effects before seq, in the given loops.
func (o *ordering) list(t *Term, seq int, loops []*Loop, pc Node, in *Loop) string {
	s, e := o.s, o.s.e
	t = original(t)
	if t == nil || o.lbusy[t] {
		return ""
	}
	o.lbusy[t] = true
	defer delete(o.lbusy, t)
	switch t.op {
	case OGate:
		for _, a := range e.alts(t) {
			if e.bdd.And(pc, a.c) != False {
				if why := o.list(a.t, seq, loops, e.bdd.And(pc, a.c), in); why != "" {
					return why
				}
			}
		}
		return ""
	case OConst:
		return ""
	}
	why := o.filled(t, seq, loops, pc, in)
	if why == "" {
		return ""
	}
	// sorted since?
	at := &Effect{seq: seq, loops: loops}
	if so := s.sorted(t, at, e.bdd.And(pc, o.nonempty(t))); so != nil && so.put == nil {
		if so.ef == nil || o.canonical(so.ef) {
			s.c.count("sorts", 1)
			return ""
		}
		return why + " and sorted by a comparison that does not settle the order: " + o.bad
	}
	return why
}

// filled tells why the elements of a list were put there in no fixed order.
func (o *ordering) filled(t *Term, seq int, loops []*Loop, pc Node, in *Loop) string {
	s, e := o.s, o.s.e
	switch t.op {
	case OField:
		if (t.aux == "In" || t.aux == "Out") && isNode(t.args[0]) {
			return "the edges of a call graph node"
		}
		return ""
	case OCall:
		switch {
		case strings.HasPrefix(t.aux, "sorted:"):
			return ""
		case strings.HasSuffix(t.aux, "ssa.Program).AllPackages"):
			return "the packages of a program"
		case strings.HasPrefix(t.aux, "maps."), strings.HasPrefix(t.aux, "collect:"):
			return "a map"
		case t.aux == "slices.Compact" || strings.HasPrefix(t.aux, "slices.C"):
			return o.list(t.args[0], seq, loops, pc, in)
		}
		return ""
	case OElem:
		// one of several lists
		for _, src := range s.q.elems(t.args[0], t.loop) {
			if src.val != t {
				if why := o.list(src.val, seq, loops, e.bdd.And(pc, src.pc), in); why != "" {
					return why
				}
			}
		}
		return ""
	case OFilter, OSlice:
		return o.list(t.args[0], seq, loops, pc, in)
	case OAppend:
		if t.args[1].op != OList {
			// two lists joined
			if why := o.list(t.args[0], seq, loops, pc, in); why != "" {
				return why
			}
			return o.list(t.args[1], seq, loops, pc, in)
		}
	}
	// the loops the list is filled in
	for _, src := range s.q.elems(t, nil) {
		ls := src.loops
		if t.op == OLV && in != nil && t.loop == in {
			ls = minus(ls, []*Loop{in})
		}
		for _, l := range minus(ls, loops) {
			if why := o.loop(l); why != "" {
				return why
			}
		}
		if src.sym && src.cont != nil && original(src.cont) != t && src.cont.op != OParam {
			if why := o.list(src.cont, seq, loops, e.bdd.And(pc, src.pc), in); why != "" {
				return why
			}
		}
	}
	return ""
}

// nonempty is what holds if a list has elements.
func (o *ordering) nonempty(t *Term) Node {
	e, b := o.s.e, o.s.e.bdd
	n := b.Not(e.Cond(e.Eq(e.Len(t), e.Int(0))))
	if t.op != OLV {
		return n
	}
	put := e.appendCond(t)
	// a number that grows with the list
	for lv, back := range t.loop.back {
		if lv == t || !isIntType(lv.typ) || t.loop.init[lv] == nil || t.loop.init[lv].aux != "0" {
			continue
		}
		grows := False
		for _, a := range e.alts(back) {
			if a.t.op == OBin && a.t.aux == "+" && (a.t.args[0] == lv && o.positive(a.t.args[1]) || a.t.args[1] == lv && o.positive(a.t.args[0])) {
				grows = b.Or(grows, a.c)
			} else if a.t != lv {
				grows = False
				break
			}
		}
		if put != False && b.And(put, b.Not(grows)) == False {
			n = b.And(n, b.Not(e.Cond(e.Lt(lv, e.Int(1)))), b.Not(e.Cond(e.Eq(lv, e.Int(0)))))
		}
	}
	return n
}

// appendCond is the condition under which an iteration adds to the list.
func (e *Eval) appendCond(lv *Term) Node {
	r := False
	for _, a := range e.alts(lv.loop.back[lv]) {
		if a.t != lv {
			r = e.bdd.Or(r, a.c)
		}
	}
	return r
}

// positive: t is a constant or a count above zero.
func (o *ordering) positive(t *Term) bool {
	e := o.s.e
	t = unconv(t)
	if t.op == OConst {
		return t.aux != "0" && !strings.HasPrefix(t.aux, "-")
	}
	if t.op != OLookup || t.args[1].op != OKey || t.args[1].args[0] != t.args[0] {
		return false
	}
	for _, ef := range o.s.q.mi.sets[t.args[0]] {
		old := e.mk(OLookup, "", nil, ef.args[0], ef.args[1])
		for _, a := range e.alts(ef.args[2]) {
			v := unconv(a.t)
			if v.op == OBin && v.aux == "+" && v.args[1].op == OConst && unconv(v.args[0]).op == OLookup && unconv(v.args[0]).args[0] == old.args[0] {
				v = v.args[1]
			}
			if v.op != OConst || v.aux == "0" || strings.HasPrefix(v.aux, "-") {
				return false
			}
		}
	}
	return len(o.s.q.mi.sets[t.args[0]]) > 0
}

func isNode(t *Term) bool {
	if t.typ == nil {
		return true // only call graph nodes have such fields here
	}
	return strings.HasSuffix(t.typ.String(), "go/callgraph.Node")
}

// varies: t depends on the iteration of l.
func (o *ordering) varies(t *Term, l *Loop) bool { return len(o.leaves(t, l)) > 0 }

// leaves lists the parts of t that differ from one iteration of l to another.
func (o *ordering) leaves(t *Term, l *Loop) []*Term {
	e := o.s.e
	seen := map[*Term]bool{}
	e.walk(t, func(x *Term) bool {
		switch x.op {
		case OElem, OKey, OIdx, OIter:
			if x.loop == l || inside(x.loop, l) {
				seen[x] = true
				return x.op == OElem && x.loop != l
			}
		case OLV:
			if x.loop == l || inside(x.loop, l) {
				seen[x] = true
			}
		case OIndex:
			if x.args[0].op == OLV && x.args[0].loop == l {
				seen[x] = true
				return false
			}
		case OObj:
			if oi, ok := x.obj.(*ObjInfo); ok && hasLoop(oi.loops, l) && oi.kind == "alloc" {
				seen[x] = true
			}
		}
		return true
	})
	var out []*Term
	for x := range seen {
		out = append(out, x)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func inside(x, l *Loop) bool { return x != nil && hasLoop(x.parents, l) }

// root is the object or variable an address or value is part of.
func root(t *Term) *Term {
	for len(t.args) > 0 {
		switch t.op {
		case OFAddr, OIAddr, OField, ODeref, OConv, OSlice, OIndex:
			t = t.args[0]
			continue
		}
		break
	}
	return t
}

// own: t is made anew in each iteration of l.
func (o *ordering) own(t *Term, l *Loop) bool {
	for _, a := range o.s.e.alts(root(t)) {
		x := root(a.t)
		oi, ok := x.obj.(*ObjInfo)
		if x.op != OObj || !ok || !hasLoop(oi.loops, l) {
			return false
		}
	}
	return true
}

// effect tells what an effect in a loop without a fixed order depends on.
func (o *ordering) effect(ef *Effect, l *Loop) string {
	s, e := o.s, o.s.e
	switch ef.kind {
	case "mapset":
		m, k, v := ef.args[0], ef.args[1], ef.args[2]
		if o.own(m, l) || o.unique(k, l) || o.syntax(m) {
			return ""
		}
		if o.sum(e.mk(OLookup, "", nil, m, k), v, l) {
			return ""
		}
		if x := o.undetermined(v, l, k, ef); x != nil {
			return "what is stored under a key (" + s.short(x) + ") can differ from one iteration to the next"
		}
		return o.once(ef, l, m, k, v)
	case "store", "fieldset":
		addr, v := ef.args[0], ef.args[len(ef.args)-1]
		if o.own(addr, l) || o.syntax(addr) || o.unique(addr, l) {
			return ""
		}
		if ef.kind == "fieldset" && len(ef.args) > 2 {
			addr = ef.args[0]
		}
		if o.sum(e.load(ef.mem, addr, v.typ), v, l) {
			return ""
		}
		if sliceElem(v.typ) != nil || v.op == OAppend {
			return "" // a list: its uses count
		}
		if x := o.undetermined(v, l, addr, ef); x != nil {
			return "the value left in " + s.short(addr) + " (" + s.short(x) + ") depends on the iteration"
		}
		return o.once(ef, l, v)
	case "dyncall", "send", "go":
		return "a function given by the caller is called"
	}
	if w, ok := e.asWrite(ef); ok && (w.to == nil || e.toStdout(w.to) || !o.own(w.to, l) && !stderr(w.to)) {
		return "output is written"
	}
	return ""
}

func stderr(t *Term) bool {
	return t.op == ODeref && t.args[0].op == OGlobal && t.args[0].aux == "os.Stderr"
}

// syntax: changes of the syntax tree and its type information stay in one
// package.
func (o *ordering) syntax(t *Term) bool {
	return o.s.e.contains(t, func(x *Term) bool { return x.op == OField && (x.aux == "TypesInfo" || x.aux == "Syntax") })
}

// sum: v is the old value plus something.
func (o *ordering) sum(old, v *Term, l *Loop) bool {
	e := o.s.e
	for _, a := range e.alts(v) {
		x := unconv(a.t)
		if x == old || x.op == OConst {
			continue
		}
		if x.op == OLV && inside(x.loop, l) && x.loop.init[x] != nil && o.sum(old, x.loop.init[x], l) && o.sum(x, x.loop.back[x], x.loop) {
			continue // in an inner loop
		}
		if x.op != OBin || x.aux != "+" && x.aux != "|" || x.typ != nil && isStringType(x.typ) {
			return false
		}
		ok := false
		for i := range x.args {
			for _, y := range e.alts(old) {
				ok = ok || unconv(x.args[i]) == unconv(y.t) && !o.counts(x.args[1-i], l)
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// counts: t depends on what earlier iterations of l did.
func (o *ordering) counts(t *Term, l *Loop) bool {
	return o.s.e.contains(t, func(x *Term) bool { return (x.op == OLV || x.op == OIdx) && x.loop == l })
}

// unique: no two iterations of l have the same k.
func (o *ordering) unique(k *Term, l *Loop) bool {
	switch k.op {
	case OKey:
		return k.loop == l
	case OElem:
		// of a list of the keys of a map
		if k.loop != l {
			return false
		}
		srcs := o.s.q.elems(k.args[0], nil)
		if len(srcs) != 1 {
			return false
		}
		v := srcs[0].val
		return v.op == OKey && (srcs[0].sym || len(srcs[0].loops) > 0 && srcs[0].loops[len(srcs[0].loops)-1] == v.loop)
	case OCall:
		// names of capabilities are different
		return strings.HasSuffix(k.aux, "proto.Capability).String") && o.unique(k.args[0], l)
	case OLookup, OField, OFAddr:
		// the entries of a map that holds different objects
		if x := k.args[0]; k.op != OLookup {
			return o.unique(x, l)
		}
		return o.unique(k.args[1], l) && o.fresh(k.args[0])
	case OObj:
		oi, ok := k.obj.(*ObjInfo)
		return ok && hasLoop(oi.loops, l)
	case OStruct, OList, OConv:
		for _, x := range k.args {
			if o.unique(x, l) {
				return true
			}
		}
	}
	return false
}

// fresh: the entries of a map are objects made for them.
func (o *ordering) fresh(m *Term) bool {
	for _, ef := range o.s.q.mi.sets[m] {
		for _, a := range o.s.e.alts(ef.args[2]) {
			oi, ok := a.t.obj.(*ObjInfo)
			if a.t.op != OObj || !ok || len(minus(ef.loops, oi.loops)) > 0 {
				return false
			}
		}
	}
	return len(o.s.q.mi.sets[m]) > 0
}

// undetermined finds a part of v that can differ between iterations with the
// same key.
func (o *ordering) undetermined(v *Term, l *Loop, k *Term, ef *Effect) *Term {
	e := o.s.e
	var known []*Term
	o.keys(k, &known)
	for _, x := range o.parts(v, ef) {
		for _, y := range o.leaves(x, l) {
			if !o.follows(x, y, known, l) {
				return y
			}
		}
	}
	_ = e
	return nil
}

func (o *ordering) keys(k *Term, out *[]*Term) {
	*out = append(*out, k)
	if k.op == OStruct || k.op == OList {
		for _, x := range k.args {
			o.keys(x, out)
		}
	}
}

// parts are v and, if it is a new object, what its fields hold.
func (o *ordering) parts(v *Term, ef *Effect) []*Term {
	e := o.s.e
	var out []*Term
	for _, a := range e.alts(v) {
		x := a.t
		if x.op == OStruct {
			out = append(out, x.args...)
			continue
		}
		oi, ok := x.obj.(*ObjInfo)
		if x.op != OObj || !ok {
			out = append(out, x)
			continue
		}
		if oi.kind != "alloc" || oi.typ == nil {
			continue // a new map or list
		}
		t := oi.typ
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			out = append(out, e.load(ef.mem, x, t))
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			f := e.load(ef.mem, e.FAddr(x, st.Field(i).Name(), st.Field(i).Type()), st.Field(i).Type())
			if f.op == OObj {
				f = e.load(ef.mem, f, nil)
			}
			out = append(out, f)
		}
	}
	return out
}

// follows: the leaf y of v is used in v only in ways that the known terms
// determine.
func (o *ordering) follows(v, y *Term, known []*Term, l *Loop) bool {
	e := o.s.e
	if y.op == OObj {
		return false
	}
	is := map[*Term]bool{}
	for _, k := range known {
		is[k] = true
		is[unconv(k)] = true
		// a module path says which module it is
		if k.op == OField && k.aux == "Path" && k.args[0].op == OField && k.args[0].aux == "Module" {
			is[k.args[0]] = true
		}
		if k.op == OField && (k.aux == "PkgPath" || k.aux == "ID" && k.args[0].typ != nil && strings.HasSuffix(k.args[0].typ.String(), "packages.Package")) {
			is[k.args[0]] = true
		}
		if k.op == OCall && (strings.HasSuffix(k.aux, "types.Package).Path") || strings.HasSuffix(k.aux, "ssa.Function).String")) {
			is[k.args[0]] = true
			if x := k.args[0]; x.op == OField && x.aux == "Func" {
				is[x.args[0]] = true
			}
		}
	}
	free := false
	e.walk(v, func(x *Term) bool {
		if is[x] {
			return false
		}
		if x == y {
			free = true
		}
		return true
	})
	return !free
}

// once checks tests of what earlier iterations did: what happens after such a
// test must be settled by what was tested.
func (o *ordering) once(ef *Effect, l *Loop, vals ...*Term) string {
	s, e := o.s, o.s.e
	first := func(a *Term, key map[*Term]*Term) string {
		m, k, ok := s.q.member(a)
		if !ok || !o.changes(m, l) || o.own(m, l) || o.container(m, l) {
			return ""
		}
		if key != nil {
			k = e.Subst(k, key)
		}
		for _, v := range vals {
			if x := o.undetermined(v, l, k, ef); x != nil && !o.own(v, l) {
				return "it happens only for the first " + s.short(x)
			}
		}
		return ""
	}
	for _, i := range e.bdd.Support(e.bdd.Restrict(ef.pc, l.pc)) {
		a := e.atoms[i]
		if a.op == OLV && a.loop == l {
			return "it happens depending on what earlier iterations did"
		}
		if a.op == OEq && a.args[0].op == OLen && o.changes(a.args[0].args[0], l) {
			return "it happens depending on how much earlier iterations did"
		}
		if why := first(a, nil); why != "" {
			return why
		}
	}
	// tests made before a recursive call
	for j, args := range l.recArgs {
		key := map[*Term]*Term{}
		for i, p := range l.recParams {
			if i < len(args) && args[i] != p {
				key[args[i]] = p
			}
		}
		for _, i := range e.bdd.Support(e.bdd.Restrict(l.recPC[j], l.pc)) {
			if why := first(e.atoms[i], key); why != "" {
				return why
			}
		}
	}
	return ""
}

// changes: iterations of l change the container.
func (o *ordering) changes(m *Term, l *Loop) bool {
	for _, ef := range o.s.e.effects {
		if (ef.kind == "mapset" || ef.kind == "mapdel") && ef.args[0] == m && hasLoop(ef.loops, l) {
			return true
		}
	}
	return m.op == OLV && m.loop == l || m.op == OAppend
}

// container: the map holds further maps or lists, made when first needed.
func (o *ordering) container(m *Term, l *Loop) bool {
	n := 0
	for _, ef := range o.s.e.effects {
		if ef.kind == "mapset" && ef.args[0] == m {
			n++
			for _, a := range o.s.e.alts(ef.args[2]) {
				oi, ok := a.t.obj.(*ObjInfo)
				if !(a.t.op == OObj && ok && oi.kind == "map") {
					return false
				}
			}
		}
	}
	return n > 0
}

// variables checks the variables assigned in a loop without a fixed order and
// the values it is left with.
func (o *ordering) variables(l *Loop, why string) bool {
	s, c, e := o.s, o.s.c, o.s.e
	good := true
	fail := func(format string, args ...interface{}) {
		good = false
		c.fail("order", c.pos(l.pos), l.frame.fn.Name(), format+" in a loop over "+why+", which comes in no fixed order", args...)
	}
	for lv, back := range l.back {
		if back == lv || l.kind == "rec" || o.grown(back, lv) {
			continue
		}
		// used in the loop: what earlier iterations did
		if u := o.used(lv, l, true); u != "" {
			fail("a variable assigned in earlier iterations (%s) is used %s", s.short(lv), u)
			continue
		}
		if o.sum(lv, back, l) {
			continue
		}
		for _, a := range e.alts(back) {
			x := a.t
			if x == lv || x.op == OConst || !o.varies(x, l) || o.extreme(x, lv, a.c) {
				continue
			}
			if u := o.used(lv, l, false); u != "" {
				fail("the value of a variable (%s), used %s, depends on the last iteration", s.short(x), u)
			}
			break
		}
	}
	return good
}

// extreme: lv is replaced by x only if x is larger, or only if it is smaller.
func (o *ordering) extreme(x, lv *Term, c Node) bool {
	e, b := o.s.e, o.s.e.bdd
	if x.op == OCall && (x.aux == "max" || x.aux == "min") {
		return true
	}
	return b.And(c, b.Not(e.Cond(e.Lt(lv, x)))) == False || b.And(c, b.Not(e.Cond(e.Lt(x, lv)))) == False
}

// grown: the list t is lv with elements added or taken away.
func (o *ordering) grown(t, lv *Term) bool {
	for _, a := range o.s.e.alts(t) {
		x := a.t
		for x.op == OAppend || x.op == OSlice && len(x.args) > 0 || x.op == OFilter {
			x = x.args[0]
		}
		if x != lv && x.op != OConst && !(x.op == OSlice && x.aux == "empty") {
			if x.op == OGate && x != t && o.grown(x, lv) {
				continue
			}
			if x.op == OLV && lv.loop != nil && inside(x.loop, lv.loop) && x.loop.init[x] != nil && o.grown(x.loop.init[x], lv) && o.grown(x.loop.back[x], x) {
				continue // in an inner loop
			}
			return false
		}
	}
	return sliceElem(lv.typ) != nil || lv.typ == nil
}

// used tells where a loop variable is used, in the loop or after it.
func (o *ordering) used(lv *Term, l *Loop, in bool) string {
	e := o.s.e
	is := func(x *Term) bool { return x == lv }
	for _, ef := range e.effects {
		if hasLoop(ef.loops, l) != in || ef.kind == "enter" {
			continue
		}
		if in && (ef.kind == "store" || ef.kind == "fieldset") && len(ef.args) > 1 && o.sum(lv, ef.args[1], l) {
			continue // its own update
		}
		hit := false
		for _, a := range ef.args {
			hit = hit || e.contains(a, is)
		}
		for _, i := range e.bdd.Support(ef.pc) {
			hit = hit || !in && e.contains(e.atoms[i], is)
		}
		if hit {
			return "at " + o.s.c.pos(posOf(ef))
		}
	}
	return ""
}

// uses checks what an effect uses of loops that are over and of unsorted
// lists.
func (o *ordering) uses(ef *Effect) {
	s, c, e := o.s, o.s.c, o.s.e
	if ef.kind == "enter" || ef.kind == "append" || ef.kind == "sort" || ef.kind == "makeslice" || ef.kind == "reccall" {
		return
	}
	out := o.output(ef)
	if x := o.accident(ef); out && x != "" {
		c.failEff("accident", ef, "%s differs from run to run", x)
		return
	}
	for _, a := range ef.args {
		bad := ""
		e.walk(a, func(x *Term) bool {
			switch x.op {
			case OExists, OFilter:
				return false
			case OKey, OElem:
				if x.loop != nil && hasLoop(ef.loops, x.loop) {
					return false
				}
				if x.loop != nil && !hasLoop(ef.loops, x.loop) && bad == "" && out {
					if why := o.loop(x.loop); why != "" && !o.pinned(x, ef.pc) {
						bad = "it uses whatever element of " + why + " came first (" + s.short(x) + ")"
					}
				}
			case OLen:
				return false
			case OIndex:
				if y := x.args[0]; y.op == OLV && hasLoop(ef.loops, y.loop) {
					return false
				} else if x.args[1].op == OConst && bad == "" && out && sliceElem(y.typ) != nil {
					if why := o.list(y, ef.seq, ef.loops, ef.pc, nil); why != "" {
						bad = "it uses an element at a fixed place of a list filled in the order of " + why
					}
				}
			case OLV, OAppend, OObj:
				if bad == "" && out && (sliceElem(x.typ) != nil || x.op == OAppend) {
					if why := o.list(x, o.end(ef), o.around(ef), o.when(ef), nil); why != "" {
						bad = "it uses a list filled in the order of " + why
					}
				}
			}
			return true
		})
		if bad != "" {
			c.failEff("order", ef, "%s", bad)
			return
		}
	}
}

// accidents are calls whose result differs from run to run.
var accidents = []string{"time.Now", "time.Since", "(time.Time).", "math/rand.", "math/rand/v2.", "crypto/rand.", "os.Getpid", "os.Getppid", "os.MkdirTemp",
	"os.CreateTemp", "os.TempDir", "runtime.NumGoroutine", "runtime.ReadMemStats", "runtime.Stack", "runtime/debug.Stack", "os.Hostname"}

// accident names something an effect uses that differs from run to run.
func (o *ordering) accident(ef *Effect) string {
	e := o.s.e
	found := ""
	for _, a := range ef.args {
		e.walk(a, func(x *Term) bool {
			if x.op == OCall {
				for _, p := range accidents {
					if strings.HasPrefix(x.aux, p) {
						found = o.s.short(x)
					}
				}
			}
			return found == ""
		})
	}
	if w, ok := e.asWrite(ef); ok && found == "" {
		for _, p := range w.pieces {
			if p.term != nil && strings.HasSuffix(p.verb, "p") {
				found = "the address of " + o.s.short(p.term)
			}
		}
	}
	return found
}

// output: the effect shows its arguments to the user or puts them in a report.
func (o *ordering) output(ef *Effect) bool {
	switch ef.kind {
	case "call", "invoke":
		if w, ok := o.s.e.asWrite(ef); ok {
			return w.to == nil || !stderr(w.to)
		}
		return strings.HasPrefix(ef.name, "strings.Join") || strings.Contains(ef.name, "Execute") || strings.Contains(ef.name, "Marshal")
	case "dyncall":
		return true
	case "fieldset", "store":
		t := root(ef.args[0])
		oi, ok := t.obj.(*ObjInfo)
		return ok && oi.typ != nil && strings.Contains(oi.typ.String(), modulePath+"/proto.")
	}
	return false
}

// end: lists put in a report may be sorted until the end.
func (o *ordering) end(ef *Effect) int {
	if ef.kind == "fieldset" || ef.kind == "store" {
		return len(o.s.e.effects)
	}
	return ef.seq
}

func (o *ordering) around(ef *Effect) []*Loop { return ef.loops }

func (o *ordering) when(ef *Effect) Node { return ef.pc }

// pinned: the element is the one with a given key.
func (o *ordering) pinned(x *Term, pc Node) bool {
	e, b := o.s.e, o.s.e.bdd
	l := x.loop
	for _, ex := range l.exits {
		if ex.atom == nil || ex.dies {
			continue
		}
		ok := false
		for _, v := range b.Support(ex.cond) {
			a := e.atoms[v]
			if a.op == OEq && b.And(ex.cond, b.Not(b.Var(v))) == False {
				for i := range a.args {
					ok = ok || a.args[i].op == OKey && a.args[i].loop == l && !o.varies(a.args[1-i], l)
				}
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// canonical: elements that a sort takes for equal are equal in all that
// matters.
func (o *ordering) canonical(ef *Effect) bool {
	s, e := o.s, o.s.e
	b := e.bdd
	cp := s.comparing(ef)
	if cp == nil {
		o.bad = "undecided"
		return false
	}
	if ok, why := cp.consistent(); !ok {
		o.bad = why
		return false
	}
	if u := o.unstable(cp); u != "" {
		o.bad = "it compares " + u
		return false
	}
	// what is equal in elements that tie
	tie := o.valid(cp.tie(), cp)
	cands := map[*Term]bool{cp.a: true}
	for _, n := range []Node{cp.less, cp.more} {
		for _, v := range b.Support(n) {
			if e.atoms[v].op == OEq || e.atoms[v].op == OLt {
				for _, x := range e.atoms[v].args {
					if e.contains(x, func(y *Term) bool { return y == cp.a }) && !e.contains(x, func(y *Term) bool { return y == cp.b }) {
						cands[x] = true
					}
				}
			}
		}
	}
	known := map[*Term]bool{}
	for x := range cands {
		y := e.Subst(x, map[*Term]*Term{cp.a: cp.b})
		eq := e.Cond(e.Eq(x, y))
		n := b.And(tie, b.Not(eq))
		for _, v := range b.Support(n) {
			// made from the same thing
			if t := e.atoms[v]; t.op == OEq && (e.Subst(x, map[*Term]*Term{t.args[0]: t.args[1]}) == y || e.Subst(x, map[*Term]*Term{t.args[1]: t.args[0]}) == y) {
				n = b.And(n, b.Not(b.Var(v)))
			}
		}
		if n == False || b.And(n, s.care(n)) == False {
			known[x] = true
			known[unconv(x)] = true
		}
	}
	o.side = o.ends(ef.args[0])
	if o.ident(cp.a, sliceElem(ef.args[0].typ), known) {
		return true
	}
	var names []string
	for x := range known {
		names = append(names, s.short(x))
	}
	sort.Strings(names)
	o.bad = "different elements can be equal in " + strings.Join(names, ", ")
	if len(names) == 0 {
		o.bad = "nothing is the same in elements that compare equal"
	}
	return false
}

// ends lists the ends that can differ among the edges of a list.
func (o *ordering) ends(list *Term) map[string]bool {
	in, out := false, false
	for _, src := range o.s.q.elems(list, nil) {
		known := false
		o.s.e.walk(src.val, func(x *Term) bool {
			if x.op == OElem && x.args[0].op == OField && isNode(x.args[0].args[0]) {
				in = in || x.args[0].aux == "In"
				out = out || x.args[0].aux == "Out"
				known = true
			}
			return true
		})
		if !known {
			in, out = true, true
		}
	}
	return map[string]bool{"Caller": in, "Callee": out}
}

// valid leaves out comparisons of elements without function or position.
func (o *ordering) valid(n Node, cp *comparing) Node {
	e, b := o.s.e, o.s.e.bdd
	for _, v := range b.Support(n) {
		t := e.atoms[v]
		switch {
		case t.op == OEq && e.isNil(t.args[1]), t.op == OEq && t.args[0].op == OField && t.args[0].aux == "Line" && t.args[1].op == OConst:
			n = b.Restrict(n, b.Not(b.Var(v)))
		case t.op == OCall && strings.HasSuffix(t.aux, "token.Position).IsValid"):
			n = b.Restrict(n, b.Var(v))
		}
	}
	return n
}

// ident: the known terms say which x it is.
func (o *ordering) ident(x *Term, typ types.Type, known map[*Term]bool) bool {
	if known[x] {
		return true
	}
	// known parts of x, by how they are reached from it
	has := func(path ...string) bool {
		for k := range known {
			if reached(k, x, path) {
				return true
			}
		}
		return false
	}
	node := func(prefix ...string) bool {
		return has(append([]string{".String", "Func"}, prefix...)...) || has(append([]string{"Func"}, prefix...)...) || has(append([]string{".String"}, prefix...)...) || has(prefix...) && len(prefix) > 0
	}
	if typ == nil {
		return false
	}
	switch tn := strings.TrimPrefix(typ.String(), "*"); {
	case strings.HasSuffix(tn, "go/callgraph.Node"):
		return node()
	case strings.HasSuffix(tn, "go/ssa.Function"):
		return has(".String") || has(".RelString")
	case strings.HasSuffix(tn, "go/callgraph.Edge"):
		for _, end := range []string{"Caller", "Callee"} {
			if o.side[end] && !node(end) {
				return false
			}
		}
		return o.position(known)
	case strings.HasSuffix(tn, "go/packages.Package"):
		return has("PkgPath") || has("ID")
	case strings.HasSuffix(tn, "go/types.Package"):
		return has(".Path")
	case strings.HasSuffix(tn, "go/ssa.Package"):
		return has(".Path", "Pkg") || has(".String")
	case strings.HasPrefix(tn, protoPath+"."):
		switch tn[len(protoPath)+1:] {
		case "CapabilityStats":
			return has("Capability") || has("", "Capability")
		case "CapabilityInfo":
			return (has("Capability") || has("", "Capability")) && (has("PackageDir") || has("", "PackageDir") || has("DepPath") || has("", "DepPath"))
		case "ModuleInfo", "PackageInfo":
			return has("Path") || has("", "Path")
		}
		return false
	}
	if st, ok := typ.Underlying().(*types.Struct); ok && st.NumFields() > 0 {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			y := o.s.e.mk(OField, f.Name(), nil, x)
			if !o.ident(y, f.Type(), known) && !strings.HasPrefix(f.Type().String(), "*"+protoPath+".") {
				return false
			}
		}
		return true
	}
	return false
}

// position: the known terms hold a place in a source file.
func (o *ordering) position(known map[*Term]bool) bool {
	has := map[string]map[*Term]bool{}
	for k := range known {
		if k.op == OField {
			if has[k.aux] == nil {
				has[k.aux] = map[*Term]bool{}
			}
			has[k.aux][k.args[0]] = true
		}
	}
	for p := range has["Filename"] {
		if has["Offset"][p] || has["Line"][p] && has["Column"][p] {
			return true
		}
	}
	return false
}

// reached: t is a part of x; path tells how, from the outside in: fields by
// name, methods with a dot, and "" for what a pointer points to.
func reached(t, x *Term, path []string) bool {
	t = unconv(t)
	if len(path) == 0 {
		return t == x
	}
	if t.op == ODeref && path[0] != "" {
		return reached(t.args[0], x, path)
	}
	switch {
	case path[0] == "":
		return t.op == ODeref && reached(t.args[0], x, path[1:])
	case path[0][0] == '.':
		return t.op == OCall && len(t.args) > 0 && strings.HasSuffix(strings.SplitN(t.aux, "#", 2)[0], path[0]) && reached(t.args[0], x, path[1:])
	}
	if t.op == OCall && len(t.args) == 1 && strings.HasSuffix(t.aux, ".Get"+path[0]) {
		return reached(t.args[0], x, path[1:])
	}
	return t.op == OField && t.aux == path[0] && reached(t.args[0], x, path[1:])
}

// unstable names something compared that differs from run to run.
func (o *ordering) unstable(cp *comparing) string {
	e, b := o.s.e, o.s.e.bdd
	bad := ""
	for _, v := range b.Support(cp.less) {
		e.walk(e.atoms[v], func(x *Term) bool {
			switch {
			case x.op == OCall && strings.HasSuffix(strings.SplitN(x.aux, "#", 2)[0], "token.FileSet).Position"):
				return false
			case x.op == OCall && strings.HasSuffix(strings.SplitN(x.aux, "#", 2)[0], ").Pos"):
				bad = "raw source positions"
			case x.op == OField && x.aux == "ID" && isNode(x.args[0]):
				bad = "the numbers of call graph nodes"
			}
			return true
		})
	}
	return bad
}
