package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

// Source is one way an element gets into a container: the value (and key, for
// maps), the condition under which it is put there, and the loops around that.
type Source struct {
	val     *Term
	key     *Term
	pc      Node
	loops   []*Loop
	eff     *Effect
	sym     bool // stands for an arbitrary element of a container we do not see built
	partial bool // the container was cut (x[i:j]) on the way
	cont    *Term
}

type mapIndex struct {
	sets  map[*Term][]*Effect
	dels  map[*Term][]*Effect
	copys map[*Term][]*Effect
	slots map[*Term][]*Effect // stores to elements of a made slice
}

func (e *Eval) index() *mapIndex {
	mi := &mapIndex{map[*Term][]*Effect{}, map[*Term][]*Effect{}, map[*Term][]*Effect{}, map[*Term][]*Effect{}}
	for _, ef := range e.effects {
		switch ef.kind {
		case "mapset":
			for _, a := range e.alts(ef.args[0]) {
				mi.sets[a.t] = append(mi.sets[a.t], ef)
			}
		case "mapdel":
			for _, a := range e.alts(ef.args[0]) {
				mi.dels[a.t] = append(mi.dels[a.t], ef)
			}
		case "mapcopy":
			for _, a := range e.alts(ef.args[0]) {
				mi.copys[a.t] = append(mi.copys[a.t], ef)
			}
		case "store":
			if a := ef.args[0]; a.op == OIAddr {
				mi.slots[a.args[0]] = append(mi.slots[a.args[0]], ef)
			}
		}
	}
	return mi
}

func altCond(e *Eval, t *Term, want *Term) Node {
	r := False
	for _, a := range e.alts(t) {
		if a.t == want {
			r = e.bdd.Or(r, a.c)
		}
	}
	return r
}

// elems lists the sources of the elements of a slice.  L is the loop that
// iterates over it (used to name symbolic elements); it may be nil.
func (q *Query) elems(c *Term, L *Loop, stop ...*Term) []Source {
	var out []Source
	seen := map[*Term]bool{}
	for _, t := range stop {
		seen[t] = true
	}
	e := q.e
	visited := func() (out []*Term) {
		for t := range seen {
			out = append(out, t)
		}
		return
	}
	var rec func(c *Term, pc Node, partial bool)
	rec = func(c *Term, pc Node, partial bool) {
		c = original(c)
		if L != nil && q.stop[c] {
			out = append(out, Source{val: q.elemOf(c, L), pc: pc, sym: true, partial: partial, cont: c})
			return
		}
		switch c.op {
		case OGate:
			for _, a := range e.alts(c) {
				rec(a.t, e.bdd.And(pc, a.c), partial)
			}
			return
		case OConst:
			return
		case OLV:
			if m := c.keys(); m != nil && L != nil && L != c.loop {
				out = append(out, Source{val: q.keyOf(m, L), pc: pc, sym: true, partial: partial, cont: m})
				return
			}
			if seen[c] {
				return
			}
			seen[c] = true
			if t := c.loop.init[c]; t != nil {
				rec(t, pc, partial)
			}
			if t := c.loop.back[c]; t != nil {
				rec(t, pc, partial)
			}
			return
		case OList:
			for _, x := range c.args {
				out = append(out, Source{val: x, pc: pc, partial: partial})
			}
			return
		case OAppend:
			rec(c.args[0], pc, partial)
			ef := e.appendE[c]
			if ef == nil {
				out = append(out, Source{val: c, sym: true, pc: pc, cont: c})
				return
			}
			add := c.args[1]
			if add.op == OList {
				for _, x := range add.args {
					out = append(out, Source{val: x, pc: e.bdd.And(pc, ef.pc), loops: ef.loops, eff: ef, partial: partial})
				}
				return
			}
			for _, s := range q.elems(add, q.spreadLoop(c, add), visited()...) {
				s.pc = e.bdd.And(s.pc, pc, ef.pc)
				s.loops = joinLoops(ef.loops, s.loops)
				if s.eff == nil {
					s.eff = ef
				}
				s.partial = s.partial || partial
				out = append(out, s)
			}
			return
		case OSlice:
			if c.aux == "empty" {
				return
			}
			rec(c.args[0], pc, true)
			return
		case OFilter:
			by := L
			if by == nil {
				by = c.loop
			}
			for _, s := range q.elems(c.args[0], by, visited()...) {
				el := e.intern(Term{op: OElem, args: []*Term{c.args[0]}, loop: c.loop})
				m := map[*Term]*Term{el: s.val}
				s.pc = e.bdd.And(pc, s.pc, q.substN(c.node, m, s.eff))
				if s.sym && by == c.loop {
					s.loops = addLoop(s.loops, c.loop)
				}
				s.partial = s.partial || partial
				out = append(out, s)
			}
			return
		case OCall:
			switch c.aux {
			case "slices.Compact":
				rec(c.args[0], pc, partial)
				return
			case "sorted:maps.Keys", "collect:maps.Keys":
				m := c.args[0]
				out = append(out, Source{val: q.keyOf(m, L), pc: pc, sym: true, partial: partial, cont: m})
				return
			case "sorted:maps.Values", "collect:maps.Values":
				m := c.args[0]
				if L == nil {
					for _, s := range q.entries(m, nil) {
						s.key, s.pc, s.partial = nil, e.bdd.And(pc, s.pc), partial
						out = append(out, s)
					}
					return
				}
				v, _ := e.lookup1(nil, m, q.keyOf(m, L), mapElem(m.typ))
				out = append(out, Source{val: v, pc: pc, sym: true, partial: partial, cont: m})
				return
			}
		case OObj:
			if oi, ok := c.obj.(*ObjInfo); ok && oi.kind == "slice" {
				for _, ef := range q.mi.slots[c] {
					out = append(out, Source{val: ef.args[1], key: ef.args[0].args[1], pc: e.bdd.And(pc, ef.pc), loops: ef.loops, eff: ef, partial: partial})
				}
				return
			}
		}
		out = append(out, Source{val: q.elemOf(c, L), pc: pc, sym: true, partial: partial, cont: c})
	}
	rec(c, True, false)
	return out
}

func (q *Query) spreadLoop(c, add *Term) *Loop {
	k := fmt.Sprintf("spread:%d", c.id)
	L := q.e.loopsMap[k]
	if L == nil {
		L = &Loop{id: len(q.e.allLoops), kind: "index", container: add, init: map[*Term]*Term{}, back: map[*Term]*Term{}, cont: True}
		if ef := q.e.appendE[c]; ef != nil {
			L.frame, L.pos, L.parents = ef.frame, ef.instr.Pos(), ef.loops
		}
		q.e.allLoops = append(q.e.allLoops, L)
		q.e.loopsMap[k] = L
	}
	return L
}

func (q *Query) keyOf(m *Term, L *Loop) *Term {
	var kt types.Type
	if mm, ok := typeUnder(m.typ).(*types.Map); ok {
		kt = mm.Key()
	}
	return q.e.intern(Term{op: OKey, args: []*Term{m}, loop: L, typ: kt})
}

func (q *Query) elemOf(c *Term, L *Loop) *Term {
	return q.e.intern(Term{op: OElem, args: []*Term{c}, loop: L, typ: sliceElem(c.typ)})
}

// entries lists the sources of a map's entries.
func (q *Query) entries(m *Term, L *Loop) []Source {
	e := q.e
	var out []Source
	for _, a := range e.alts(m) {
		if e.isNil(a.t) {
			continue
		}
		if a.t.op != OObj || (L != nil && q.stop[a.t]) {
			k := q.keyOf(a.t, L)
			if L == nil {
				out = append(out, Source{key: k, val: e.mk(OLookup, "", mapElem(a.t.typ), a.t, k), pc: a.c, sym: true, cont: a.t})
				continue
			}
			v, _ := e.lookup1(nil, a.t, k, mapElem(a.t.typ))
			out = append(out, Source{key: k, val: v, pc: a.c, sym: true, cont: a.t})
			continue
		}
		for _, ef := range q.mi.sets[a.t] {
			c := altCond(e, ef.args[0], a.t)
			out = append(out, Source{key: ef.args[1], val: ef.args[2], pc: e.bdd.And(a.c, c, ef.pc), loops: ef.loops, eff: ef})
		}
		for _, ef := range q.mi.copys[a.t] {
			for _, s := range q.entries(ef.args[1], q.copyLoop(ef)) {
				s.pc = e.bdd.And(a.c, s.pc, ef.pc)
				s.loops = joinLoops(ef.loops, s.loops)
				if s.eff == nil {
					s.eff = ef
				}
				out = append(out, s)
			}
		}
	}
	return out
}

func (q *Query) copyLoop(ef *Effect) *Loop {
	k := fmt.Sprintf("copy:%p", ef)
	L := q.e.loopsMap[k]
	if L == nil {
		L = &Loop{id: len(q.e.allLoops), kind: "map", container: ef.args[1], frame: ef.frame, pos: ef.instr.Pos(), parents: ef.loops,
			init: map[*Term]*Term{}, back: map[*Term]*Term{}, cont: True}
		q.e.allLoops = append(q.e.allLoops, L)
		q.e.loopsMap[k] = L
	}
	return L
}

func joinLoops(a, b []*Loop) []*Loop {
	out := append([]*Loop(nil), a...)
	for _, l := range b {
		out = addLoop(out, l)
	}
	return out
}

func addLoop(a []*Loop, l *Loop) []*Loop {
	for _, x := range a {
		if x == l {
			return a
		}
	}
	return append(append([]*Loop(nil), a...), l)
}

// Event is an effect (or a container element) rewritten in terms of the
// containers the program is given, with derived containers expanded.
type Event struct {
	pc    Node
	loops []*Loop
	terms []*Term
	eff   *Effect
	cont  map[*Loop]*Term // loops whose container was narrowed to one alternative
	cut   bool
	trail []*Effect
	via   []*Loop // loops over derived containers that were replaced
	hist  []replaced
}

// replaced records how a loop was expanded, so that sources found later that
// are inside the same loop can be expanded the same way.
type replaced struct {
	L     *Loop
	m     map[*Term]*Term
	eff   *Effect
	loops []*Loop
}

type Query struct {
	e    *Eval
	mi   *mapIndex
	stop map[*Term]bool

	after func(*Term) *Term // value of a term once its loops are done
}

func NewQuery(e *Eval) *Query { return &Query{e: e, mi: e.index(), stop: map[*Term]bool{}} }

func (q *Query) event(ef *Effect, terms ...*Term) Event {
	return Event{pc: ef.pc, loops: ef.loops, terms: terms, eff: ef, cont: map[*Loop]*Term{}}
}

func (ev Event) container(L *Loop) *Term {
	if t := ev.cont[L]; t != nil {
		return t
	}
	return L.container
}

// substT substitutes and reads fields of local objects from the memory at the
// point where they were put into the container.
func (q *Query) substT(t *Term, m map[*Term]*Term, ef *Effect) *Term {
	s := &substituter{u: q.e.U, m: m, memo: map[*Term]*Term{}, nmemo: map[Node]Node{}}
	s.f = q.resolver(ef)
	return s.term(t)
}

func (q *Query) substN(n Node, m map[*Term]*Term, ef *Effect) Node {
	s := &substituter{u: q.e.U, m: m, memo: map[*Term]*Term{}, nmemo: map[Node]Node{}}
	s.f = q.resolver(ef)
	return s.nodeS(n)
}

func (q *Query) resolver(ef *Effect) func(*Term) *Term {
	if ef == nil {
		return nil
	}
	return func(t *Term) *Term {
		if t.op == OField && (t.args[0].op == OObj || t.args[0].op == OFAddr) && isAddr(t.args[0]) {
			v := q.e.load(ef.mem, q.e.FAddr(t.args[0], t.aux, t.typ), t.typ)
			v = q.deptr(ef.mem, v, t.typ)
			if q.after != nil {
				v = q.after(v)
			}
			return v
		}
		return nil
	}
}

// deptr reads through the address stored in an optional proto field.
func (q *Query) deptr(m *Mem, v *Term, ft types.Type) *Term {
	return q.e.dist(v, elemType(ft), func(x *Term) *Term {
		el := elemType(ft)
		if el == nil && x.typ != nil {
			el = elemType(x.typ)
		}
		if el == nil || !isAddr(x) {
			return x
		}
		if _, ok := el.Underlying().(*types.Basic); !ok {
			return x
		}
		return q.e.load1(m, x, el)
	})
}

func (q *Query) derived(c *Term) bool {
	if c == nil || q.stop[c] {
		return false
	}
	switch c.op {
	case OGate:
		return true
	case OLV, OAppend, OFilter, OSlice, OList:
		return true
	case OObj:
		return true
	case OCall:
		return strings.HasPrefix(c.aux, "sorted:") || strings.HasPrefix(c.aux, "collect:") || c.aux == "slices.Compact"
	}
	return false
}

// expand rewrites ev until every loop in it runs over a container that is not
// built by the program itself (or is listed in q.stop).
func (q *Query) expand(ev Event) []Event {
	var out []Event
	work := []Event{ev}
	n := 0
	for len(work) > 0 {
		ev := work[len(work)-1]
		work = work[:len(work)-1]
		n++
		if n > 4000 {
			q.e.problem("expansion of %s does not terminate", q.e.prog.pos(ev.eff.instr.Pos()))
			return out
		}
		if ev.pc == False {
			continue
		}
		L := q.nextLoop(ev)
		if L == nil {
			out = append(out, ev)
			continue
		}
		next := q.expandLoop(ev, L)
		for i := len(next) - 1; i >= 0; i-- {
			work = append(work, next[i])
		}
	}
	return out
}

func (q *Query) nextLoop(ev Event) *Loop {
	for _, L := range ev.loops {
		switch L.kind {
		case "index", "map", "slices.DeleteFunc", "slices.ContainsFunc":
		default:
			continue
		}
		c := ev.container(L)
		if !q.derived(c) {
			continue
		}
		if c.op == OLV && c.loop.kind == "while" && isQueueOf(c) {
			continue
		}
		return L
	}
	return nil
}

// isQueueOf reports whether lv is the work queue of its own loop.
func isQueueOf(lv *Term) bool { return false }

func (q *Query) expandLoop(ev Event, L *Loop) []Event {
	e := q.e
	c := ev.container(L)
	var out []Event
	isMap := L.kind == "map"
	if _, ok := typeUnder(c.typ).(*types.Map); ok {
		isMap = true
	}
	var srcs []Source
	if isMap {
		srcs = q.entries(c, L)
	} else {
		srcs = q.elems(c, L)
	}
	for _, s := range srcs {
		if s.eff != nil && q.later(s.eff, ev.eff) {
			continue
		}
		if len(s.loops) > 0 {
			s = q.replay(s, ev, L)
			s = q.freshen(s, ev, L)
		}
		m := map[*Term]*Term{}
		if isMap {
			k := e.intern(Term{op: OKey, args: []*Term{L.container}, loop: L})
			k2 := e.intern(Term{op: OKey, args: []*Term{c}, loop: L})
			m[k], m[k2] = s.key, s.key
			if !s.sym {
				// lookups of the visited key give the stored value
				for _, kk := range []*Term{k, k2} {
					for _, a := range e.alts(c) {
						lk := e.mk(OLookup, "", mapElem(c.typ), a.t, kk)
						m[lk] = s.val
					}
				}
			}
		} else {
			el := e.intern(Term{op: OElem, args: []*Term{L.container}, loop: L})
			el2 := e.intern(Term{op: OElem, args: []*Term{c}, loop: L})
			m[el], m[el2] = s.val, s.val
			if s.key != nil {
				m[e.intern(Term{op: OIdx, loop: L})] = s.key
			}
		}
		n := Event{eff: ev.eff, cont: map[*Loop]*Term{}, cut: ev.cut || s.partial, trail: ev.trail, via: addLoop(ev.via, L)}
		for k, v := range ev.cont {
			n.cont[k] = v
		}
		n.pc = e.bdd.And(q.substN(ev.pc, m, s.eff), s.pc)
		for _, t := range ev.terms {
			n.terms = append(n.terms, q.substT(t, m, s.eff))
		}
		if s.eff != nil {
			n.trail = append(append([]*Effect(nil), ev.trail...), s.eff)
		}
		h := replaced{L: L, m: m, eff: s.eff, loops: s.loops}
		if s.sym {
			h.loops = []*Loop{L}
		}
		n.hist = append(append([]replaced(nil), ev.hist...), h)
		for _, x := range ev.loops {
			if x != L {
				n.loops = addLoop(n.loops, x)
				// containers of inner loops may mention the element
				if x.container != nil {
					cc := ev.container(x)
					if sc := q.substT(cc, m, s.eff); sc != cc {
						n.cont[x] = sc
						q.rekey(&n, x, cc, sc)
					}
				}
				continue
			}
			if s.sym {
				n.loops = addLoop(n.loops, L)
				n.cont[L] = s.cont
				continue
			}
			for _, y := range s.loops {
				n.loops = addLoop(n.loops, y)
			}
		}
		out = append(out, n)
	}
	return out
}

// later reports whether a happens after b in every execution: it is evaluated
// later and no loop around both could bring it before b again.
func (q *Query) later(a, b *Effect) bool {
	if b == nil || a.init || b.init || a.seq <= b.seq {
		return false
	}
	for _, x := range a.loops {
		for _, y := range b.loops {
			if x == y {
				return false
			}
		}
	}
	return true
}

// rekey renames elements of loop x after its container changed from a to b.
func (q *Query) rekey(ev *Event, x *Loop, a, b *Term) {
	e := q.e
	m := map[*Term]*Term{}
	for _, op := range []Op{OElem, OKey} {
		src := e.intern(Term{op: op, args: []*Term{a}, loop: x})
		if b.op == OGate {
			// leave distribution to the expansion of x
		}
		m[src] = e.intern(Term{op: op, args: []*Term{b}, loop: x, typ: src.typ})
	}
	ev.pc = q.substN(ev.pc, m, nil)
	for i, t := range ev.terms {
		ev.terms[i] = q.substT(t, m, nil)
	}
}

// replay rewrites a source that is inside loops of the event that were already
// expanded.
func (q *Query) replay(s Source, ev Event, L *Loop) Source {
	for _, h := range ev.hist {
		has := false
		for _, l := range s.loops {
			has = has || l == h.L
		}
		if !has || (len(h.loops) == 1 && h.loops[0] == h.L) {
			continue
		}
		outer := false
		for _, p := range L.parents {
			outer = outer || p == h.L
		}
		if !outer {
			continue
		}
		s.pc = q.substN(s.pc, h.m, h.eff)
		if s.val != nil {
			s.val = q.substT(s.val, h.m, h.eff)
		}
		if s.key != nil {
			s.key = q.substT(s.key, h.m, h.eff)
		}
		var ls []*Loop
		for _, l := range s.loops {
			if l != h.L {
				ls = addLoop(ls, l)
				continue
			}
			ls = joinLoops(ls, h.loops)
		}
		s.loops = ls
	}
	return s
}

// freshen renames loops of a source that also occur, independently, around the
// event.
func (q *Query) freshen(s Source, ev Event, L *Loop) Source {
	e := q.e
	shared := map[*Loop]bool{}
	for _, p := range L.parents {
		shared[p] = true
		for _, h := range ev.hist {
			if h.L == p {
				for _, l := range h.loops {
					shared[l] = true
				}
			}
		}
	}
	ren := map[*Loop]*Loop{}
	for _, l := range s.loops {
		if shared[l] {
			continue
		}
		for _, x := range ev.loops {
			if x == l {
				nl := *l
				nl.id = len(e.allLoops)
				e.allLoops = append(e.allLoops, &nl)
				ren[l] = &nl
			}
		}
	}
	if len(ren) == 0 {
		return s
	}
	sb := &substituter{u: e.U, m: map[*Term]*Term{}, memo: map[*Term]*Term{}, nmemo: map[Node]Node{}}
	sb.f = func(t *Term) *Term {
		if t.loop != nil && ren[t.loop] != nil {
			return e.intern(Term{op: t.op, aux: t.aux, args: t.args, node: t.node, loop: ren[t.loop], typ: t.typ, obj: t.obj})
		}
		return nil
	}
	s.pc = sb.nodeS(s.pc)
	if s.val != nil {
		s.val = sb.term(s.val)
	}
	if s.key != nil {
		s.key = sb.term(s.key)
	}
	var ls []*Loop
	for _, l := range s.loops {
		if r := ren[l]; r != nil {
			l = r
		}
		ls = append(ls, l)
	}
	s.loops = ls
	return s
}

// nested recognises the get-or-create idiom: a set stored in map outer under
// key k.
func (q *Query) nested(m *Term) (outer, k *Term) {
	e := q.e
	for _, a := range e.alts(m) {
		switch a.t.op {
		case OLookup:
			if outer != nil && (outer != a.t.args[0] || k != a.t.args[1]) {
				if outer != a.t.args[0] {
					return nil, nil
				}
			}
			outer, k = a.t.args[0], a.t.args[1]
		}
	}
	return
}

// nestedSets lists insertions outer[k][key] = val.
type nestedSet struct {
	k, key, val *Term
	pc          Node
	eff         *Effect
}

func (q *Query) nestedSets(outer *Term) []nestedSet {
	e := q.e
	var out []nestedSet
	for _, ef := range e.effects {
		if ef.kind != "mapset" {
			continue
		}
		for _, a := range e.alts(ef.args[0]) {
			switch {
			case a.t.op == OLookup && a.t.args[0] == outer:
				out = append(out, nestedSet{a.t.args[1], ef.args[1], ef.args[2], e.bdd.And(ef.pc, a.c), ef})
			case a.t.op == OObj:
				// a new inner set stored under some key
				for _, s := range q.mi.sets[outer] {
					if c := altCond(e, s.args[2], a.t); c != False {
						for _, k := range e.alts(s.args[1]) {
							if pc := e.bdd.And(ef.pc, a.c, s.pc, k.c, c); pc != False {
								out = append(out, nestedSet{k.t, ef.args[1], ef.args[2], pc, ef})
							}
						}
					}
				}
			}
		}
	}
	// join insertions made by one effect under one key
	var res []nestedSet
	for _, n := range out {
		found := false
		for i := range res {
			if res[i].eff == n.eff && res[i].k == n.k {
				res[i].pc = e.bdd.Or(res[i].pc, n.pc)
				found = true
			}
		}
		if !found {
			res = append(res, n)
		}
	}
	return res
}

// member recognises tests for membership of a key in a map used as a set.
func (q *Query) member(atom *Term) (m, k *Term, ok bool) {
	switch atom.op {
	case OIn:
		return atom.args[0], atom.args[1], true
	case OLookup:
		if isBoolType(atom.typ) && q.onlyTrue(atom.args[0]) {
			return atom.args[0], atom.args[1], true
		}
	}
	return nil, nil, false
}

// nonMember recognises m[k] == nil where only non-nil values are stored.
func (q *Query) nilEntry(atom *Term) (m, k *Term, ok bool) {
	if atom.op == OEq && q.e.isNil(atom.args[1]) && atom.args[0].op == OLookup {
		return atom.args[0].args[0], atom.args[0].args[1], true
	}
	return nil, nil, false
}

func (q *Query) onlyTrue(m *Term) bool {
	for _, ef := range q.mi.sets[m] {
		if v := ef.args[2]; !(v.op == OBool && v.node == True) {
			return false
		}
	}
	return true
}

// earlyExits lists ways out of the loops of an event other than exhaustion.
func (q *Query) earlyExits(loops []*Loop) []string {
	var out []string
	for _, L := range loops {
		for _, x := range L.exits {
			if x.cond == False || x.dies {
				continue
			}
			p := x.pos
			if !p.IsValid() {
				p = L.pos
			}
			out = append(out, fmt.Sprintf("%s: the loop can be left early when %s", q.e.prog.pos(p), q.e.NStr(x.cond)))
		}
	}
	return out
}

func posOf(ef *Effect) token.Pos {
	if ef == nil || ef.instr == nil {
		return token.NoPos
	}
	if p := ef.instr.Pos(); p.IsValid() {
		return p
	}
	b := ef.instr.Block()
	if b == nil {
		return token.NoPos
	}
	// nearest instruction with a position
	last := token.NoPos
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			last = in.Pos()
		}
		if in == ef.instr && last.IsValid() {
			return last
		}
	}
	return firstPos(b)
}
