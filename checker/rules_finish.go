package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C30", "Every loop and every recursion that the analyses, the output modes, both commands and the reader of capability maps can "+
		"reach is shown to end. A loop over a list, a map or a number must not add to what it runs over. A loop that works off a list, or a "+
		"function that calls itself, may only go on with an item after finding it absent from a set that outlives the iteration and entering it "+
		"there, or with a part of a syntax tree. A loop that follows recorded edges must read the records of a search that enters each node "+
		"once, with an edge to the node it was found from. Other loops must count towards a fixed bound or read input until it ends.", ruleC30)
}

func ruleC30(c *Check) {
	run := func(s *Sem) {
		if s == nil {
			return
		}
		(&finishing{s: s}).check()
		c.problems(s.e, s.name)
	}
	for _, s := range c.analyses() {
		run(s)
	}
	mode := func(name string) argFn {
		return func(e *Eval, p *ssa.Parameter) *Term {
			if isStringType(p.Type()) {
				return e.Const("\""+name+"\"", p.Type())
			}
			return nil
		}
	}
	for _, m := range []string{"", "v", "json", "m", "compare"} {
		c.opaque = map[string]bool{anaPkg + ".GetCapabilityInfo": true, anaPkg + ".GetCapabilityCounts": true, anaPkg + ".GetCapabilityStats": true}
		s, _ := c.semArgs("/analyzer", "RunCapslock", nil, mode(m), "/analyzer")
		c.opaque = nil
		run(s)
	}
	for _, filtered := range []bool{false, true} {
		s, _ := c.graphRun(filtered)
		run(s)
	}
	for _, pkg := range []string{"/cmd/capslock", "/cmd/capslock-git-diff"} {
		if m := c.command(pkg); m != nil {
			run(m.Sem)
		}
	}
	s, _ := c.sem("/interesting", "LoadClassifier", "/interesting")
	run(s)
	c.need("vacuity", "loops", c.stats["loops"], 400)
	c.need("vacuity", "lists worked off", c.stats["worklists"], 10)
	c.need("vacuity", "walks along recorded edges", c.stats["walks"], 6)
	c.need("vacuity", "recursions", c.stats["recursions"], 10)
}

// finishing shows that loops end.
type finishing struct{ s *Sem }

func (t *finishing) check() {
	s, c := t.s, t.s.c
	for _, l := range s.e.allLoops {
		if l.pc == False {
			continue
		}
		c.count("loops", 1)
		fn := s.fn
		if l.frame != nil {
			fn = l.frame.fn.Name()
		}
		if why := t.loop(l); why != "" {
			c.fail("ends", c.pos(l.pos), fn, "this %s may not end, or do the same work over and over: %s", noun(l), shorten.Replace(why))
		} else {
			c.ok("ends", fn+" "+c.pos(l.pos))
		}
	}
}

func noun(l *Loop) string {
	if l.kind == "rec" {
		return "recursion"
	}
	return "loop"
}

// loop says why a loop may not end.
func (t *finishing) loop(l *Loop) string {
	s, c, e := t.s, t.s.c, t.s.e
	if e.SubstNode(l.cont, l.init) == False {
		return "" // it never starts
	}
	switch l.kind {
	case "map":
		for _, ef := range e.effects {
			if ef.kind == "mapset" && ef.args[0] == l.container && hasLoop(ef.loops, l) && !entryOf(ef.args[1], l) {
				return "it adds the entry " + s.short(ef.args[1]) + " to the map it runs over"
			}
		}
		return ""
	case "index":
		w := s.worklist(l)
		if w == nil {
			return ""
		}
		c.count("worklists", 1)
		return t.worklist(w)
	case "rec":
		c.count("recursions", 1)
		return t.recursion(l)
	case "while":
		if t.input(l) || t.counts(l) {
			return ""
		}
		if ch, _ := s.chainOf(l); ch != nil {
			c.count("walks", 1)
			return t.walk(ch)
		}
		if w := s.worklist(l); w != nil {
			c.count("worklists", 1)
			return t.worklist(w)
		}
		return "nothing bounds it"
	}
	return "" // over a string, a number, or the elements a library function passes on
}

// entryOf: k is the key the loop over a map is at.
func entryOf(k *Term, l *Loop) bool { return k.op == OKey && k.loop == l }

// input recognises loops that read until the input ends.
func (t *finishing) input(l *Loop) bool {
	e := t.s.e
	stop := []Node{l.cont}
	for _, x := range l.exits {
		stop = append(stop, x.cond)
	}
	for _, n := range stop {
		for _, v := range e.bdd.Support(n) {
			found := false
			e.walk(e.atoms[v], func(x *Term) bool {
				if x.op == OCall && reads(x.aux) {
					found = true
				}
				return !found
			})
			if found {
				return true
			}
		}
	}
	return false
}

func reads(name string) bool {
	name, _, _ = strings.Cut(name, "#")
	for _, m := range []string{"(*bufio.Scanner).Scan", "(*bufio.Reader).Read", "(*encoding/json.Decoder).More", "(*encoding/json.Decoder).Decode", "(io.Reader).Read"} {
		if strings.HasPrefix(name, m) {
			return true
		}
	}
	return false
}

// counts: a comparison that must hold to stay has a counter on one side at
// least, and the two sides only move towards each other.
func (t *finishing) counts(l *Loop) bool {
	e := t.s.e
	stay := l.cont
	for _, x := range l.exits {
		stay = e.bdd.And(stay, e.bdd.Not(x.cond))
	}
	for _, v := range e.bdd.Support(stay) {
		a := e.atoms[v]
		if a.op != OLt {
			continue
		}
		x, y := a.args[0], a.args[1]
		dx, okx := t.direction(x, l)
		dy, oky := t.direction(y, l)
		if !okx || !oky || dx == 0 && dy == 0 {
			continue
		}
		if e.bdd.And(stay, e.bdd.Not(e.Cond(e.Lt(x, y)))) == False && dx >= 0 && dy <= 0 {
			return true
		}
		if e.bdd.And(stay, e.Cond(e.Lt(x, y))) == False && dx <= 0 && dy >= 0 {
			return true
		}
	}
	return false
}

// direction is 1 for a counter that every iteration increases, -1 for one that
// every iteration decreases and 0 for what stays the same.
func (t *finishing) direction(x *Term, l *Loop) (int, bool) {
	b := l.back[x]
	if _, ok := l.init[x]; !ok || b == nil {
		return 0, !t.moves(x, l)
	}
	if x.typ == nil {
		return 0, false
	}
	if bt, ok := x.typ.Underlying().(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 {
		return 0, false
	}
	up, down := true, true
	for _, a := range t.s.e.alts(b) {
		d := stepOf(a.t, x)
		up, down = up && d > 0, down && d < 0
	}
	switch {
	case up:
		return 1, true
	case down:
		return -1, true
	}
	return 0, false
}

// stepOf is the constant added to lv, 0 if something else happens.
func stepOf(x, lv *Term) int {
	if x.op != OBin || x.aux != "+" && x.aux != "-" || len(x.args) != 2 {
		return 0
	}
	a, k := x.args[0], x.args[1]
	if x.aux == "+" && k == lv {
		a, k = k, a
	}
	if a != lv || k.op != OConst {
		return 0
	}
	n, err := strconv.Atoi(k.aux)
	if err != nil {
		return 0
	}
	if x.aux == "-" {
		n = -n
	}
	return n
}

// moves: the bound changes while the loop runs.
func (t *finishing) moves(b *Term, l *Loop) bool {
	moving := false
	t.s.e.walk(b, func(x *Term) bool {
		if x.loop == l || x.op == OLV && inside(x.loop, l) {
			moving = true
		}
		return !moving
	})
	return moving
}

// worklist says why the list may never be worked off: items may be put on it
// only once, which a set shows.
func (t *finishing) worklist(w *Worklist) string {
	s := t.s
	var pushes []Event
	for _, b := range w.back {
		pushes = append(pushes, s.sourceEvents(b)...)
	}
	for _, p := range pushes {
		if s.e.bdd.And(p.pc, s.care(p.pc)) == False {
			continue
		}
		if why := t.fresh(w.loop, p, nil, -1, p.terms[0], w.item); why != "" {
			return s.short(p.terms[0]) + " is put on the list " + why
		}
	}
	return ""
}

// fresh checks that p happens only for items not seen before: those absent
// from a set they are then entered in, before the effect with the given number
// if that is not negative, or that anything is entered in when it is taken up.
func (t *finishing) fresh(l *Loop, p Event, taken map[*Term]*Term, before int, items ...*Term) string {
	s, e := t.s, t.s.e
	b := e.bdd
	why := "without looking whether it has been there before"
	for _, v := range b.Support(p.pc) {
		m, k, ok := s.q.member(e.atoms[v])
		absent := b.Not(e.Cond(e.atoms[v]))
		if !ok {
			m, k, ok = s.q.nilEntry(e.atoms[v])
			absent = b.Not(absent)
		}
		if !ok || !t.about(s.norm(k, nil), items) || b.And(p.pc, b.Not(absent)) != False {
			continue
		}
		if m.op != OObj || hasLoop(m.obj.(*ObjInfo).loops, l) {
			why = "after looking in a set that does not outlast the step"
			continue
		}
		if len(s.q.mi.dels[m]) > 0 {
			why = "after looking in a set that things are taken out of again"
			continue
		}
		mark, up := False, False
		later := s.norm(e.Subst(k, taken), nil)
		for _, ef := range s.q.mi.sets[m] {
			if !hasLoop(ef.loops, l) || before >= 0 && t.number(ef) > before {
				continue
			}
			for _, x := range s.q.expand(s.q.event(ef, ef.args[1])) {
				switch y := s.norm(x.terms[0], x.eff); {
				case y == s.norm(k, nil):
					mark = b.Or(mark, s.normN(x.pc, x.eff))
				case y == later:
					up = b.Or(up, s.normN(x.pc, x.eff))
				}
			}
		}
		pc := s.normN(p.pc, p.eff)
		if b.And(pc, b.Not(up), s.care(pc, up)) == False {
			return "" // pc holds only once this has been taken up, so the same goes for the next
		}
		care := b.And(s.loopCare(pc, append(append([]*Loop(nil), p.loops...), p.via...), p.cont), s.care(pc, mark))
		if d := b.And(pc, b.Not(mark), care); d != False {
			why = "without being entered in the set of what has been there: " + s.cube(d)
			continue
		}
		return ""
	}
	return why
}

// number is the place of an effect among all effects.
func (t *finishing) number(ef *Effect) int {
	for i, x := range t.s.e.effects {
		if x == ef {
			return i
		}
	}
	return -1
}

// about: the key tells something about one of the items.
func (t *finishing) about(k *Term, items []*Term) bool {
	found := false
	t.s.e.walk(k, func(x *Term) bool {
		for _, it := range items {
			if x == it {
				found = true
			}
		}
		return !found
	})
	return found
}

// recursion says why a function may call itself without end.
func (t *finishing) recursion(l *Loop) string {
	s := t.s
	if len(l.recArgs) == 0 {
		return ""
	}
	for i, p := range l.recParams {
		ok := syntaxType(p.typ)
		for _, args := range l.recArgs {
			ok = ok && i < len(args) && part(args[i], p)
		}
		if ok {
			return ""
		}
	}
	for j, args := range l.recArgs {
		pc := l.recPC[j]
		if s.e.bdd.And(pc, s.care(pc)) == False {
			continue
		}
		items := append(append([]*Term(nil), args...), l.recParams...)
		taken := map[*Term]*Term{}
		for i, p := range l.recParams {
			if i < len(args) && args[i] != p {
				taken[args[i]] = p
			}
		}
		before := -1
		for i, ef := range s.e.effects {
			if imported(args, l.recParams) {
				break // nothing imports or contains itself: it may be entered later
			}
			if ef.kind == "reccall" && ef.pc == pc && sameTerms(ef.args, args) {
				before = i
				break
			}
		}
		if why := t.fresh(l, Event{pc: pc, cont: map[*Loop]*Term{}}, taken, before, items...); why != "" {
			what := "nothing"
			if len(args) > 0 {
				what = s.short(args[0])
			}
			return "it goes on with " + what + " " + why
		}
	}
	return ""
}

// contains lists the ways from a type to one that is part of its values.
var contains = map[string]bool{
	"go/types.Unalias":           true,
	"(go/types.Type).Underlying": true,
	"(*go/types.Struct).Field":   true,
	"(*go/types.Var).Type":       true,
	"(*go/types.object).Type":    true,
	"(go/types.Object).Type":     true,
	"(*go/types.Array).Elem":     true,
}

// imported: one of the arguments is an import of the parameter in its place, or
// part of its values if it is a type.
func imported(args, params []*Term) bool {
	for i, p := range params {
		if i >= len(args) {
			break
		}
		x := args[i]
		for x.op == OElem || x.op == OLookup {
			x = x.args[0]
		}
		if x != args[i] && x.op == OField && x.aux == "Imports" && x.args[0] == p {
			return true
		}
		for x = args[i]; (x.op == OCall || x.op == OFAddr) && len(x.args) > 0; x = x.args[0] {
			if n, _, _ := strings.Cut(x.aux, "#"); x.op == OCall && !contains[n] {
				break
			}
		}
		if x != args[i] && x == p {
			return true
		}
	}
	return false
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func syntaxType(typ types.Type) bool {
	if typ == nil {
		return false
	}
	if p, ok := typ.(*types.Pointer); ok {
		typ = p.Elem()
	}
	n, ok := types.Unalias(typ).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "go/ast"
}

// part: x is a part of the piece of syntax p, and not p itself.
func part(x, p *Term) bool {
	below := false
	for x != p {
		switch x.op {
		case OField:
			switch x.aux {
			case "Obj", "Decl", "Scope", "Unresolved", "Data":
				return false // references, not parts
			}
			below = true
		case OElem, OIndex:
			below = true
		case OGate, OList:
			for _, a := range x.args {
				if !part(a, p) {
					return false
				}
			}
			return true
		case OConv, OExtract, ODeref, OFAddr:
		default:
			return false
		}
		if len(x.args) == 0 {
			return false
		}
		x = x.args[0]
	}
	return below
}

// walk says why a walk along recorded edges may go round in circles.
func (t *finishing) walk(ch *chain) string {
	s, e := t.s, t.s.e
	var sr *Search
	for _, x := range s.searches() {
		if x.visited == ch.state {
			sr = x
		}
	}
	if sr == nil {
		return "the edges it follows, " + s.short(ch.state) + ", are not those of a search that takes up each function once"
	}
	back := "Callee"
	if ch.dir == "Caller" {
		back = "Caller"
	}
	for _, ef := range s.q.mi.sets[sr.visited] {
		v := ef.args[2]
		if ch.field != "" {
			v = s.fieldRaw(v, ch.field, ef)
		}
		for _, x := range s.q.expand(s.q.event(ef, ef.args[1], v)) {
			for _, a := range e.alts(s.norm(x.terms[1], x.eff)) {
				pc := e.bdd.And(s.normN(x.pc, x.eff), a.c)
				if e.isNil(a.t) || e.bdd.And(pc, s.care(pc)) == False {
					continue
				}
				if !hasLoop(x.loops, sr.w.loop) {
					return "an edge is recorded at " + s.c.pos(posOf(ef)) + " for a function the search starts from"
				}
				// the far end of the edge is the function the search was at
				if a.t.op != OElem || a.t.args[0].op != OField || a.t.args[0].args[0] != sr.w.item ||
					(a.t.args[0].aux == "In") != (back == "Callee") {
					return "the edge recorded at " + s.c.pos(posOf(ef)) + ", " + s.short(a.t) + ", does not lead back to the function it was found from"
				}
			}
		}
	}
	return ""
}
