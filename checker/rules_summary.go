package main

import (
	"go/types"
	"regexp"
	"strings"
)

func init() {
	register("C32", "In the main function of the revision tool each loop that lists capabilities is matched with the heading printed before it, and "+
		"the condition under which a capability gets into its list with a test of a map that holds exactly the capabilities of the "+
		"first report. The conditions of headings, lists and the notice that nothing was gained are compared with one another, and "+
		"the loop printing a call path must run over the whole path of the entry that the name printed before it stands for.", ruleC32)
}

func ruleC32(c *Check) {
	m := c.command("/cmd/capslock-git-diff")
	if m == nil {
		return
	}
	defer c.problems(m.e, "main")
	q := m.quiet()
	q.revisions()
	if q.B == nil || q.C == nil {
		c.fail("reports", "-", "main", "undecided: the maps holding the two reports were not found")
		return
	}
	m.B, m.C, m.base = q.B, q.C, q.base
	m.q.stop[m.B], m.q.stop[m.C] = true, true
	m.summary()
	m.pathsShown()
	c.need("vacuity", "lists of capabilities", c.stats["capability_lists"], 2)
	c.need("vacuity", "call paths printed", c.stats["paths_printed"], 1)
}

// quiet is a copy of the command whose findings are not reported.
func (m *command) quiet() *command {
	quiet := *m.c
	quiet.viols, quiet.obls = nil, nil
	quiet.stats = map[string]int{}
	s := *m.Sem
	s.c = &quiet
	mm := *m
	mm.Sem = &s
	return &mm
}

var (
	letterRE  = regexp.MustCompile(`[A-Za-z]`)
	noneRE    = regexp.MustCompile(`\bno(ne)?\b`)
	headingRE = regexp.MustCompile(`(?i)\bnew (use|capabilit)`)
)

// texts lists the fixed texts a line may have.
func (m *command) texts(l line) []string {
	out := []string{""}
	for _, p := range l.pieces {
		more := []string{p.text}
		if p.term != nil {
			more = nil
			for _, a := range m.e.alts(p.term) {
				s, _ := unquote(a.t)
				more = append(more, s)
			}
		}
		var next []string
		for _, x := range out {
			for _, y := range more {
				next = append(next, x+y)
			}
		}
		if len(next) > 64 {
			return out
		}
		out = next
	}
	return out
}

// heading tells which list of capabilities a line announces.
func (m *command) heading(l line) string {
	kind := ""
	for _, s := range m.texts(l) {
		k := ""
		switch {
		case noneRE.MatchString(s) && strings.Contains(s, "new"):
			k = "none"
		case !headingRE.MatchString(s):
		case strings.Contains(s, "existing"):
			k = "existing"
		default:
			k = "new"
		}
		if kind != "" && k != kind {
			return "mixed"
		}
		kind = k
	}
	return kind
}

// listedCap gives the capability a line of a list is about.
func (m *command) listedCap(l line) *Term {
	if len(l.loops) == 0 {
		return nil
	}
	in := l.loops[len(l.loops)-1]
	if in.container == nil || in.kind != "index" {
		return nil
	}
	el := m.q.elemOf(in.container, in)
	if el.typ == nil || !strings.HasSuffix(el.typ.String(), "proto.Capability") {
		return nil
	}
	has := false
	for _, p := range l.pieces {
		if p.term == nil {
			if letterRE.MatchString(p.text) {
				return nil
			}
			continue
		}
		t := m.capOfString(p.term)
		if t.op == OLookup && strings.Contains(m.e.str(t.args[0], 5), "Capability_name") {
			t = t.args[1]
		}
		has = has || unconv(t) == el
	}
	if !has {
		return nil
	}
	return el
}

// some is the condition that a list has elements.
func (m *command) some(list *Term) Node {
	return m.e.bdd.Not(m.e.Cond(m.e.Eq(m.e.Len(list), m.e.Int(0))))
}

// startedLines lists the lines printed, where one that starts with an empty
// line does not go on with what was printed before.
func (m *command) startedLines() []line {
	var out []line
	for _, l := range lines(m.stdoutWrites()) {
		at := 0
		for i, w := range l.writes {
			if i > 0 && len(w.pieces) > 0 && strings.HasPrefix(w.pieces[0].text, "\n") {
				out = append(out, joined(l, l.writes[at:i]))
				at = i
			}
		}
		out = append(out, joined(l, l.writes[at:]))
	}
	return out
}

func joined(l line, ws []write) line {
	n := line{loops: l.loops, writes: ws}
	for _, w := range ws {
		n.pieces = append(n.pieces, w.pieces...)
	}
	return n
}

// summary checks the lists of capabilities and their headings.
func (m *command) summary() {
	c, b := m.c, m.e.bdd
	ls := m.startedLines()
	lists := map[string]*Term{}
	heads := map[string]Node{}
	bodies := map[string]Node{}
	at := map[string]*Effect{}
	none := False
	var noneAt *Effect
	for i, l := range ls {
		ef := l.writes[0].ef
		if len(l.loops) == 0 && m.heading(l) == "none" {
			none = b.Or(none, ef.pc)
			noneAt = ef
			continue
		}
		el := m.listedCap(l)
		if el == nil {
			continue
		}
		c.stats["capability_lists"]++
		kind := ""
		head := False
		for j := i - 1; j >= 0; j-- {
			h := ls[j]
			if len(h.loops) >= len(l.loops) {
				if m.listedCap(h) != nil {
					break
				}
				continue
			}
			k := m.heading(h)
			if k == "" || b.And(h.writes[0].ef.pc, ef.pc) == False {
				continue
			}
			if kind != "" && k != kind {
				break
			}
			kind = k
			head = b.Or(head, h.writes[0].ef.pc)
		}
		if kind != "new" && kind != "existing" {
			c.failEff("heading", ef, "undecided: capabilities are listed without a heading that tells new ones from existing ones")
			continue
		}
		list := l.loops[len(l.loops)-1].container
		if old := lists[kind]; old != nil && old != list {
			c.failEff("heading", ef, "two different lists of capabilities are announced as %s", kind)
			continue
		}
		lists[kind], at[kind] = list, ef
		heads[kind] = b.Or(heads[kind], head)
		bodies[kind] = b.Or(bodies[kind], ef.pc)
		if ex := m.q.earlyExits(l.loops); len(ex) > 0 {
			c.failEff("list printed", ef, "the loop printing the list can be left early at %s", ex[0])
		}
		m.flushed(ef, l.writes[0].to)
		m.sorted(kind, list, ef)
	}
	for _, kind := range []string{"new", "existing"} {
		if lists[kind] == nil {
			c.fail("list printed", "-", "main", "no list of capabilities is announced as %s", kind)
			return
		}
	}
	norm := func(n Node) Node { return m.counted(n, lists["new"], lists["existing"]) }
	for _, kind := range []string{"new", "existing"} {
		some := m.some(lists[kind])
		body := b.And(norm(bodies[kind]), m.base, some)
		want := b.And(m.base, some)
		if ok, why := m.same(body, want, m.care(body, want)); !ok {
			c.failEff("list printed", at[kind], "whether the capabilities announced as %s are listed does not depend just on there being any: %s", kind, why)
		} else {
			c.okEff("list printed", at[kind])
		}
		head := b.And(norm(heads[kind]), m.base)
		if ok, why := m.same(head, want, m.care(head, want)); !ok {
			c.failEff("heading", at[kind], "the heading for capabilities announced as %s is not printed exactly when there are any: %s", kind, why)
		} else {
			c.okEff("heading", at[kind])
		}
	}
	if noneAt == nil {
		c.fail("nothing gained", "-", "main", "nothing says that no capability was gained")
		return
	}
	want := b.And(m.base, b.Not(m.some(lists["new"])), b.Not(m.some(lists["existing"])))
	got := b.And(norm(none), m.base)
	if ok, why := m.same(got, want, m.care(got, want)); !ok {
		c.failEff("nothing gained", noneAt, "the notice that nothing was gained is not printed exactly when both lists are empty: %s", why)
	} else {
		c.okEff("nothing gained", noneAt)
	}
}

// sorted checks that each capability of a list belongs under its heading.
func (m *command) sorted(kind string, list *Term, ef *Effect) {
	c, e, b := m.c, m.e, m.e.bdd
	srcs := m.q.elems(list, nil)
	if len(srcs) == 0 {
		c.failEff("kind of capability", ef, "nothing is put into the list of capabilities announced as %s", kind)
	}
	for _, src := range srcs {
		if src.eff == nil || src.partial {
			c.failEff("kind of capability", ef, "undecided: where the capabilities announced as %s come from", kind)
			continue
		}
		val := unconv(src.val)
		good, tested := false, false
		for _, v := range b.Support(src.pc) {
			mt, pos, ok := m.presence(e.atoms[v], val)
			if !ok || !m.oldCaps(mt, src) {
				continue
			}
			tested = true
			if kind == "new" {
				pos = !pos
			}
			if b.Cofactor(src.pc, v, !pos) == False {
				good = true
			}
		}
		switch {
		case good:
			c.okEff("kind of capability", src.eff)
		case tested:
			c.failEff("kind of capability", src.eff, "a capability is announced as %s though the first report says otherwise", kind)
		default:
			c.failEff("kind of capability", src.eff, "a capability is announced as %s without looking whether the first report has it", kind)
		}
	}
}

// presence recognises a test whether a map has something for key k.
func (m *command) presence(a, k *Term) (mt *Term, pos, ok bool) {
	if mm, kk, is := m.q.member(a); is && unconv(kk) == k {
		return mm, true, true
	}
	if mm, kk, is := m.q.nilEntry(a); is && unconv(kk) == k {
		return mm, false, true
	}
	x, pos := countTest(a)
	if x != nil && x.op == OLookup && unconv(x.args[1]) == k {
		return x.args[0], pos, true
	}
	return nil, false, false
}

// countTest recognises a comparison of a count with zero.
func countTest(a *Term) (x *Term, pos bool) {
	if len(a.args) != 2 {
		return nil, false
	}
	p, q := a.args[0], a.args[1]
	switch {
	case a.op == OLt && p.op == OConst && p.aux == "0":
		return q, true
	case a.op == OLt && q.op == OConst && q.aux == "1":
		return p, false
	case a.op == OEq && q.op == OConst && q.aux == "0":
		return p, false
	case a.op == OEq && p.op == OConst && p.aux == "0":
		return q, false
	}
	return nil, false
}

// oldCaps: the map holds exactly the capabilities of the first report, and is
// complete when src is.
func (m *command) oldCaps(mt *Term, src Source) bool {
	b := m.e.bdd
	if mt.op != OObj || len(m.q.mi.dels[mt]) > 0 || len(m.q.mi.copys[mt]) > 0 {
		return false
	}
	_, capF := pairFields(m.C)
	var adds []Event
	for _, ef := range m.q.mi.sets[mt] {
		v := ef.args[2]
		up := v.op == OBin && v.aux == "+" && (v.args[0].op == OConst || v.args[1].op == OConst)
		if !(v.op == OBool && v.node == True) && !up && v.op != OStruct && v.op != OZero && !(v.op == OConst && v.aux != "0" && v.aux != "false") {
			return false
		}
		if ef.seq > src.eff.seq {
			return false
		}
		for _, l := range ef.loops {
			if hasLoop(src.eff.loops, l) {
				return false
			}
		}
		adds = append(adds, m.q.event(ef, ef.args[1]))
	}
	q := m.quiet()
	g, _, ok := q.pairEvents("", adds, []*Term{m.B, m.C}, m.base, func(x Event) *Term {
		if t := unconv(x.terms[0]); t.op == OField && t.aux == capF {
			return t.args[0]
		}
		return nil
	})
	if !ok || len(g) == 0 {
		return false
	}
	pair := m.e.mk(ONamed, "pair", nil)
	in := m.e.Atom(m.e.mk(OIn, "", types.Typ[types.Bool], m.B, pair))
	if x := b.And(m.base, b.Not(g[m.B]), m.care(m.base, g[m.B])); x != False {
		return false
	}
	if n, has := q.may[m.C]; has && b.And(n, m.base, b.Not(in), m.care(n, in)) != False {
		return false
	}
	return true
}

// counted rewrites tests of a number that counts along with a list to tests of
// the list.
func (m *command) counted(n Node, lists ...*Term) Node {
	b := m.e.bdd
	for _, v := range b.Support(n) {
		x, pos := countTest(m.e.atoms[v])
		if x != nil && x.op == OLen && m.partition(x.args[0], lists) {
			some := False
			for _, l := range lists {
				some = b.Or(some, m.some(l))
			}
			if !pos {
				some = b.Not(some)
			}
			n = b.Or(b.And(some, b.Cofactor(n, v, true)), b.And(b.Not(some), b.Cofactor(n, v, false)))
			continue
		}
		if x == nil || x.op != OLV {
			continue
		}
		for _, l := range lists {
			if !m.countsWith(x, l) {
				continue
			}
			some := m.some(l)
			if !pos {
				some = b.Not(some)
			}
			n = b.Or(b.And(some, b.Cofactor(n, v, true)), b.And(b.Not(some), b.Cofactor(n, v, false)))
			break
		}
	}
	return n
}

// countsWith: x is zero exactly when the list is empty.
func (m *command) countsWith(x, list *Term) bool {
	b := m.e.bdd
	if list.op != OLV || x.loop != list.loop || x.loop.init[x] == nil || x.loop.init[x].aux != "0" {
		return false
	}
	if i := list.loop.init[list]; i == nil || !m.e.isNil(i) && !(i.op == OList && len(i.args) == 0) {
		return false
	}
	up := False
	for _, a := range m.e.alts(x.loop.back[x]) {
		switch {
		case a.t == x:
		case a.t.op == OBin && a.t.aux == "+" && (a.t.args[0] == x && m.positive(a.t.args[1]) || a.t.args[1] == x && m.positive(a.t.args[0])):
			up = b.Or(up, a.c)
		default:
			return false
		}
	}
	grown, ok := m.grown(list)
	return ok && up == grown
}

// grown is the condition under which a step of a loop adds to a list.
func (m *command) grown(list *Term) (Node, bool) {
	n := False
	for _, a := range m.e.alts(list.loop.back[list]) {
		switch {
		case a.t == list:
		case a.t.op == OAppend && a.t.args[0] == list:
			n = m.e.bdd.Or(n, a.c)
		default:
			return n, false
		}
	}
	return n, true
}

// partition: each key of a map is put into one of the lists.
func (m *command) partition(mt *Term, lists []*Term) bool {
	all := False
	for _, l := range lists {
		if l.op != OLV || l.loop.container != mt || l.loop.kind != "map" || l.loop != lists[0].loop {
			return false
		}
		n, ok := m.grown(l)
		if !ok {
			return false
		}
		all = m.e.bdd.Or(all, n)
	}
	return all == True
}

// positive: t is at least one.
func (m *command) positive(t *Term) bool {
	if t.op == OConst {
		return t.aux != "0" && !strings.HasPrefix(t.aux, "-")
	}
	if t.op != OLookup || t.args[1].op != OKey || t.args[1].args[0] != t.args[0] {
		return false
	}
	for _, ef := range m.q.mi.sets[t.args[0]] {
		v := ef.args[2]
		if v.op == OConst && m.positive(v) {
			continue
		}
		if v.op == OBin && v.aux == "+" && (v.args[1].op == OConst && m.positive(v.args[1]) || v.args[0].op == OConst && m.positive(v.args[0])) {
			continue
		}
		return false
	}
	return true
}

// flushed: what ef writes to a buffering writer reaches standard output.
func (m *command) flushed(ef *Effect, to *Term) {
	b := m.e.bdd
	if to == nil || to.op != OCall || !strings.Contains(to.aux, "NewWriter") {
		return
	}
	n := False
	for _, x := range m.e.effects {
		if strings.HasSuffix(x.name, ".Flush") && len(x.args) > 0 && x.args[0] == to && x.seq > ef.seq {
			n = b.Or(n, x.pc)
		}
	}
	if x := b.And(ef.pc, b.Not(n), m.base, m.care(ef.pc, n)); x != False {
		m.c.failEff("written out", ef, "what is printed here stays in a buffer: %s", m.cube(x))
	} else {
		m.c.okEff("written out", ef)
	}
}

// pathsShown checks that the name of each gained pair is followed by the call
// path of its entry in the second report.
func (m *command) pathsShown() {
	c, e, b := m.c, m.e, m.e.bdd
	nameF, capF := pairFields(m.C)
	type named struct {
		k  *Term
		pc Node
		ef *Effect
	}
	names := map[*Loop]*named{}
	var order []*Loop
	ws := m.stdoutWrites()
	for _, l := range lines(ws) {
		ef := l.writes[0].ef
		if len(ef.loops) == 0 {
			continue
		}
		in := ef.loops[len(ef.loops)-1]
		var k *Term
		if in.container != nil && in.kind == "index" {
			k = m.q.elemOf(in.container, in)
		} else if in.kind == "map" {
			k = m.q.keyOf(in.container, in)
		}
		if k == nil {
			continue
		}
		var hasCap, hasName bool
		for _, p := range l.pieces {
			if p.term == nil {
				continue
			}
			t := m.capOfString(p.term)
			hasCap = hasCap || t == e.Field(k, capF, nil) || t.op == OElem && m.loopOfCap(t, k, ef, capF)
			hasName = hasName || p.term == e.Field(k, nameF, nil) || p.term.op == OCall && strings.HasPrefix(p.term.aux, "strings.Join")
		}
		if !hasCap || !hasName {
			continue
		}
		if names[in] == nil {
			names[in] = &named{k: k, pc: False, ef: ef}
			order = append(order, in)
		}
		names[in].pc = b.Or(names[in].pc, ef.pc)
	}
	if len(order) == 0 {
		c.fail("path shown", "-", "main", "no pair is printed")
	}
	for _, in := range order {
		n := names[in]
		got := map[string]Node{}
		var P *Loop
		var last *Effect
		for _, w := range ws {
			d := len(w.ef.loops)
			if d < 2 || w.ef.loops[d-2] != in || w.ef.seq < n.ef.seq {
				continue
			}
			l := w.ef.loops[d-1]
			if l.container == nil || l.kind != "index" || l.reversed || !m.isPath(l.container, n.k, w.ef.pc) || P != nil && P != l {
				continue
			}
			P, last = l, w.ef
			el := m.q.elemOf(l.container, l)
			for _, p := range w.pieces {
				if p.term == nil {
					continue
				}
				for _, a := range m.printed(p.term, True) {
					t := a.t
					if t.op == OField && t.args[0] == el && t.aux == "Name" {
						got["Name"] = b.Or(got["Name"], b.And(w.ef.pc, a.c))
					}
					if t.op == OField && t.args[0].op == OField && t.args[0].aux == "Site" && t.args[0].args[0] == el {
						got[t.aux] = b.Or(got[t.aux], b.And(w.ef.pc, a.c))
					}
				}
			}
			m.flushed(w.ef, w.to)
		}
		if P == nil {
			c.failEff("path shown", n.ef, "the name of a pair is not followed by the call path of its entry in the second report")
			continue
		}
		c.stats["paths_printed"]++
		if ex := m.q.earlyExits([]*Loop{P}); len(ex) > 0 {
			c.failEff("path shown", last, "the loop printing the path can be left early at %s", ex[0])
		}
		el := m.q.elemOf(P.container, P)
		site := b.Not(e.Cond(e.Eq(e.Field(el, "Site", nil), e.Nil())))
		for _, f := range []string{"Name", "Filename", "Line", "Column"} {
			want := b.And(n.pc, m.base)
			if f != "Name" {
				want = b.And(want, site)
			}
			if x := b.And(want, b.Not(got[f]), m.care(want, got[f])); x != False {
				c.failEff("path shown ("+f+")", last, "the %s of a step of the path is not always printed: %s", strings.ToLower(f), m.cube(x))
			} else {
				c.okEff("path shown ("+f+")", last)
			}
		}
	}
}

// printed lists the values a printed term is made of.
func (m *command) printed(t *Term, pc Node) []alt {
	var out []alt
	for _, a := range m.e.alts(t) {
		n := m.e.bdd.And(pc, a.c)
		for _, p := range flat(m.e, a.t, "s") {
			switch {
			case p.term == nil:
			case p.term == a.t:
				out = append(out, alt{n, p.term})
			default:
				out = append(out, m.printed(p.term, n)...)
			}
		}
	}
	return out
}

// isPath: t is the path of the entry for pair k in the second report.
func (m *command) isPath(t, k *Term, pc Node) bool {
	for _, a := range m.e.alts(t) {
		if m.e.bdd.And(a.c, pc) == False {
			continue
		}
		x := a.t
		if x.op != OField || x.aux != "Path" || x.args[0].op != OLookup || x.args[0].args[0] != m.C || x.args[0].args[1] != k {
			return false
		}
	}
	return true
}
