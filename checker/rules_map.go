package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C19", "reading loop of LoadClassifier: the lines are classified by what they contain (number of fields, keyword, known capability, repeated name, comment); for every class the recorded entry or the error exit is derived from the guards, and every way out of the loop is followed to the error returned", ruleC19)
	register("C18", "order of operations on the maps of the merged classifier, tracked for one arbitrary name that is or is not in the builtin and the user map; writes through memory reachable from the builtin or a caller's classifier; ignored-call lookup; options passed to the loader", ruleC18)
	register("C28", "derived classifier: operations on its maps tracked for one arbitrary entry; guards under which the commands derive it", ruleC28)
	register("C03", "returns of the category lookup compared with the documented precedence; category calls, their arguments and guards for every function of the call graph", ruleC03)
}

var mapKeywords = []string{"func", "package", "unanalyzed", "ignore_edge", "cgo_suffix"}

// capMap is the reading of a capability map: the loop over its lines and where
// each kind of entry ends up.
type capMap struct {
	*Sem
	f      *Frame
	L      *Loop
	reader *Term // the scanner, or the bytes read
	text   func(t *Term) bool
	role   map[string]*Term  // keyword -> map (or the loop variable holding the suffixes)
	field  map[string]string // keyword -> field of the classifier
	obj    *Term             // the classifier returned
}

// shape is one class of lines.
type shape struct {
	kw           string
	n            int // fields before the comment; 4 stands for more
	hash, lead   bool
	dup, dupZero bool // name already recorded under this keyword, with value 0
	other        bool // name recorded under another keyword
	capOK, cap0  bool // third field names a capability; it is the zero one
	listed       bool // suffix already in the list
	discover     bool
}

func (sh shape) String() string {
	if sh.n == 0 {
		if sh.hash {
			return "a comment line"
		}
		return "a blank line"
	}
	out := fmt.Sprintf("a line with %d fields", sh.n)
	if sh.n > 3 {
		out = "a line with more than 3 fields"
	}
	if sh.kw == "" {
		out += ", unknown keyword"
	} else {
		out += ", keyword " + sh.kw
	}
	if sh.n >= 3 && (sh.kw == "func" || sh.kw == "package") && !sh.capOK {
		out += ", unknown capability"
	}
	if sh.dup {
		out += ", name already listed"
	}
	if sh.hash {
		out += ", with a comment"
	}
	return out
}

func needFields(kw string) int {
	switch kw {
	case "func", "package", "ignore_edge":
		return 3
	case "unanalyzed", "cgo_suffix":
		return 2
	}
	return 99
}

func (sh shape) wellFormed() bool {
	if sh.kw == "" || sh.n < needFields(sh.kw) || sh.dup {
		return false
	}
	return sh.capOK || sh.kw != "func" && sh.kw != "package"
}

func baseName(aux string) string { return strings.SplitN(aux, "#", 2)[0] }

// loadMap evaluates the loader and finds the loop over the lines.
func (c *Check) loadMap(exclude bool) *capMap {
	s, f := c.semArgs("/interesting", "LoadClassifier", nil, func(e *Eval, p *ssa.Parameter) *Term {
		if isBoolType(p.Type()) {
			return e.Bool(boolNode(exclude))
		}
		return nil
	})
	if s == nil {
		return nil
	}
	e := s.e
	m := &capMap{Sem: s, f: f, role: map[string]*Term{}, field: map[string]string{}}
	r := s.paramOf("io.Reader")
	rule := "reading"
	for _, L := range e.allLoops {
		if L.kind == "while" {
			for _, ef := range e.effects {
				if baseName(ef.name) == "(*bufio.Scanner).Scan" && hasLoop(ef.loops, L) {
					sc := ef.args[0]
					if !(sc.op == OCall && baseName(sc.aux) == "bufio.NewScanner" && sc.args[0] == r) {
						c.failEff(rule, ef, "the lines read are those of %s, not of the input given", s.short(sc))
						return nil
					}
					if m.L != nil && m.L != L {
						c.failEff(rule, ef, "the input is read in two loops")
						return nil
					}
					m.L, m.reader = L, sc
				}
			}
		}
	}
	if m.L != nil {
		sc := m.reader
		m.text = func(t *Term) bool {
			if t.op == OConv && len(t.args) == 1 {
				t = t.args[0]
			}
			return t.op == OCall && len(t.args) == 1 && t.args[0] == sc && (baseName(t.aux) == "(*bufio.Scanner).Text" || baseName(t.aux) == "(*bufio.Scanner).Bytes")
		}
		for _, ef := range e.effects {
			if baseName(ef.name) == "(*bufio.Scanner).Split" && !(ef.args[1].op == OFunc && strings.HasSuffix(ef.args[1].aux, "bufio.ScanLines")) {
				c.failEff(rule, ef, "the input is not read line by line")
			}
			if strings.HasPrefix(ef.kind, "call") || ef.kind == "invoke" {
				for i, a := range ef.args {
					if a == r && baseName(ef.name) != "bufio.NewScanner" {
						c.failEff(rule, ef, "the input is also consumed by %s (argument %d)", shortName(ef.name), i)
					}
				}
			}
		}
	} else {
		for _, L := range e.allLoops {
			if L.container == nil {
				continue
			}
			x := L.container
			if x.op == OCall && (x.aux == "strings.Split" || x.aux == "strings.SplitAfter") && len(x.args) == 2 && x.args[1].aux == `"\n"` {
				data := x.args[0]
				for data.op == OConv || data.op == OExtract {
					data = data.args[0]
				}
				if data.op == OCall && baseName(data.aux) == "io.ReadAll" && data.args[0] == r {
					m.L, m.reader = L, data
				}
			}
		}
		if m.L == nil {
			c.fail(rule, "-", s.fn, "no loop over the lines of the input was found")
			return nil
		}
		el := s.q.elemOf(m.L.container, m.L)
		m.text = func(t *Term) bool { return t == el }
	}
	if !m.findRoles(exclude) {
		return nil
	}
	return m
}

// scanning gives the atoms about the progress of reading: more lines come (in
// the loop), or the input ended, with or without an error.
func (m *capMap) progress(a *Term, more, failed bool) (val, known bool) {
	if a.op == OCall && baseName(a.aux) == "(*bufio.Scanner).Scan" && a.args[0] == m.reader {
		return more, true
	}
	if a.op == OEq && m.e.isNil(a.args[1]) {
		x := a.args[0]
		if x.op == OCall && baseName(x.aux) == "(*bufio.Scanner).Err" && x.args[0] == m.reader {
			return !failed, true
		}
		if x.op == OExtract && x.aux == "1" && x.args[0] == m.reader {
			return !failed, true
		}
	}
	return false, false
}

// raw recognises the line itself, with or without the space around it.
func (m *capMap) raw(t *Term) (trimmed, ok bool) {
	if t.op == OCall && (t.aux == "strings.TrimSpace" || t.aux == "strings.Trim" || t.aux == "strings.TrimLeft") && len(t.args) > 0 {
		_, ok := m.raw(t.args[0])
		if len(t.args) == 2 && !isSpaces(t.args[1]) {
			return false, false
		}
		return true, ok
	}
	if t.op == OCall && (t.aux == "strings.TrimRight" || t.aux == "bytes.TrimSpace") && len(t.args) > 0 {
		if len(t.args) == 2 && !isSpaces(t.args[1]) {
			return false, false
		}
		return m.raw(t.args[0])
	}
	return false, m.text(t)
}

func isSpaces(t *Term) bool {
	s, ok := unquote(t)
	return ok && strings.TrimSpace(s) == "" && strings.Contains(s, " ")
}

func isHash(t *Term) bool { return t.op == OConst && (t.aux == `"#"` || t.aux == "35") }

// before recognises the text before the comment.
func (m *capMap) before(t *Term, sh shape) (trimmed, ok bool) {
	switch {
	case t.op == OCall && (t.aux == "strings.TrimSpace" || t.aux == "strings.TrimLeft" && len(t.args) == 2 && isSpaces(t.args[1])):
		_, ok := m.before(t.args[0], sh)
		return true, ok
	case t.op == OCall && t.aux == "strings.TrimRight" && len(t.args) == 2 && isSpaces(t.args[1]):
		return m.before(t.args[0], sh)
	case t.op == OIndex && t.args[1].op == OConst && t.args[1].aux == "0" && m.split(t.args[0]):
		return m.raw(t.args[0].args[0])
	case t.op == OExtract && t.aux == "0" && m.cut(t.args[0]):
		return m.raw(t.args[0].args[0])
	case t.op == OSlice && len(t.args) >= 3 && (m.e.isNil(t.args[1]) || t.args[1].aux == "0") && m.index(t.args[2]) == t.args[0] && sh.hash:
		return m.raw(t.args[0])
	}
	tr, ok := m.raw(t)
	return tr, ok && !sh.hash
}

func (m *capMap) split(t *Term) bool {
	if t.op != OCall || len(t.args) < 2 || !isHash(t.args[1]) {
		return false
	}
	if t.aux == "strings.SplitN" {
		n, err := strconv.Atoi(t.args[2].aux)
		return err == nil && (n < 0 || n > 1)
	}
	return t.aux == "strings.Split"
}

func (m *capMap) cut(t *Term) bool {
	return t.op == OCall && t.aux == "strings.Cut" && isHash(t.args[1])
}

// index is the text in which t is the position of the comment.
func (m *capMap) index(t *Term) *Term {
	if t.op == OCall && len(t.args) == 2 && isHash(t.args[1]) && (t.aux == "strings.Index" || t.aux == "strings.IndexByte" || t.aux == "strings.IndexRune" || t.aux == "strings.IndexAny") {
		return t.args[0]
	}
	return nil
}

// fields recognises the list of fields of the line.
func (m *capMap) fields(t *Term, sh shape) bool {
	if t.op != OCall || t.aux != "strings.Fields" {
		return false
	}
	_, ok := m.before(t.args[0], sh)
	return ok
}

// word gives the number of the field t is, or -1.
func (m *capMap) word(t *Term, sh shape) int {
	if t.op == OIndex && t.args[1].op == OConst && m.fields(t.args[0], sh) {
		if n, err := strconv.Atoi(t.args[1].aux); err == nil {
			return n
		}
	}
	return -1
}

// entryKey says that t is the name an entry of sh's keyword is stored under.
func (m *capMap) entryKey(t *Term, sh shape, kw string) bool {
	if kw == "ignore_edge" {
		return (t.op == OList || t.op == OStruct) && len(t.args) == 2 && m.word(t.args[0], sh) == 1 && m.word(t.args[1], sh) == 2
	}
	return m.word(t, sh) == 1
}

func isCapValues(t *Term) bool {
	return t.op == ODeref && t.args[0].op == OGlobal && strings.HasSuffix(t.args[0].aux, ".Capability_value")
}

// line is the truth of atoms for lines of one class.
func (m *capMap) line(sh shape) valuation {
	var v valuation
	v = func(a *Term) (bool, bool) {
		if val, ok := m.progress(a, true, false); ok {
			return val, true
		}
		a = m.pick(a, v)
		if a.op == OBool {
			if a.node == True || a.node == False {
				return a.node == True, true
			}
			b, un := m.e.decide(a.node, v)
			return b, un == nil
		}
		switch a.op {
		case OEq:
			x, k := a.args[0], a.args[1]
			if k.op != OConst {
				return false, false
			}
			if x.op == OLen {
				n, err := strconv.Atoi(k.aux)
				if err != nil {
					return false, false
				}
				if m.fields(x.args[0], sh) && n <= 3 {
					return sh.n == n, true
				}
				if m.split(x.args[0]) {
					if n == 0 {
						return false, true
					}
					if n == 1 {
						return !sh.hash, true
					}
				}
				return false, false
			}
			if w := m.word(x, sh); w == 0 {
				if sh.n == 0 {
					return false, true
				}
				s, ok := unquote(k)
				return ok && s == sh.kw && sh.kw != "", ok
			}
			if k.aux == `""` {
				if m.word(x, sh) >= 0 {
					return false, true
				}
				if tr, ok := m.before(x, sh); ok {
					return sh.n == 0 && (tr || !sh.lead), true
				}
				if tr, ok := m.raw(x); ok {
					return sh.n == 0 && !sh.hash && (tr || !sh.lead), true
				}
			}
			if t := m.index(x); t != nil {
				if tr, ok := m.raw(t); ok && k.aux == "-1" {
					return !sh.hash, true
				} else if ok && k.aux == "0" {
					return sh.hash && sh.n == 0 && (tr || !sh.lead), true
				}
			}
			if x.op == OLookup && k.aux == "0" {
				if isCapValues(x.args[0]) && m.word(x.args[1], sh) == 2 {
					return !sh.capOK || sh.cap0, true
				}
				if in, ok := m.has(x.args[0], x.args[1], sh); ok {
					return !in || sh.dupZero, true
				}
			}
		case OLt:
			if t := m.index(a.args[0]); t != nil && a.args[1].op == OConst && a.args[1].aux == "0" {
				if _, ok := m.raw(t); ok {
					return !sh.hash, true
				}
			}
		case OIn:
			if isCapValues(a.args[0]) && m.word(a.args[1], sh) == 2 {
				return sh.capOK, true
			}
			return m.has(a.args[0], a.args[1], sh)
		case OLookup:
			return m.has(a.args[0], a.args[1], sh)
		case OExtract:
			if a.aux == "2" && m.cut(a.args[0]) {
				if _, ok := m.raw(a.args[0].args[0]); ok {
					return sh.hash, true
				}
			}
		case OCall:
			if len(a.args) != 2 {
				return false, false
			}
			tr, ok := m.raw(a.args[0])
			switch a.aux {
			case "strings.HasPrefix", "bytes.HasPrefix":
				if ok && isHash(a.args[1]) {
					return sh.n == 0 && sh.hash && (tr || !sh.lead), true
				}
				if m.word(a.args[0], sh) >= 0 && isHash(a.args[1]) {
					return false, true
				}
			case "strings.Contains", "strings.ContainsRune", "strings.ContainsAny":
				if ok && isHash(a.args[1]) {
					return sh.hash, true
				}
			case "slices.Contains":
				if m.word(a.args[1], sh) == 1 && (m.role["cgo_suffix"] == nil || a.args[0] == m.role["cgo_suffix"]) {
					return sh.listed, true
				}
			}
		}
		return false, false
	}
	return v
}

// has is the truth of "the name of this line is already in map t".
func (m *capMap) has(t, k *Term, sh shape) (val, known bool) {
	if t.op != OObj {
		return false, false
	}
	if sh.discover {
		if m.word(k, sh) == 1 || m.entryKey(k, sh, "ignore_edge") {
			return false, true
		}
		return false, false
	}
	for kw, r := range m.role {
		if r == t && m.entryKey(k, sh, kw) {
			if kw == sh.kw {
				return sh.dup, true
			}
			return sh.other, true
		}
	}
	return false, false
}

// pick chooses among the alternatives of t (and of its parts) by v.
func (s *Sem) pick(t *Term, v valuation) *Term {
	e := s.e
	for t.op == OGate {
		found := false
		for _, a := range e.alts(t) {
			if val, un := e.decide(a.c, v); un == nil && val {
				t = a.t
				found = true
				break
			}
		}
		if !found {
			return t
		}
	}
	if !e.contains(t, func(x *Term) bool { return x.op == OGate }) || t.op == OBool {
		return t
	}
	args := make([]*Term, len(t.args))
	changed := false
	for i, a := range t.args {
		args[i] = s.pick(a, v)
		changed = changed || args[i] != a
	}
	if !changed {
		return t
	}
	return e.rebuild(t, args, t.node)
}

// recorded is what the loop does with lines of one class.
type recorded struct {
	exit    *LoopExit
	sets    []*Effect // entries added to maps
	added   []*Term   // suffix lists extended
	touched *Effect   // other changes to what is recorded
	unknown *Term
	at      *Effect
}

func (m *capMap) run(sh shape) recorded {
	e := m.e
	v := m.line(sh)
	var r recorded
	for i := range m.L.exits {
		x := &m.L.exits[i]
		val, un := e.decide(x.cond, v)
		if un != nil {
			r.unknown = un
			return r
		}
		if val {
			r.exit = x
		}
	}
	for _, ef := range e.effects {
		if !hasLoop(ef.loops, m.L) || ef.kind != "mapset" && ef.kind != "mapdel" && ef.kind != "mapcopy" && ef.kind != "clear" {
			continue
		}
		val, un := e.decide(ef.pc, v)
		if un != nil {
			r.unknown, r.at = un, ef
			return r
		}
		if !val {
			continue
		}
		if ef.kind == "mapset" && ef.loops[len(ef.loops)-1] == m.L {
			r.sets = append(r.sets, ef)
		} else {
			r.touched = ef
		}
	}
	lvs := m.carried()
	for _, lv := range lvs {
		b := m.pick(m.L.back[lv], v)
		if b.op == OGate {
			for _, a := range e.alts(b) {
				if _, un := e.decide(a.c, v); un != nil {
					r.unknown = un
				}
			}
			return r
		}
		if b != lv {
			r.added = append(r.added, lv)
		}
	}
	return r
}

// carried lists the slices carried through the loop.
func (m *capMap) carried() []*Term {
	var out []*Term
	for lv := range m.L.back {
		if lv.typ == nil {
			continue
		}
		if _, ok := lv.typ.Underlying().(*types.Slice); ok {
			out = append(out, lv)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// findRoles finds where entries of each keyword are recorded, by looking at
// well-formed lines.
func (m *capMap) findRoles(exclude bool) bool {
	c, e := m.c, m.e
	for _, kw := range mapKeywords {
		sh := shape{kw: kw, n: needFields(kw), capOK: true, discover: true}
		r := m.run(sh)
		if r.unknown != nil {
			c.fail("recording", c.pos(m.L.pos), m.fn, "undecided: what happens to %s depends on %s", sh, m.short(r.unknown))
			return false
		}
		v := m.line(sh)
		switch {
		case kw == "cgo_suffix" && len(r.sets) == 0 && len(r.added) == 1:
			m.role[kw] = r.added[0]
		case kw == "cgo_suffix" && len(r.sets) == 1 || kw != "cgo_suffix" && len(r.sets) == 1 && len(r.added) == 0:
			m.role[kw] = m.pick(r.sets[0].args[0], v)
		default:
			c.fail("recording", c.pos(m.L.pos), m.fn, "%s is not recorded in one place (%d entries set, %d lists extended)", sh, len(r.sets), len(r.added))
			return false
		}
	}
	for i, a := range mapKeywords {
		for _, b := range mapKeywords[i+1:] {
			if m.role[a] == m.role[b] {
				c.fail("recording", c.pos(m.L.pos), m.fn, "entries of the keywords %s and %s are recorded in the same place", a, b)
				return false
			}
		}
	}
	// the classifier holding them: the object with a field for each role
	for _, ef := range e.effects {
		if ef.kind != "fieldset" || ef.args[0].op != OFAddr {
			continue
		}
		for kw, r := range m.role {
			for _, a := range e.alts(ef.args[1]) {
				if a.t == r && ef.args[0].args[0].op == OObj {
					if m.obj == nil {
						m.obj = ef.args[0].args[0]
					}
					if ef.args[0].args[0] == m.obj {
						m.field[kw] = ef.args[0].aux
					}
				}
				if r.op == OLV && a.t.op == OAppend && a.t.args[0] == r && ef.args[0].args[0].op == OObj {
					m.field[kw] = ef.args[0].aux
				}
			}
		}
	}
	if m.field["cgo_suffix"] == "" && m.obj != nil {
		// stored as a whole after the loop
		r := m.role["cgo_suffix"]
		for _, ef := range e.effects {
			if ef.kind == "fieldset" && ef.args[0].op == OFAddr && ef.args[0].args[0] == m.obj && e.contains(ef.args[1], func(x *Term) bool { return x == r }) {
				m.field["cgo_suffix"] = ef.args[0].aux
			}
		}
	}
	for _, kw := range mapKeywords {
		if m.field[kw] == "" {
			c.fail("recording", c.pos(m.L.pos), m.fn, "the field of the classifier that holds %s entries was not found", kw)
			return false
		}
	}
	return true
}

// outcome finds the values returned when the loop is left by exit x (or, if x
// is nil, at the end of the input).
func (m *capMap) outcome(sh *shape, x *LoopExit, failed bool) (*Ret, valuation, *Term) {
	e := m.e
	var lv valuation
	if sh != nil {
		lv = m.line(*sh)
	}
	v := func(a *Term) (bool, bool) {
		for i := range m.L.exits {
			y := &m.L.exits[i]
			if a == y.atom {
				if x != nil {
					return y == x, true
				}
				// leaving because no line is left
				val, un := e.decide(y.cond, func(a *Term) (bool, bool) { return m.progress(a, false, failed) })
				return un == nil && val, true
			}
		}
		if sh != nil {
			if val, ok := lv(a); ok {
				return val, true
			}
			return false, false
		}
		return m.progress(a, false, failed)
	}
	var unknown *Term
	for i := range m.f.rets {
		r := &m.f.rets[i]
		val, un := e.decide(r.st.pc, v)
		if un != nil {
			unknown = un
			continue
		}
		if val {
			return r, v, nil
		}
	}
	return nil, v, unknown
}

// names says whether error t mentions x, directly or in the fields of an
// error object.
func (m *capMap) mentionsIn(t *Term, mem *Mem, v valuation, ok func(x *Term) bool) bool {
	e := m.e
	seen := map[*Term]bool{}
	found := false
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || found {
			return
		}
		seen[t] = true
		if ok(t) {
			found = true
			return
		}
		if t.op == OObj {
			for _, fv := range structFields(elemTypeOf(t)) {
				rec(m.pick(e.load(mem, e.FAddr(t, fv.Name(), fv.Type()), fv.Type()), v))
			}
		}
		for _, a := range t.args {
			rec(m.pick(a, v))
		}
	}
	rec(m.pick(t, v))
	return found
}

// lineNumber says that t counts the lines, starting with 1.
func (m *capMap) lineNumber(t *Term) bool {
	base, k, ok := plusMinus(t)
	if !ok {
		base, k = t, 0
	}
	switch base.op {
	case OIdx:
		return base.loop == m.L && k == 1
	case OLV:
		if base.loop != m.L || m.L.back[base] == nil || m.L.init[base] == nil {
			return false
		}
		b, d, ok := plusMinus(m.L.back[base])
		n, err := strconv.Atoi(m.L.init[base].aux)
		return ok && b == base && d == 1 && err == nil && n+k == 1
	}
	return false
}

func ruleC19(c *Check) {
	m := c.loadMap(true)
	if m == nil {
		return
	}
	e := m.e
	rule := "every line recorded or rejected"
	bools := []bool{false, true}
	classes := 0
	seen := map[string]bool{}
	bad := func(sh shape, key, format string, a ...any) {
		key = sh.kw + key
		if !seen[key] {
			seen[key] = true
			c.fail(rule, c.pos(m.L.pos), m.fn, "%s %s", sh, fmt.Sprintf(format, a...))
		}
	}
	check := func(sh shape) {
		classes++
		r := m.run(sh)
		if r.unknown != nil {
			bad(sh, "?", "is handled depending on %s (undecided)", m.short(r.unknown))
			return
		}
		if sh.n == 0 {
			if r.exit != nil || len(r.sets)+len(r.added) > 0 || r.touched != nil {
				bad(sh, "blank", "is not ignored")
			}
			return
		}
		if r.exit == nil {
			if !sh.wellFormed() && !(sh.kw == "cgo_suffix" && sh.n > 1) {
				bad(sh, "accepted", "does not make loading fail")
				return
			}
			if r.touched != nil {
				bad(sh, "touched", "changes other entries at %s", c.pos(posOf(r.touched)))
				return
			}
			v := m.line(sh)
			if sh.kw == "cgo_suffix" && m.role[sh.kw].op == OLV {
				lv := m.role[sh.kw]
				ok := len(r.sets) == 0
				if len(r.added) == 0 {
					ok = ok && sh.listed
				} else {
					b := m.pick(m.L.back[lv], v)
					ok = ok && len(r.added) == 1 && r.added[0] == lv && b.op == OAppend && b.args[0] == lv && b.args[1].op == OList && len(b.args[1].args) == 1 && m.word(b.args[1].args[0], sh) == 1
				}
				if !ok {
					bad(sh, "lost", "is accepted without its suffix being recorded")
				}
				return
			}
			if len(r.sets) != 1 || len(r.added) != 0 {
				bad(sh, "lost", "is accepted, but it sets %d entries and extends %d lists", len(r.sets), len(r.added))
				return
			}
			ef := r.sets[0]
			if m.pick(ef.args[0], v) != m.role[sh.kw] {
				bad(sh, "place", "is recorded in the wrong place")
			}
			if k := m.pick(ef.args[1], v); !m.entryKey(k, sh, sh.kw) {
				bad(sh, "key", "is recorded under %s instead of the name it gives", m.short(k))
			}
			val := m.pick(ef.args[2], v)
			for val.op == OConv && len(val.args) == 1 {
				val = val.args[0]
			}
			switch sh.kw {
			case "func", "package":
				if !(val.op == OLookup && isCapValues(val.args[0]) && m.word(val.args[1], sh) == 2) {
					bad(sh, "value", "is recorded with %s instead of the capability it names", m.short(val))
				}
			case "unanalyzed":
				if ef.args[2].typ != nil && strings.HasSuffix(ef.args[2].typ.String(), ".Capability") && val != m.capConst("CAPABILITY_UNANALYZED") {
					bad(sh, "value", "is recorded with %s instead of UNANALYZED", m.short(val))
				}
			}
			return
		}
		if sh.wellFormed() && sh.n == needFields(sh.kw) && !(sh.kw == "cgo_suffix" && sh.listed) {
			bad(sh, "rejected", "makes loading fail (%s)", c.pos(r.exit.pos))
			return
		}
		ret, v, un := m.outcome(&sh, r.exit, false)
		if un != nil || ret == nil {
			w := "?"
			if un != nil {
				w = m.short(un)
			}
			bad(sh, "lost exit", "ends the reading, and what is returned depends on %s", w)
			return
		}
		err := m.pick(ret.vals[len(ret.vals)-1], v)
		if e.Cond(e.Eq(err, e.Nil())) != False {
			bad(sh, "no error", "ends the reading at %s without an error: lines after it are dropped", c.pos(r.exit.pos))
			return
		}
		if !m.mentionsIn(err, ret.st.mem, v, func(x *Term) bool { return m.lineNumber(x) }) {
			bad(sh, "line", "makes loading fail at %s with an error that does not name the line", c.pos(r.exit.pos))
		}
	}
	for _, hash := range bools {
		for _, lead := range bools {
			check(shape{hash: hash, lead: lead})
			for n := 1; n <= 4; n++ {
				for _, kw := range append([]string{""}, mapKeywords...) {
					for bits := 0; bits < 64; bits++ {
						b := func(i int) bool { return bits>>i&1 == 1 }
						sh := shape{kw: kw, n: n, hash: hash, lead: lead, dup: b(0), dupZero: b(1), other: b(2), capOK: b(3), cap0: b(4), listed: b(5)}
						hasCap := kw == "func" || kw == "package"
						if !sh.dup && sh.dupZero || !sh.capOK && sh.cap0 || !hasCap && (sh.capOK || sh.dupZero) ||
							kw != "cgo_suffix" && sh.listed || kw == "cgo_suffix" && sh.dup || kw == "" && bits > 0 ||
							n < 3 && sh.capOK || n < 2 && (sh.dup || sh.other) || kw == "ignore_edge" && n < 3 && sh.dup {
							continue
						}
						check(sh)
					}
				}
			}
		}
	}
	if len(seen) == 0 {
		c.ok(rule, c.pos(m.L.pos)+" "+m.fn)
	}
	c.count("line_classes", classes)
	c.count("ways_out_of_the_reading_loop", len(m.L.exits))

	// the end of the input
	rule = "end of input"
	m.failing(rule)
	ret, v, un := m.outcome(nil, nil, false)
	switch {
	case ret == nil:
		w := "?"
		if un != nil {
			w = m.short(un)
		}
		c.fail(rule, c.pos(m.L.pos), m.fn, "what is returned when every line has been read depends on %s", w)
	case !e.isNil(m.pick(ret.vals[1], v)):
		c.fail(rule, c.pos(ret.instr.Pos()), m.fn, "an error is returned although every line was read")
	default:
		unana, _ := strconv.Atoi(c.constVal(protoPath, "Capability_CAPABILITY_UNANALYZED"))
		m.merged(rule, true, unana, false)
	}
	// with the builtin map the failures are the same
	if m2 := c.loadMap(false); m2 != nil {
		m2.failing(rule)
		for i := range m2.L.exits {
			m2.exitFails(rule, &m2.L.exits[i])
		}
		c.problems(m2.e, "LoadClassifier")
	}
	c.need("vacuity", "line classes", classes, 300)
	c.problems(e, "LoadClassifier")
}

// retField reads a field of an object as it is when a function returns.
func (s *Sem) retField(o *Term, field string, ret *Ret) *Term {
	e := s.e
	for _, fv := range structFields(elemTypeOf(o)) {
		if fv.Name() == field {
			return e.load(ret.st.mem, e.FAddr(o, field, fv.Type()), fv.Type())
		}
	}
	return e.Field(o, field, nil)
}

// failing checks that a read failure is returned.
func (m *capMap) failing(rule string) {
	c, e := m.c, m.e
	ret, v, un := m.outcome(nil, nil, true)
	if ret == nil {
		w := "?"
		if un != nil {
			w = m.short(un)
		}
		c.fail(rule, c.pos(m.L.pos), m.fn, "whether a failure to read the input is returned depends on %s", w)
		return
	}
	err := m.pick(ret.vals[1], v)
	if e.isNil(err) || e.Cond(e.Eq(err, e.Nil())) != False && !e.contains(err, func(x *Term) bool {
		return x.op == OCall && baseName(x.aux) == "(*bufio.Scanner).Err" || x == m.reader
	}) {
		c.fail(rule, c.pos(ret.instr.Pos()), m.fn, "a failure to read the input to its end is not returned as an error")
		return
	}
	// the error is asked for once reading has stopped
	for _, ef := range e.effects {
		if baseName(ef.name) == "(*bufio.Scanner).Err" && hasLoop(ef.loops, m.L) {
			c.failEff(rule, ef, "the read error is asked for before the last line was read")
		}
	}
	c.ok(rule, c.pos(ret.instr.Pos())+" "+m.fn)
}

// exitFails checks that leaving the loop early makes loading fail.
func (m *capMap) exitFails(rule string, x *LoopExit) {
	c, e := m.c, m.e
	if val, un := e.decide(x.cond, func(a *Term) (bool, bool) { return m.progress(a, false, false) }); un == nil && val {
		return // the end of the input
	}
	for i := range m.f.rets {
		r := &m.f.rets[i]
		n := e.bdd.And(r.st.pc, e.Cond(x.atom))
		for j := range m.L.exits {
			if y := &m.L.exits[j]; y != x {
				n = e.bdd.And(n, e.bdd.Not(e.Cond(y.atom)))
			}
		}
		if n == False {
			continue
		}
		if e.bdd.And(n, e.Cond(e.Eq(r.vals[1], e.Nil()))) != False {
			c.fail(rule, c.pos(x.pos), m.fn, "a rejected line does not make loading fail")
			return
		}
	}
	c.ok(rule, c.pos(x.pos)+" "+m.fn)
}

// ---- merging and deriving classifiers ----

// entry is what a map holds for the name followed: nothing, or an entry that
// came from one of the source maps, with its value.
type entry struct {
	from string
	val  int // capability; -1 stands for any other than 0 and UNANALYZED
}

// follower follows one name through the operations on maps.
type follower struct {
	*Sem
	state  map[*Term]entry
	given  func(t *Term) (entry, bool) // what maps the program does not build hold
	known  valuation                   // other atoms
	unana  int
	skip   func(ef *Effect) bool
	failed string
	at     *Effect
}

func (fl *follower) isUnana(k string) (bool, bool) {
	n, err := strconv.Atoi(k)
	return n == fl.unana, err == nil
}

// with is the truth of atoms about the name, which key stands for.
func (fl *follower) with(key func(t *Term) bool) valuation {
	var v valuation
	v = func(a *Term) (bool, bool) {
		if fl.known != nil {
			if val, ok := fl.known(a); ok {
				return val, true
			}
		}
		if a.op == OEq {
			if x := fl.pick(a.args[0], v); a.args[1].op == OConst {
				if fl.e.isNil(a.args[1]) {
					if _, ok := fl.source(x); ok {
						return false, true
					}
					return false, false
				}
				if x.op == OLookup && key(x.args[1]) {
					en, ok := fl.source(fl.pick(x.args[0], v))
					n, err := strconv.Atoi(a.args[1].aux)
					if !ok || err != nil {
						return false, false
					}
					return en.val == n, true
				}
			}
		}
		if (a.op == OIn || a.op == OLookup) && key(a.args[1]) {
			if en, ok := fl.source(fl.pick(a.args[0], v)); ok {
				return en.from != "", true
			}
		}
		return false, false
	}
	return v
}

// source is what map t holds for the name.
func (fl *follower) source(t *Term) (entry, bool) {
	if en, ok := fl.state[t]; ok {
		return en, true
	}
	if en, ok := fl.given(t); ok {
		return en, true
	}
	if t.op == OObj {
		return entry{}, true
	}
	if fl.e.isNil(t) {
		return entry{}, true
	}
	return entry{}, false
}

func (fl *follower) fail(ef *Effect, format string, a ...any) {
	if fl.failed == "" {
		fl.failed, fl.at = fmt.Sprintf(format, a...), ef
	}
}

// follow runs through the operations on maps in order. Loops over a list
// written out in the program are taken one item at a time.
func (fl *follower) follow() {
	e := fl.e
	var ops []*Effect
	for _, ef := range e.effects {
		if (ef.kind == "mapset" || ef.kind == "mapdel" || ef.kind == "mapcopy" || ef.kind == "clear") && (fl.skip == nil || !fl.skip(ef)) {
			ops = append(ops, ef)
		}
	}
	none := fl.with(func(*Term) bool { return false })
	for i := 0; i < len(ops) && fl.failed == ""; {
		ef := ops[i]
		var items *Term
		if len(ef.loops) > 0 && ef.loops[0].container != nil && len(ef.loops[0].exits) == 0 {
			if t := fl.pick(ef.loops[0].container, none); t.op == OList && !ef.loops[0].reversed {
				items = t
			}
		}
		if items == nil {
			fl.step(ef, ef.loops, nil)
			i++
			continue
		}
		j := i
		for j < len(ops) && len(ops[j].loops) > 0 && ops[j].loops[0] == ef.loops[0] {
			j++
		}
		el := fl.q.elemOf(ef.loops[0].container, ef.loops[0])
		for _, it := range items.args {
			for _, x := range ops[i:j] {
				if fl.failed == "" {
					fl.step(x, x.loops[1:], map[*Term]*Term{el: it})
				}
			}
		}
		i = j
	}
}

// step does one operation, in the given loops.
func (fl *follower) step(ef *Effect, loops []*Loop, m map[*Term]*Term) {
	e := fl.e
	sub := func(t *Term) *Term {
		if m != nil {
			t = fl.q.substT(t, m, ef)
		}
		return t
	}
	none := fl.with(func(*Term) bool { return false })
	key := func(t *Term) bool { return false }
	v := none
	switch len(loops) {
	case 0:
	case 1:
		L := loops[0]
		if L.container == nil || len(L.exits) > 0 {
			fl.fail(ef, "a map is changed in a loop that is not over all entries of another")
			return
		}
		src := fl.pick(sub(L.container), none)
		key = func(t *Term) bool {
			t = fl.pick(t, none)
			return t.op == OKey && t.loop == L
		}
		v = fl.with(key)
		if en, ok := fl.source(src); !ok {
			fl.fail(ef, "undecided: a map is changed in a loop over %s", fl.short(src))
			return
		} else if en.from == "" {
			return
		}
	default:
		fl.fail(ef, "undecided: a map is changed in nested loops")
		return
	}
	pc := ef.pc
	if m != nil {
		pc = fl.q.substN(pc, m, ef)
	}
	val, un := e.decide(pc, v)
	if un != nil {
		fl.fail(ef, "undecided: whether a map is changed depends on %s", fl.short(un))
		return
	}
	if !val {
		return
	}
	dst := fl.pick(sub(ef.args[0]), v)
	if dst.op == OGate {
		fl.fail(ef, "undecided: which map is changed")
		return
	}
	switch ef.kind {
	case "clear":
		fl.state[dst] = entry{}
	case "mapcopy":
		en, ok := fl.source(fl.pick(sub(ef.args[1]), v))
		if !ok {
			fl.fail(ef, "undecided: entries are copied from %s", fl.short(ef.args[1]))
			return
		}
		if en.from != "" {
			fl.state[dst] = en
		} else if _, ok := fl.state[dst]; !ok {
			fl.state[dst] = entry{}
		}
	case "mapdel":
		if !key(sub(ef.args[1])) {
			fl.fail(ef, "undecided: the entry of %s is deleted", fl.short(ef.args[1]))
			return
		}
		fl.state[dst] = entry{}
	case "mapset":
		if !key(sub(ef.args[1])) {
			fl.fail(ef, "undecided: the entry of %s is set", fl.short(ef.args[1]))
			return
		}
		x := fl.pick(sub(ef.args[2]), v)
		switch {
		case x.op == OLookup && key(x.args[1]):
			en, ok := fl.source(fl.pick(x.args[0], v))
			if !ok || en.from == "" {
				fl.fail(ef, "undecided: an entry is set to %s", fl.short(x))
				return
			}
			fl.state[dst] = en
		case x.op == OConst:
			n, _ := strconv.Atoi(x.aux)
			fl.state[dst] = entry{"constant", n}
		case x.op == OStruct && len(x.args) == 0, x.op == OBool:
			fl.state[dst] = entry{"constant", -1}
		default:
			fl.fail(ef, "undecided: an entry is set to %s", fl.short(x))
		}
	}
}

// classifierGlobal says that t is a package-level classifier, or part of one.
func classifierGlobal(t *Term) bool {
	for {
		switch t.op {
		case OField, ODeref, OFAddr, OConv:
			t = t.args[0]
			continue
		case OGlobal:
			return strings.HasSuffix(t.typ.String(), intPkg+".Classifier")
		}
		return false
	}
}

func classifierParam(t *Term) bool {
	for {
		switch t.op {
		case OField, ODeref, OFAddr, OConv:
			t = t.args[0]
			continue
		case OParam:
			return t.typ != nil && strings.HasSuffix(t.typ.String(), intPkg+".Classifier")
		}
		return false
	}
}

// untouched checks that nothing reachable from the builtin classifier or a
// caller's is written to.
func (s *Sem) untouched(rule string) {
	c, e := s.c, s.e
	shared := func(t *Term) bool {
		if t.op == OConv && t.aux == "copy" {
			return false
		}
		return classifierGlobal(t) || classifierParam(t)
	}
	n := 0
	report := func(ef *Effect, t *Term, what string) {
		who := "a classifier that belongs to the caller"
		if classifierGlobal(t) {
			who = "the builtin classifier"
		}
		c.failEff(rule, ef, "%s of %s (%s)", what, who, s.short(t))
	}
	for _, ef := range e.effects {
		if ef.init {
			continue
		}
		var args []*Term
		what := "an entry is changed in a map"
		switch {
		case ef.kind == "mapset" || ef.kind == "mapdel" || ef.kind == "mapcopy" || ef.kind == "clear":
			args = ef.args[:1]
		case ef.kind == "fieldset" || ef.kind == "store":
			args, what = ef.args[:1], "a field is changed"
		case ef.kind == "append":
			args, what = ef.args[:1], "the list is extended in place"
		case ef.kind == "sort" || ef.kind == "reverse" || ef.kind == "deletefunc" || ef.kind == "copy":
			args, what = ef.args[:1], "the list is reordered or overwritten"
		case baseName(ef.name) == "slices.Compact" || baseName(ef.name) == "slices.CompactFunc" || baseName(ef.name) == "slices.Insert" || baseName(ef.name) == "slices.Delete":
			args, what = ef.args[:1], "the list is overwritten"
		}
		n += len(args)
		for _, a := range args {
			for _, x := range e.alts(a) {
				if e.bdd.And(x.c, ef.pc) == False {
					continue
				}
				t := x.t
				for t.op == OCall && t.aux == "slices.Compact" || t.op == OAppend {
					t = t.args[0]
				}
				for _, y := range e.alts(t) {
					if shared(y.t) {
						report(ef, y.t, what)
					}
				}
			}
		}
	}
	c.count("writes_examined", n)
}

// suffixes lists which lists of suffixes t is made of.
func (s *Sem) suffixes(t *Term, v valuation, name func(t *Term) string) (map[string]bool, *Term) {
	out := map[string]bool{}
	var bad *Term
	var rec func(t *Term)
	rec = func(t *Term) {
		t = s.pick(t, v)
		if n := name(t); n != "" {
			out[n] = true
			return
		}
		switch {
		case t.op == OConst && t.aux == "nil":
		case t.op == OAppend:
			rec(t.args[0])
			rec(t.args[1])
		case t.op == OConv && t.aux == "copy":
			rec(t.args[0])
		case t.op == OList && len(t.args) == 0:
		case t.op == OSlice && t.aux == "empty":
		case t.op == OCall && (t.aux == "slices.Compact" || t.aux == "slices.Clip" || t.aux == "slices.Grow" || strings.HasPrefix(t.aux, "sorted:")):
			rec(t.args[0])
		case t.op == OObj && t.obj != nil && t.obj.(*ObjInfo).kind == "slice":
		case t.op == OLV && t.loop.init[t] != nil:
			// elements of another list appended one by one, once each
			L := t.loop
			b := t.loop.back[t]
			if L.container != nil && len(L.exits) == 0 && b.op == OAppend && b.args[0] == t {
				if items := s.pick(L.container, v); items.op == OList {
					for _, it := range items.args {
						rec(s.q.substT(b.args[1], map[*Term]*Term{s.q.elemOf(L.container, L): it}, s.e.appendE[b]))
					}
					rec(L.init[t])
					return
				}
			}
			el := (*Term)(nil)
			if L.container != nil && len(L.exits) == 0 {
				el = s.q.elemOf(s.pick(L.container, v), L)
			}
			var always, ok = False, el != nil
			for _, a := range s.e.alts(b) {
				switch {
				case a.t == t:
				case a.t.op == OAppend && a.t.args[0] == t && a.t.args[1].op == OList && len(a.t.args[1].args) == 1 && s.pick(a.t.args[1].args[0], v) == el:
					always = s.e.bdd.Or(always, a.c)
				default:
					ok = false
				}
			}
			if ok {
				// the only reason to leave one out is that it is there
				val, un := s.e.decide(always, func(a *Term) (bool, bool) {
					if a.op == OCall && a.aux == "slices.Contains" && a.args[0] == t && s.pick(a.args[1], v) == el {
						return false, true
					}
					if v != nil {
						return v(a)
					}
					return false, false
				})
				ok = un == nil && val
			}
			if !ok {
				bad = t
				return
			}
			rec(L.container)
			rec(t.loop.init[t])
		default:
			bad = t
		}
	}
	rec(t)
	return out, bad
}

func ruleC18(c *Check) {
	unana, _ := strconv.Atoi(c.constVal(protoPath, "Capability_CAPABILITY_UNANALYZED"))
	fields := map[string]string{}
	for _, exclude := range []bool{true, false} {
		m := c.loadMap(exclude)
		if m == nil {
			return
		}
		fields = m.field
		rule := "merge"
		if exclude {
			rule = "builtin map excluded"
		}
		m.merged(rule, exclude, unana, true)
		m.untouched("builtin map unchanged")
		c.problems(m.e, "LoadClassifier")
	}
	for _, fn := range []struct{ pkg, name string }{{"/interesting", "ClassifierExcludingUnanalyzed"}, {"/interesting", "DefaultClassifier"},
		{"/interesting", "Classifier.FunctionCategory"}, {"/interesting", "Classifier.IncludeCall"}, {"/analyzer", "GetClassifier"}} {
		s, f := c.sem(fn.pkg, fn.name)
		if s == nil {
			continue
		}
		s.untouched("builtin map unchanged")
		switch fn.name {
		case "DefaultClassifier":
			s.builtinReturned(f, "builtin classifier returned")
		case "Classifier.IncludeCall":
			s.includeCall(f, fields["ignore_edge"])
		}
		c.problems(s.e, fn.name)
	}
	c.mapWiring()
}

// builtinReturned checks that an accessor returns the builtin classifier.
func (s *Sem) builtinReturned(f *Frame, rule string) {
	for _, r := range f.rets {
		for _, a := range s.e.alts(r.vals[0]) {
			if !classifierGlobal(a.t) {
				s.c.fail(rule, s.c.pos(r.instr.Pos()), s.fn, "%s is returned, not the builtin classifier", s.short(a.t))
				return
			}
		}
		s.c.ok(rule, s.c.pos(r.instr.Pos())+" "+s.fn)
	}
}

// merged follows one name through the merge.
func (m *capMap) merged(rule string, exclude bool, unana int, withBuiltin bool) {
	c := m.c
	label := "with the builtin map"
	if exclude {
		label = "without the builtin map"
	}
	ret, v, un := m.outcome(nil, nil, false)
	if ret == nil || un != nil {
		c.fail(rule, c.pos(m.L.pos), m.fn, "undecided: what is returned %s", label)
		return
	}
	o := m.pick(ret.vals[0], v)
	builtin := func(field string) func(t *Term) bool {
		return func(t *Term) bool { return t.op == OField && t.aux == field && classifierGlobal(t) }
	}
	kinds := [][]string{{"func", "unanalyzed"}, {"package"}, {"ignore_edge"}}
	vals := []int{0, unana, -1}
	cases := 0
	for _, ks := range kinds {
		// entries of the builtin map and of the user's, for each kind
		var try func(i int, b, u map[string]entry)
		reported := false
		try = func(i int, b, u map[string]entry) {
			if reported {
				return
			}
			if i < len(ks) {
				kw := ks[i]
				opts := []entry{{}}
				switch kw {
				case "func", "package":
					for _, x := range vals {
						opts = append(opts, entry{"x", x})
					}
				case "unanalyzed":
					opts = append(opts, entry{"x", unana})
				default:
					opts = append(opts, entry{"x", -1})
				}
				for _, x := range opts {
					if x.from != "" && !withBuiltin {
						continue
					}
					for _, y := range opts {
						b[kw], u[kw] = x, y
						if x.from != "" {
							b[kw] = entry{"builtin", x.val}
						}
						if y.from != "" {
							u[kw] = entry{"user", y.val}
						}
						try(i+1, b, u)
					}
				}
				return
			}
			cases++
			fl := &follower{Sem: m.Sem, state: map[*Term]entry{}, known: v, unana: unana,
				skip: func(ef *Effect) bool { return hasLoop(ef.loops, m.L) }}
			for _, kw := range ks {
				fl.state[m.role[kw]] = u[kw]
			}
			fl.given = func(t *Term) (entry, bool) {
				for _, kw := range mapKeywords {
					if builtin(m.field[kw])(t) {
						return b[kw], true // entries of other kinds are not followed here
					}
				}
				return entry{}, false
			}
			fl.follow()
			if fl.failed != "" {
				reported = true
				c.failEff(rule, fl.at, "%s", fl.failed)
				return
			}
			got := map[string]entry{}
			for _, kw := range ks {
				t := m.pick(m.retField(o, m.field[kw], ret), v)
				en, ok := fl.source(t)
				if !ok {
					reported = true
					c.fail(rule, c.pos(ret.instr.Pos()), m.fn, "undecided: the %s entries returned are %s", kw, m.short(t))
					return
				}
				got[kw] = en
			}
			in := func(x map[string]entry) (entry, bool) {
				for _, kw := range ks {
					if x[kw].from != "" {
						return x[kw], true
					}
				}
				return entry{}, false
			}
			bb := b
			if exclude {
				bb = map[string]entry{}
			}
			w, ok := in(u)
			if !ok {
				w, ok = in(bb)
			}
			g, gok := in(got)
			same := gok == ok && (!ok || g.val == w.val && (g.from == w.from || g.from == "constant"))
			if ok && gok && ks[0] == "func" {
				same = g.val == w.val && (g.from == w.from || w.val == unana)
			}
			if !same {
				reported = true
				c.fail(rule, c.pos(ret.instr.Pos()), m.fn, "%s: for a name with %s, the classifier has %s", label, describe(ks, b, u), describeEntry(ks, got))
			}
		}
		try(0, map[string]entry{}, map[string]entry{})
		if !reported {
			c.ok(rule, strings.Join(ks, "/")+" "+label)
		}
	}
	c.count("name_cases", cases)
	// suffixes
	t := m.retField(o, m.field["cgo_suffix"], ret)
	got, bad := m.suffixes(t, v, func(t *Term) string {
		if t == m.role["cgo_suffix"] {
			return "user"
		}
		if builtin(m.field["cgo_suffix"])(t) {
			return "builtin"
		}
		return ""
	})
	switch {
	case bad != nil:
		c.fail(rule, c.pos(ret.instr.Pos()), m.fn, "undecided: the suffixes returned are made of %s", m.short(bad))
	case !got["user"] || withBuiltin && got["builtin"] == exclude:
		c.fail(rule, c.pos(ret.instr.Pos()), m.fn, "%s the suffixes are those of %v", label, got)
	default:
		c.ok(rule, "cgo_suffix "+label)
	}
}

func describe(ks []string, b, u map[string]entry) string {
	var out []string
	for _, kw := range ks {
		if b[kw].from != "" {
			out = append(out, "a builtin "+kw+" entry")
		}
		if u[kw].from != "" {
			out = append(out, "a user "+kw+" entry")
		}
	}
	if len(out) == 0 {
		return "no entries"
	}
	return strings.Join(out, " and ")
}

func describeEntry(ks []string, got map[string]entry) string {
	var out []string
	for _, kw := range ks {
		if got[kw].from != "" {
			out = append(out, "the "+got[kw].from+" "+kw+" entry")
		}
	}
	if len(out) == 0 {
		return "none"
	}
	return strings.Join(out, " and ")
}

// includeCall checks the lookup of ignored calls.
func (s *Sem) includeCall(f *Frame, field string) {
	c, e := s.c, s.e
	rule := "ignored calls"
	var edge, recv *Term
	for _, t := range e.list {
		if t.op == OParam && t.typ != nil {
			switch {
			case strings.HasSuffix(t.typ.String(), "callgraph.Edge"):
				edge = t
			case strings.HasSuffix(t.typ.String(), ".Classifier"):
				recv = t
			}
		}
	}
	if edge == nil || recv == nil {
		c.fail(rule, "-", s.fn, "the call or the classifier is not looked at")
		return
	}
	name := func(end string) *Term {
		return e.mk(OCall, ssaFn+".String", types.Typ[types.String], e.Field(e.Field(edge, end, nil), "Func", nil))
	}
	got, want := False, False
	for _, r := range f.rets {
		got = e.bdd.Or(got, e.bdd.And(r.st.pc, e.Cond(r.vals[0])))
	}
	m := e.Field(recv, field, nil)
	found := false
	for _, v := range e.bdd.Support(got) {
		a := e.atoms[v]
		if (a.op == OIn || a.op == OLookup) && a.args[0] == m && (a.args[1].op == OList || a.args[1].op == OStruct) && len(a.args[1].args) == 2 &&
			a.args[1].args[0] == name("Caller") && a.args[1].args[1] == name("Callee") {
			want = e.bdd.Not(e.bdd.Var(v))
			found = true
		}
	}
	if !found {
		c.fail(rule, c.pos(f.rets[0].instr.Pos()), s.fn, "a call is not looked up by the names of its caller and callee among the ignored calls")
		return
	}
	care := True
	for _, v := range e.bdd.Support(got) {
		// the names of functions are not empty
		if a := e.atoms[v]; a.op == OEq && a.args[1].aux == `""` {
			care = e.bdd.And(care, e.bdd.Not(e.bdd.Var(v)))
		}
		if a := e.atoms[v]; a.op == OEq && a.args[0].op == OLen && a.args[0].args[0] == m && a.args[1].aux == "0" {
			// an empty table holds nothing
			care = e.bdd.And(care, e.bdd.Or(e.bdd.Not(e.bdd.Var(v)), want))
		}
	}
	if ok, why := s.same(got, want, care); !ok {
		c.fail(rule, c.pos(f.rets[0].instr.Pos()), s.fn, "whether a call is followed differs from \"it is not an ignored call\": %s", why)
		return
	}
	c.ok(rule, c.pos(f.rets[0].instr.Pos())+" "+s.fn)
}

// classifierArg lists how the classifier given to RunCapslock comes about.
func (m *command) classifierArg(rule string, check func(run *Effect, cond Node, t *Term) bool) {
	c, e := m.c, m.e
	n := 0
	for _, ef := range e.effects {
		if ef.name != anaPkg+".RunCapslock" {
			continue
		}
		n++
		good := true
		for _, a := range e.alts(m.configField(ef, "Classifier")) {
			if pc := e.bdd.And(a.c, ef.pc); pc != False {
				if a.t.op != OCall || baseName(a.t.aux) != intPkg+".ClassifierExcludingUnanalyzed" {
					good = check(ef, pc, a.t) && good
					continue
				}
				for _, x := range e.alts(a.t.args[0]) {
					if pc := e.bdd.And(x.c, pc); pc != False {
						good = check(ef, pc, e.mk(OCall, a.t.aux, a.t.typ, x.t)) && good
					}
				}
			}
		}
		if good {
			c.okEff(rule, ef)
		}
	}
	c.need("vacuity", "calls to RunCapslock", n, 1)
}

// userMap recognises the classifier loaded from the file the user names.
func (m *command) userMap(t *Term, cond Node) (ok bool, why string) {
	e := m.e
	if !(t.op == OExtract && t.aux == "0" && libraryResult(t) == intPkg+".LoadClassifier") {
		return false, ""
	}
	call := t.args[0]
	err := e.mk(OExtract, "1", errorType, call)
	if e.bdd.And(cond, e.bdd.Not(e.Cond(e.Eq(err, e.Nil())))) != False {
		return true, "the analysis is made although the capability map was rejected"
	}
	r := call.args[1]
	if !(r.op == OExtract && r.aux == "0" && strings.HasPrefix(r.args[0].aux, "os.Open") && e.isFlag(r.args[0].args[0], "capability_map")) {
		return true, "the capability map is read from " + m.short(r) + ", not from the file given with -capability_map"
	}
	if db := e.flagTerm("disable_builtin"); db == nil {
		return true, "there is no -disable_builtin option"
	} else if b := e.bdd.And(cond, e.bdd.Xor(e.Cond(call.args[2]), e.Cond(db))); b != False {
		return true, "the builtin map is left out when " + m.short(call.args[2]) + ", not when -disable_builtin is given"
	}
	return true, ""
}

// mapWiring follows the options about capability maps into the analysis.
func (c *Check) mapWiring() {
	rule := "options passed on"
	m := c.command("/cmd/capslock")
	if m == nil {
		return
	}
	m.parsed()
	e := m.e
	cm := e.flagTerm("capability_map")
	if cm == nil {
		c.fail(rule, "-", "main", "there is no -capability_map option")
		return
	}
	none := e.Cond(e.Eq(cm, e.Str("")))
	m.classifierArg(rule, func(run *Effect, cond Node, t *Term) bool {
		t, _ = m.underived(t)
		if ok, why := m.userMap(t, cond); ok {
			if why != "" {
				c.failEff(rule, run, "%s", why)
				return false
			}
			if e.bdd.And(cond, none) != False {
				c.failEff(rule, run, "a capability map is loaded although none was given")
				return false
			}
			return true
		}
		if e.bdd.And(cond, e.bdd.Not(none)) != False {
			c.failEff(rule, run, "the classifier used is %s although a capability map was given", m.short(t))
			return false
		}
		return true
	})
	c.problems(e, "main")
}

// underived strips the derivation that leaves out UNANALYZED.
func (m *command) underived(t *Term) (*Term, Node) {
	name := baseName(t.aux)
	if t.op == OCall && name == intPkg+".ClassifierExcludingUnanalyzed" {
		return t.args[0], True
	}
	if t.op == OCall && name == anaPkg+".GetClassifier" {
		return t, m.e.Cond(t.args[0])
	}
	return t, False
}

func ruleC28(c *Check) {
	m := c.loadMap(true)
	if m == nil {
		return
	}
	unana, _ := strconv.Atoi(c.constVal(protoPath, "Capability_CAPABILITY_UNANALYZED"))
	rule := "derived classifier"
	s, f := c.sem("/interesting", "ClassifierExcludingUnanalyzed")
	if s == nil {
		return
	}
	e := s.e
	src := e.param(f.fn, 0)
	cases := 0
	for ri := range f.rets {
		ret := &f.rets[ri]
		for _, o := range e.alts(ret.vals[0]) {
			where := c.pos(ret.instr.Pos())
			for _, kw := range mapKeywords {
				fld := m.field[kw]
				val := s.retField(o.t, fld, ret)
				orig := func(t *Term) bool { return t.op == OField && t.aux == fld && original(t.args[0]) == src }
				if kw == "cgo_suffix" {
					got, bad := s.suffixes(val, nil, func(t *Term) string {
						if orig(t) {
							return "x"
						}
						return ""
					})
					if bad != nil || !got["x"] {
						c.fail(rule, where, s.fn, "the suffixes are %s, not those of the classifier it is derived from", s.short(val))
					} else {
						c.ok(rule, where+" "+fld)
					}
					continue
				}
				good := true
				for _, x := range []entry{{}, {"x", 0}, {"x", unana}, {"x", -1}} {
					if kw == "ignore_edge" && x.val >= 0 && x.from != "" || kw == "unanalyzed" && x.from != "" && x.val != unana {
						continue
					}
					cases++
					fl := &follower{Sem: s, state: map[*Term]entry{}, unana: unana}
					fl.given = func(t *Term) (entry, bool) {
						if orig(t) {
							return x, true
						}
						return entry{}, t.op == OField && original(t.args[0]) == src
					}
					fl.follow()
					if fl.failed != "" {
						c.failEff(rule, fl.at, "%s", fl.failed)
						good = false
						break
					}
					got, ok := fl.source(s.pick(val, fl.with(func(*Term) bool { return false })))
					if !ok {
						c.fail(rule, where, s.fn, "undecided: the %s entries are %s", kw, s.short(val))
						good = false
						break
					}
					gone := kw != "ignore_edge" && x.from != "" && x.val == unana
					if gone && got.from != "" {
						c.fail(rule, where, s.fn, "a %s entry with the category UNANALYZED is kept", kw)
						good = false
					}
					if !gone && got != x {
						c.fail(rule, where, s.fn, "a %s entry with another category is not kept as it is", kw)
						good = false
					}
				}
				if good {
					c.ok(rule, where+" "+fld)
				}
			}
		}
	}
	c.count("entry_cases", cases)
	c.problems(e, "ClassifierExcludingUnanalyzed")

	// the library's choice
	c.opaque = map[string]bool{intPkg + ".ClassifierExcludingUnanalyzed": true, intPkg + ".DefaultClassifier": true}
	s, f = c.sem("/analyzer", "GetClassifier")
	c.opaque = nil
	if s == nil {
		return
	}
	rule = "option followed"
	noisy := s.e.Cond(s.e.param(f.fn, 0))
	isBuiltin := func(t *Term) bool { return t.op == OCall && baseName(t.aux) == intPkg+".DefaultClassifier" }
	for _, r := range f.rets {
		for _, a := range s.e.alts(r.vals[0]) {
			pc := s.e.bdd.And(r.st.pc, a.c)
			if pc == False {
				continue
			}
			derived := a.t.op == OCall && baseName(a.t.aux) == intPkg+".ClassifierExcludingUnanalyzed" && isBuiltin(a.t.args[0])
			if !derived && !isBuiltin(a.t) {
				c.fail(rule, c.pos(r.instr.Pos()), s.fn, "the classifier returned is %s", s.short(a.t))
				continue
			}
			want := noisy
			if !derived {
				want = s.e.bdd.Not(noisy)
			}
			if s.e.bdd.And(pc, s.e.bdd.Not(want)) != False {
				c.fail(rule, c.pos(r.instr.Pos()), s.fn, "UNANALYZED entries are lifted when %s", s.cube(s.e.bdd.And(pc, s.e.bdd.Not(want))))
				continue
			}
			c.ok(rule, c.pos(r.instr.Pos())+" "+s.fn)
		}
	}
	c.problems(s.e, "GetClassifier")

	// the command
	cmd := c.command("/cmd/capslock")
	if cmd == nil {
		return
	}
	cmd.parsed()
	opt := cmd.e.flagTerm("noisy")
	if opt == nil {
		c.fail(rule, "-", "main", "there is no -noisy option")
		return
	}
	on := cmd.e.Cond(opt)
	cmd.classifierArg(rule, func(run *Effect, cond Node, t *Term) bool {
		base, lifted := cmd.underived(t)
		b := cmd.e.bdd
		if n := b.And(cond, b.Xor(lifted, on)); n != False {
			c.failEff(rule, run, "UNANALYZED entries are lifted exactly when %s, not when -noisy is given: %s", cmd.e.NStr(lifted), cmd.cube(n))
			return false
		}
		if ok, _ := cmd.userMap(base, cond); !ok && baseName(base.aux) != anaPkg+".GetClassifier" && baseName(base.aux) != intPkg+".DefaultClassifier" {
			c.failEff(rule, run, "the classifier used is %s", cmd.short(base))
			return false
		}
		return true
	})
	c.problems(cmd.e, "main")
}

// ---- categories ----

func ruleC03(c *Check) {
	m := c.loadMap(true)
	if m == nil {
		return
	}
	c.precedence(m.field)
	for _, name := range []string{"GetCapabilityCounts", "GetCapabilityStats", "GetCapabilityInfo", "CapabilityGraph"} {
		var s *Sem
		if name == "GetCapabilityInfo" {
			s, _ = c.semWith("/analyzer", name, given{"Granularity": c.constVal(anaPkg, "GranularityFunction")})
		} else {
			s, _ = c.sem("/analyzer", name)
		}
		if s == nil {
			continue
		}
		s.categories()
		c.problems(s.e, name)
	}
	c.need("vacuity", "tables of functions with a capability by category", c.stats["category_tables"], 4)
}

// precedence compares the lookup with the order in which entries apply.
func (c *Check) precedence(field map[string]string) {
	rule := "precedence of entries"
	s, f := c.sem("/interesting", "Classifier.FunctionCategory")
	if s == nil {
		return
	}
	e, b := s.e, s.e.bdd
	recv, pkg, name := e.param(f.fn, 0), e.param(f.fn, 1), e.param(f.fn, 2)
	fld := func(kw string) *Term { return e.Field(recv, field[kw], nil) }
	in := func(kw string, k *Term) Node { return e.Atom(e.mk(OIn, "", types.Typ[types.Bool], fld(kw), k)) }
	// the suffix test
	suffix := False
	sfx := fld("cgo_suffix")
	suffixLoop := func(L *Loop, n Node) bool {
		el := s.q.elemOf(sfx, L)
		has := e.Atom(e.mk(OCall, "strings.HasSuffix", types.Typ[types.Bool], name, el))
		return L.container == sfx && n == has
	}
	var found []string
	for _, L := range e.allLoops {
		if L.container != sfx {
			continue
		}
		for _, x := range L.exits {
			if suffixLoop(L, x.cond) && len(L.exits) == 1 && L.pc == True {
				suffix = e.Cond(x.atom)
				found = append(found, c.pos(L.pos))
			}
		}
		for lv, back := range L.back {
			// found = found || HasSuffix(name, s)
			if isBoolTerm(lv) && L.init[lv] != nil && e.Cond(L.init[lv]) == False && len(L.exits) == 0 && L.pc == True {
				if suffixLoop(L, b.Cofactor(e.Cond(back), e.atomV[lv], false)) && b.Cofactor(e.Cond(back), e.atomV[lv], true) == True {
					suffix = e.Cond(lv)
					found = append(found, c.pos(L.pos))
				}
			}
		}
	}
	if len(found) != 1 {
		c.fail(rule, c.pos(f.fn.Pos()), s.fn, "no loop was found that tests whether the function's name ends in one of the cgo suffixes (%d candidates)", len(found))
		return
	}
	cgo, un := s.capConst("CAPABILITY_CGO"), s.capConst("CAPABILITY_UNANALYZED")
	// what is given, and when
	inF, inU, inP := in("func", name), in("unanalyzed", name), in("package", pkg)
	free := b.Not(suffix)
	lookup := func(kw string, k *Term) *Term { return e.mk(OLookup, "", nil, fld(kw), k) }
	want := []struct {
		what string
		when Node
		is   func(t *Term) bool
	}{
		{"CGO", suffix, func(t *Term) bool { return t == cgo }},
		{"the function's entry", b.And(free, inF), func(t *Term) bool { return t == lookup("func", name) }},
		{"UNANALYZED", b.And(free, b.Not(inF), inU), func(t *Term) bool { return t == un || t == lookup("unanalyzed", name) }},
		{"the package's entry", b.And(free, b.Not(inF), b.Not(inU), inP), func(t *Term) bool { return t == lookup("package", pkg) }},
		{"UNSPECIFIED", b.And(free, b.Not(inF), b.Not(inU), b.Not(inP)), func(t *Term) bool {
			return t == lookup("package", pkg) || t == s.capConst("CAPABILITY_UNSPECIFIED") || t == lookup("unanalyzed", name) || t == lookup("func", name)
		}},
	}
	// entries that are not there read as zero; unanalyzed entries are never zero
	care := True
	for _, t := range append([]*Term(nil), e.atoms...) {
		if t.op == OEq && t.args[0].op == OLookup && t.args[1].aux == "0" {
			x := t.args[0]
			zero := e.Cond(t)
			switch x {
			case lookup("unanalyzed", name):
				care = b.And(care, b.Or(b.And(zero, b.Not(inU)), b.And(b.Not(zero), inU)))
			case lookup("func", name):
				care = b.And(care, b.Or(inF, zero))
			case lookup("package", pkg):
				care = b.And(care, b.Or(inP, zero))
			}
		}
		if t.op == OEq && t.args[0].op == OLen && t.args[0].args[0] == sfx && t.args[1].aux == "0" {
			care = b.And(care, b.Or(b.Not(e.Cond(t)), b.Not(suffix)))
		}
	}
	good := true
	for _, r := range f.rets {
		for _, a := range e.alts(r.vals[0]) {
			pc := b.And(r.st.pc, a.c, care)
			t := a.t
			for t.op == OConv && len(t.args) == 1 {
				t = t.args[0]
			}
			for _, w := range want {
				if n := b.And(pc, w.when); n != False && !w.is(t) {
					// the zero value of an entry known to be zero
					if t.op == OConst && t.aux == "0" && w.what == "the package's entry" && b.And(n, b.Not(e.Cond(e.Eq(lookup("package", pkg), e.Int(0))))) == False {
						continue
					}
					good = false
					c.fail(rule, c.pos(r.instr.Pos()), s.fn, "%s is returned where %s applies: %s", s.short(t), w.what, s.cube(n))
				}
			}
		}
	}
	if good {
		c.ok(rule, c.pos(f.fn.Pos())+" "+s.fn)
	}
	c.problems(e, s.name)
}

// categories checks how functions of the call graph get their capabilities.
func (s *Sem) categories() {
	c, e := s.c, s.e
	rule := "category of each function"
	if s.nodes == nil || s.cls == nil {
		c.fail("anchor", "-", s.fn, "no call graph or no classifier is used")
		return
	}
	cat, _ := s.nestRoles()
	if len(cat) == 0 {
		c.fail(rule, "-", s.fn, "no table of functions by category was found")
		return
	}
	for _, nest := range cat {
		cp := e.mk(ONamed, "capability", nil)
		x := e.mk(ONamed, "function node", nil)
		got, ok := s.memberBy(nest, cp, x, nil, false)
		where := "-"
		if sets := s.q.nestedSets(nest); len(sets) > 0 {
			where = c.pos(posOf(sets[0].eff))
		}
		if !ok {
			c.fail(rule, where, s.fn, "how functions get into the table of functions by category could not be determined")
			continue
		}
		want := False
		for _, a := range s.category(s.funcOf(x)) {
			is := e.Cond(e.Eq(a.t, cp))
			if a.t.id > cp.id {
				is = e.Cond(e.Eq(cp, a.t))
			}
			want = e.bdd.Or(want, e.bdd.And(a.c, is,
				e.bdd.Not(e.Cond(e.Eq(a.t, s.capConst("CAPABILITY_SAFE")))),
				e.bdd.Not(e.Cond(e.Eq(a.t, s.capConst("CAPABILITY_UNSPECIFIED"))))))
		}
		c.count("category_tables", 1)
		if same, why := s.same(got, want, True); !same {
			c.fail(rule, where, s.fn, "the functions with a capability by category differ from those whose category in the map it is: %s", why)
			continue
		}
		c.ok(rule, where+" "+s.fn)
	}
	// every category asked for is that of the function itself or of the one it
	// is an instance of
	n := 0
	for _, ef := range e.effects {
		if ef.kind == "invoke" && strings.HasSuffix(ef.name, ")."+categoryFn) {
			n++
		}
	}
	c.count("category_lookups", n)
}
