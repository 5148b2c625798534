package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// Op is the kind of a Term.
type Op string

const (
	OConst   Op = "const"  // aux = rendered constant ("nil" for nil)
	OParam   Op = "param"  // aux = position and name
	OGlobal  Op = "global" // address of a package-level variable
	OFunc    Op = "func"
	OClosure Op = "closure" // args = bindings
	OBound   Op = "bound"   // bound external method value; args[0] = receiver
	OObj     Op = "obj"     // allocation site; aux = site
	OField   Op = "field"   // field of a struct value or of the struct pointed to
	OFAddr   Op = "&field"
	OIndex   Op = "index"
	OIAddr   Op = "&index"
	ODeref   Op = "deref"
	OLookup  Op = "lookup"
	OIn      Op = "in"
	OEntry   Op = "entry" // memory location of a map entry
	OCall    Op = "call"  // result of a library call; aux = name
	OInvoke  Op = "invoke"
	OExtract Op = "extract"
	OBin     Op = "bin"
	OUn      Op = "un"
	OEq      Op = "eq"
	OLt      Op = "lt"
	OLen     Op = "len"
	OElem    Op = "elem" // element of args[0] visited by a loop
	OKey     Op = "key"  // key of the map args[0] visited by a loop
	OIdx     Op = "idx"
	OLV      Op = "lv" // loop-carried value
	OGate    Op = "gate"
	OBool    Op = "bool" // boolean function of atoms
	OTuple   Op = "tuple"
	OStruct  Op = "struct"
	OList    Op = "list"
	OAppend  Op = "append" // args[0] ++ args[1]; aux = site
	OSlice   Op = "slice"
	OTypeIs  Op = "typeis"
	OExists  Op = "exists" // a loop leaves early
	OMod     Op = "mod"    // contents of args[0] after an external call
	OFilter  Op = "filter"
	OZero    Op = "zero"
	OConv    Op = "conv"
	ONamed   Op = "named"
	OAbsent  Op = "absent"
	ORec     Op = "rec" // result of a recursive call
	ORange   Op = "rangeiter"
	OIter    Op = "iter" // iterator function (maps.Keys and so on)
)

// Term is a hash-consed symbolic value.
type Term struct {
	id    int
	op    Op
	aux   string
	args  []*Term
	conds []Node // OGate
	node  Node   // OBool, OExists
	loop  *Loop
	typ   types.Type
	obj   any
}

type U struct {
	terms map[string]*Term
	list  []*Term
	bdd   *BDD
	atoms []*Term
	atomV map[*Term]int
}

func NewU() *U {
	return &U{terms: map[string]*Term{}, bdd: NewBDD(), atomV: map[*Term]int{}}
}

func (u *U) intern(t Term) *Term {
	if t.op == OElem && t.loop != nil && t.args[0].op == OCall && (t.args[0].aux == "sorted:maps.Keys" || t.args[0].aux == "collect:maps.Keys") {
		t.op, t.args = OKey, t.args[0].args
	}
	if t.op == OElem && t.loop != nil && t.args[0].op == OLV && t.args[0].loop != t.loop {
		if m := t.args[0].keys(); m != nil {
			t.op, t.args = OKey, []*Term{m}
		}
	}
	var sb strings.Builder
	sb.WriteString(string(t.op))
	sb.WriteByte('|')
	sb.WriteString(t.aux)
	for i, a := range t.args {
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.id))
		if t.op == OGate {
			sb.WriteByte('?')
			sb.WriteString(strconv.Itoa(int(t.conds[i])))
		}
	}
	if t.op == OBool || t.op == OExists || t.op == OFilter {
		sb.WriteString("#" + strconv.Itoa(int(t.node)))
	}
	if t.loop != nil {
		sb.WriteString("@" + strconv.Itoa(t.loop.id))
	}
	k := sb.String()
	if x, ok := u.terms[k]; ok {
		if x.typ == nil {
			x.typ = t.typ
		}
		return x
	}
	t.id = len(u.list)
	p := new(Term)
	*p = t
	u.terms[k] = p
	u.list = append(u.list, p)
	return p
}

func (u *U) mk(op Op, aux string, typ types.Type, args ...*Term) *Term {
	return u.intern(Term{op: op, aux: aux, args: args, typ: typ})
}

func (u *U) Bool(n Node) *Term {
	return u.intern(Term{op: OBool, node: n, typ: types.Typ[types.Bool]})
}

func (u *U) Const(v string, typ types.Type) *Term { return u.mk(OConst, v, typ) }
func (u *U) Nil() *Term                           { return u.mk(OConst, "nil", nil) }
func (u *U) Int(i int) *Term                      { return u.mk(OConst, strconv.Itoa(i), types.Typ[types.Int]) }
func (u *U) Str(s string) *Term                   { return u.mk(OConst, strconv.Quote(s), types.Typ[types.String]) }

func (u *U) constVal(v constant.Value, typ types.Type) *Term {
	if v == nil {
		return u.zero(typ)
	}
	if v.Kind() == constant.Bool {
		if constant.BoolVal(v) {
			return u.Bool(True)
		}
		return u.Bool(False)
	}
	return u.mk(OConst, v.ExactString(), typ)
}

func (u *U) zero(typ types.Type) *Term {
	if typ == nil {
		return u.Nil()
	}
	switch t := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsBoolean != 0:
			return u.Bool(False)
		case t.Info()&types.IsString != 0:
			return u.Str("")
		case t.Info()&types.IsNumeric != 0:
			return u.mk(OConst, "0", typ)
		}
		return u.Nil()
	case *types.Struct:
		var names []string
		var vals []*Term
		for i := 0; i < t.NumFields(); i++ {
			names = append(names, t.Field(i).Name())
			vals = append(vals, u.zero(t.Field(i).Type()))
		}
		return u.mk(OStruct, structNames(names, typ), typ, vals...)
	case *types.Array:
		return u.mk(OZero, typ.String(), typ)
	}
	return u.Nil()
}

// Atom returns the decision variable for a boolean term.
func (u *U) Atom(t *Term) Node {
	if v, ok := u.atomV[t]; ok {
		return u.bdd.Var(v)
	}
	v := len(u.atoms)
	u.atoms = append(u.atoms, t)
	u.atomV[t] = v
	return u.bdd.Var(v)
}

func (u *U) Named(name string) Node { return u.Atom(u.mk(ONamed, name, nil)) }

// Cond turns a boolean-typed term into a decision diagram.
func (u *U) Cond(t *Term) Node {
	switch t.op {
	case OBool:
		return t.node
	case OGate:
		r := False
		for i, a := range t.args {
			r = u.bdd.Or(r, u.bdd.And(t.conds[i], u.Cond(a)))
		}
		return r
	case OConst:
		if t.aux == "true" {
			return True
		}
		if t.aux == "false" || t.aux == "nil" {
			return False
		}
	}
	return u.Atom(t)
}

func isBoolType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

type alt struct {
	c Node
	t *Term
}

// Gate builds a value that is alts[i].t when alts[i].c holds.  Conditions are
// simplified under the assumption total.
func (u *U) Gate(alts []alt, total Node, typ types.Type) *Term {
	if isBoolType(typ) {
		r := False
		for _, a := range alts {
			r = u.bdd.Or(r, u.bdd.And(a.c, u.Cond(a.t)))
		}
		return u.Bool(u.bdd.Restrict(r, total))
	}
	m := map[*Term]Node{}
	var order []*Term
	var add func(c Node, t *Term)
	add = func(c Node, t *Term) {
		if c == False {
			return
		}
		if t.op == OGate {
			for i, x := range t.args {
				add(u.bdd.And(c, t.conds[i]), x)
			}
			return
		}
		if _, ok := m[t]; !ok {
			order = append(order, t)
		}
		m[t] = u.bdd.Or(m[t], c)
	}
	for _, a := range alts {
		add(a.c, a.t)
	}
	if len(order) == 0 {
		return u.mk(OZero, "unreachable", typ)
	}
	if len(order) == 1 {
		return order[0]
	}
	sort.Slice(order, func(i, j int) bool { return order[i].id < order[j].id })
	var conds []Node
	for _, t := range order {
		conds = append(conds, u.bdd.Restrict(m[t], total))
	}
	if typ == nil {
		typ = order[0].typ
	}
	return u.intern(Term{op: OGate, args: order, conds: conds, typ: typ})
}

// alts lists the guarded alternatives of a term.
func (u *U) alts(t *Term) []alt {
	if t.op != OGate {
		return []alt{{True, t}}
	}
	var out []alt
	for i, a := range t.args {
		out = append(out, alt{t.conds[i], a})
	}
	return out
}

const maxAlts = 24

// dist applies f to each alternative of t.
func (u *U) dist(t *Term, typ types.Type, f func(*Term) *Term) *Term {
	if t.op != OGate || len(t.args) > maxAlts {
		return f(t)
	}
	var out []alt
	for i, a := range t.args {
		out = append(out, alt{t.conds[i], f(a)})
	}
	return u.Gate(out, True, typ)
}

func (u *U) dist2(a, b *Term, typ types.Type, f func(a, b *Term) *Term) *Term {
	return u.dist(a, typ, func(x *Term) *Term {
		return u.dist(b, typ, func(y *Term) *Term { return f(x, y) })
	})
}

func structIndex(t *Term, f string) int {
	for i, n := range strings.Split(t.aux, ",") {
		if n == f {
			return i
		}
	}
	return -1
}

// structNames is the label of a struct value: its field names, or the name of
// its type if it has none.
func structNames(names []string, typ types.Type) string {
	if n, ok := typ.(*types.Named); ok && len(names) == 0 {
		return types.TypeString(n, nil)
	}
	return strings.Join(names, ",")
}

// Field selects field f of a struct value or of what a pointer points to.
func (u *U) Field(x *Term, f string, typ types.Type) *Term {
	return u.dist(x, typ, func(x *Term) *Term {
		switch x.op {
		case OStruct:
			if i := structIndex(x, f); i >= 0 {
				return x.args[i]
			}
		case ODeref:
			x = x.args[0]
		}
		return u.mk(OField, f, typ, x)
	})
}

func (u *U) isNil(t *Term) bool { return t.op == OConst && t.aux == "nil" }

func nonNil(t *Term) bool {
	switch t.op {
	case OObj, OClosure, OFunc, OGlobal, OFAddr, OIAddr, OBound, OStruct, OList:
		return true
	case OParam:
		return strings.HasSuffix(t.aux, "!")
	case OAppend:
		return t.args[1].op == OList && len(t.args[1].args) > 0
	case OCall:
		switch t.aux {
		case "fmt.Errorf", "errors.New", "flag.String", "flag.Int", "flag.Bool":
			return true
		}
	}
	return false
}

// Eq is the test a == b.
func (u *U) Eq(a, b *Term) *Term {
	return u.dist2(a, b, types.Typ[types.Bool], func(a, b *Term) *Term {
		if a == b {
			return u.Bool(True)
		}
		if a.op == OBool && b.op == OBool {
			return u.Bool(u.bdd.Ite(a.node, b.node, u.bdd.Not(b.node)))
		}
		if a.op == OConst && b.op == OConst {
			if a.aux == "nil" || b.aux == "nil" {
				// nil and a non-nil constant held in an interface
				return u.Bool(False)
			}
			return u.Bool(False)
		}
		if a.op == OConst || (b.op != OConst && a.id > b.id) {
			a, b = b, a
		}
		if isBoolType(a.typ) && isBoolType(b.typ) {
			x, y := u.Cond(a), u.Cond(b)
			return u.Bool(u.bdd.Ite(x, y, u.bdd.Not(y)))
		}
		if u.isNil(b) && nonNil(a) {
			return u.Bool(False)
		}
		if b.op == OStruct && a.op == OStruct && a.aux == b.aux {
			r := True
			for i := range a.args {
				r = u.bdd.And(r, u.Cond(u.Eq(a.args[i], b.args[i])))
			}
			return u.Bool(r)
		}
		if b.op == OConst && b.aux == "0" && a.op == OLen {
			x := a.args[0]
			if isStringType(x.typ) {
				return u.Eq(x, u.Str(""))
			}
			if x.op == OList {
				return u.Bool(False)
			}
			if x.op == OAppend {
				return u.Bool(u.bdd.And(u.Cond(u.Eq(u.Len(x.args[0]), b)), u.Cond(u.Eq(u.Len(x.args[1]), b))))
			}
		}
		// s[0] == 'c'  is  HasPrefix(s, "c")
		if b.op == OConst && a.op == OIndex && a.args[1].op == OConst && a.args[1].aux == "0" && isStringType(a.args[0].typ) {
			if n, err := strconv.Atoi(b.aux); err == nil && n > 0 && n < 128 {
				return u.mk(OCall, "strings.HasPrefix", types.Typ[types.Bool], a.args[0], u.Str(string(rune(n))))
			}
		}
		// s[len(s)-1] == 'c'  is  HasSuffix(s, "c")
		if b.op == OConst && a.op == OIndex && isStringType(a.args[0].typ) && a.args[1].op == OBin && a.args[1].aux == "-" &&
			a.args[1].args[0].op == OLen && a.args[1].args[0].args[0] == a.args[0] && a.args[1].args[1].aux == "1" {
			if n, err := strconv.Atoi(b.aux); err == nil && n > 0 && n < 128 {
				return u.mk(OCall, "strings.HasSuffix", types.Typ[types.Bool], a.args[0], u.Str(string(rune(n))))
			}
		}
		return u.Bool(u.Atom(u.mk(OEq, "", types.Typ[types.Bool], a, b)))
	})
}

func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// keys: the list is that of all keys of a map, made by a loop over it.
func (t *Term) keys() *Term {
	l := t.loop
	if l == nil || l.kind != "map" || len(l.exits) > 0 || l.init[t] == nil || l.back[t] == nil {
		return nil
	}
	if x := l.init[t]; !(x.op == OConst && x.aux == "nil" || x.op == OSlice && x.aux == "empty" || x.op == OList && len(x.args) == 0) {
		return nil
	}
	x := l.back[t]
	if x.op != OAppend || x.args[0] != t || x.args[1].op != OList || len(x.args[1].args) != 1 {
		return nil
	}
	if k := x.args[1].args[0]; k.op == OKey && k.loop == l {
		return k.args[0]
	}
	return nil
}

func (u *U) nonNeg(t *Term) bool {
	switch t.op {
	case OLen, OIdx:
		return true
	case OField:
		if t.aux == "Line" || t.aux == "Offset" || t.aux == "Column" {
			x := t.args[0]
			return x.op == OCall && strings.HasSuffix(x.aux, "token.FileSet).Position")
		}
	}
	return false
}

// Lt is the test a < b.
func (u *U) Lt(a, b *Term) *Term {
	return u.dist2(a, b, types.Typ[types.Bool], func(a, b *Term) *Term {
		if a.op == OConst && b.op == OConst {
			x, e1 := strconv.ParseInt(a.aux, 10, 64)
			y, e2 := strconv.ParseInt(b.aux, 10, 64)
			if e1 == nil && e2 == nil {
				if x < y {
					return u.Bool(True)
				}
				return u.Bool(False)
			}
		}
		if a == b {
			return u.Bool(False)
		}
		// integers: c < x  is  not x < c+1
		if a.op == OConst {
			if x, err := strconv.ParseInt(a.aux, 10, 64); err == nil && isIntType(b.typ) {
				return u.Bool(u.bdd.Not(u.Cond(u.Lt(b, u.mk(OConst, strconv.FormatInt(x+1, 10), b.typ)))))
			}
		}
		if b.op == OConst && u.nonNeg(a) {
			x, err := strconv.ParseInt(b.aux, 10, 64)
			if err == nil && x <= 0 {
				return u.Bool(False)
			}
			if err == nil && x <= 4 {
				r := False
				for i := int64(0); i < x; i++ {
					r = u.bdd.Or(r, u.Cond(u.Eq(a, u.Int(int(i)))))
				}
				return u.Bool(r)
			}
		}
		return u.Bool(u.Atom(u.mk(OLt, "", types.Typ[types.Bool], a, b)))
	})
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// Subst replaces terms bottom-up.
func (u *U) Subst(t *Term, m map[*Term]*Term) *Term {
	s := &substituter{u: u, m: m, memo: map[*Term]*Term{}, nmemo: map[Node]Node{}}
	return s.term(t)
}

func (u *U) SubstNode(n Node, m map[*Term]*Term) Node {
	s := &substituter{u: u, m: m, memo: map[*Term]*Term{}, nmemo: map[Node]Node{}}
	return s.nodeS(n)
}

type substituter struct {
	u     *U
	m     map[*Term]*Term
	memo  map[*Term]*Term
	nmemo map[Node]Node
	f     func(*Term) *Term
}

func (s *substituter) nodeS(n Node) Node {
	if n <= True {
		return n
	}
	if r, ok := s.nmemo[n]; ok {
		return r
	}
	b := s.u.bdd
	x := b.nodes[n]
	c := s.u.Cond(s.term(s.u.atoms[x.v]))
	r := b.Ite(c, s.nodeS(x.hi), s.nodeS(x.lo))
	s.nmemo[n] = r
	return r
}

func (s *substituter) term(t *Term) *Term {
	if r, ok := s.m[t]; ok {
		return r
	}
	if r, ok := s.memo[t]; ok {
		return r
	}
	s.memo[t] = t // cycles cannot occur, but be safe
	r := s.rebuild(t)
	if s.f != nil {
		if x := s.f(r); x != nil {
			r = x
		}
	}
	s.memo[t] = r
	return r
}

func (s *substituter) rebuild(t *Term) *Term {
	u := s.u
	switch t.op {
	case OBool:
		return u.Bool(s.nodeS(t.node))
	case OGate:
		var alts []alt
		for i, a := range t.args {
			alts = append(alts, alt{s.nodeS(t.conds[i]), s.term(a)})
		}
		return u.Gate(alts, True, t.typ)
	}
	changed := false
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		args[i] = s.term(a)
		changed = changed || args[i] != a
	}
	n := t.node
	if t.op == OExists || t.op == OFilter {
		n = s.nodeS(t.node)
		changed = changed || n != t.node
	}
	if !changed {
		return t
	}
	return u.rebuild(t, args, n)
}

// rebuild re-simplifies t with new arguments, distributing over gates.
func (u *U) rebuild(t *Term, args []*Term, n Node) *Term {
	switch t.op {
	case OField:
		return u.Field(args[0], t.aux, t.typ)
	case OEq:
		return u.Eq(args[0], args[1])
	case OLt:
		return u.Lt(args[0], args[1])
	case OLen:
		return u.Len(args[0])
	}
	for i, a := range args {
		if a.op == OGate && len(a.args) <= maxAlts && t.op != OAppend && t.op != OList && t.op != OElem && t.op != OKey {
			var out []alt
			for j, x := range a.args {
				b := append([]*Term(nil), args...)
				b[i] = x
				out = append(out, alt{a.conds[j], u.rebuild(t, b, n)})
			}
			return u.Gate(out, True, t.typ)
		}
	}
	return u.intern(Term{op: t.op, aux: t.aux, args: args, node: n, loop: t.loop, typ: t.typ, obj: t.obj})
}

func (u *U) Len(x *Term) *Term {
	x = original(x)
	return u.dist(x, types.Typ[types.Int], func(x *Term) *Term {
		switch x.op {
		case OList:
			return u.Int(len(x.args))
		case OConst:
			if x.aux == "nil" {
				return u.Int(0)
			}
			if s, err := strconv.Unquote(x.aux); err == nil {
				return u.Int(len(s))
			}
		}
		return u.mk(OLen, "", types.Typ[types.Int], x)
	})
}

// walk visits t and all its subterms, including those in conditions.
func (u *U) walk(t *Term, f func(*Term) bool) {
	seen := map[*Term]bool{}
	nseen := map[Node]bool{}
	var rec func(*Term)
	var nrec func(Node)
	nrec = func(n Node) {
		if n <= True || nseen[n] {
			return
		}
		nseen[n] = true
		x := u.bdd.nodes[n]
		rec(u.atoms[x.v])
		nrec(x.lo)
		nrec(x.hi)
	}
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if !f(t) {
			return
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, c := range t.conds {
			nrec(c)
		}
		if t.op == OBool || t.op == OExists || t.op == OFilter {
			nrec(t.node)
		}
	}
	rec(t)
}

func (u *U) contains(t *Term, pred func(*Term) bool) bool {
	found := false
	u.walk(t, func(x *Term) bool {
		if pred(x) {
			found = true
		}
		return !found
	})
	return found
}

// ---- printing ----

func (u *U) String(t *Term) string { return u.str(t, 6) }

func (u *U) str(t *Term, d int) string {
	if t == nil {
		return "<none>"
	}
	if d <= 0 {
		return fmt.Sprintf("…")
	}
	args := func(as []*Term) string {
		var s []string
		for _, a := range as {
			s = append(s, u.str(a, d-1))
		}
		return strings.Join(s, ", ")
	}
	a0 := func() string { return u.str(t.args[0], d-1) }
	switch t.op {
	case OConst:
		if len(t.aux) > 60 {
			return t.aux[:60] + "…"
		}
		return t.aux
	case OParam:
		return "$" + t.aux
	case OGlobal:
		return "&" + t.aux
	case OFunc:
		return "func:" + t.aux
	case OClosure:
		return "closure:" + t.aux
	case OObj:
		return "obj:" + t.aux
	case OField:
		return a0() + "." + t.aux
	case OFAddr:
		return "&" + a0() + "." + t.aux
	case OIndex:
		return a0() + "[" + u.str(t.args[1], d-1) + "]"
	case OIAddr:
		return "&" + a0() + "[" + u.str(t.args[1], d-1) + "]"
	case ODeref:
		return "*" + a0()
	case OLookup:
		return a0() + "[" + u.str(t.args[1], d-1) + "]"
	case OIn:
		return "(" + u.str(t.args[1], d-1) + " in " + a0() + ")"
	case OCall, OInvoke:
		return t.aux + "(" + args(t.args) + ")"
	case OEq:
		return a0() + "==" + u.str(t.args[1], d-1)
	case OLt:
		return a0() + "<" + u.str(t.args[1], d-1)
	case OLen:
		return "len(" + a0() + ")"
	case OElem:
		return fmt.Sprintf("elem%d(%s)", t.loop.id, a0())
	case OKey:
		return fmt.Sprintf("key%d(%s)", t.loop.id, a0())
	case OIdx:
		return fmt.Sprintf("idx%d", t.loop.id)
	case OLV:
		return fmt.Sprintf("lv%d:%s", t.loop.id, t.aux)
	case OBool:
		return u.nstr(t.node, d-1)
	case OGate:
		var s []string
		for i, a := range t.args {
			s = append(s, u.nstr(t.conds[i], d-2)+" → "+u.str(a, d-1))
		}
		return "⟨" + strings.Join(s, " ; ") + "⟩"
	case OStruct:
		var s []string
		for i, n := range strings.Split(t.aux, ",") {
			if i < len(t.args) {
				s = append(s, n+":"+u.str(t.args[i], d-1))
			}
		}
		return "{" + strings.Join(s, ", ") + "}"
	case OList:
		return "[" + args(t.args) + "]"
	case OAppend:
		return "append(" + args(t.args) + ")"
	case OTypeIs:
		return a0() + " is " + t.aux
	case OExists:
		return fmt.Sprintf("exit%d%s(%s)", t.loop.id, t.aux, u.nstr(t.node, d-1))
	case OFilter:
		return fmt.Sprintf("filter(%s | %s)", a0(), u.nstr(t.node, d-1))
	case ONamed:
		return t.aux
	case OBin:
		return "(" + a0() + t.aux + u.str(t.args[1], d-1) + ")"
	case OExtract:
		return a0() + "#" + t.aux
	}
	return string(t.op) + ":" + t.aux + "(" + args(t.args) + ")"
}

// NStr renders a condition as a sum of products.
func (u *U) NStr(n Node) string { return u.nstr(n, 6) }

func (u *U) nstr(n Node, d int) string {
	if n == True {
		return "true"
	}
	if n == False {
		return "false"
	}
	if d <= 0 {
		return "…"
	}
	var parts []string
	cs := u.bdd.Cubes(n, 6)
	for _, c := range cs {
		var vs []int
		for v := range c {
			vs = append(vs, v)
		}
		sortInts(vs)
		var s []string
		for _, v := range vs {
			x := u.str(u.atoms[v], d-1)
			if !c[v] {
				x = "!" + x
			}
			s = append(s, x)
		}
		parts = append(parts, strings.Join(s, " & "))
	}
	r := strings.Join(parts, " | ")
	if len(cs) == 6 {
		r += " | …"
	}
	return r
}
