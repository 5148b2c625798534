package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// State is the abstract state at a program point: the condition under which it
// is reached (relative to the analysis root) and the abstract memory.
type State struct {
	pc  Node
	mem *Mem
}

// Loop is one loop (or callback invocation, or recursive function) in one
// calling context.
type Loop struct {
	id        int
	kind      string // "index", "map", "string", "while", "rec", "iter" or the name of a library function
	container *Term
	reversed  bool
	frame     *Frame
	header    *ssa.BasicBlock
	pos       token.Pos
	pc        Node
	cont      Node
	init      map[*Term]*Term
	back      map[*Term]*Term
	exits     []LoopExit
	parents   []*Loop
	seq       int   // effects before the loop
	ret       *Term // callbacks: value returned by the callback
	recArgs   [][]*Term
	recPC     []Node
	recParams []*Term
}

type LoopExit struct {
	cond Node // within one iteration
	atom *Term
	from *ssa.BasicBlock
	pos  token.Pos
	ret  bool // leads straight to a return
	dies bool // leads straight to a panic
	st   State
}

type ObjInfo struct {
	loops []*Loop
	kind  string // "alloc", "map", "slice"
	frame *Frame
	instr ssa.Instruction
	typ   types.Type
}

// Effect is an observable action with the condition under which it happens.
type Effect struct {
	kind  string
	name  string
	args  []*Term
	res   *Term
	pc    Node
	loops []*Loop
	frame *Frame
	instr ssa.Instruction
	mem   *Mem
	seq   int
	init  bool
}

type Frame struct {
	id      int
	fn      *ssa.Function
	parent  *Frame
	site    ssa.Instruction
	env     map[ssa.Value]*Term
	defers  []deferred
	rets    []Ret
	recRets []Ret // recursive functions: the values one activation returns
	rec     *Loop
	recSeen bool
	recPass bool
	depth   int
}

type Ret struct {
	st    State
	vals  []*Term
	instr ssa.Instruction
}

type deferred struct {
	st    State
	call  *ssa.CallCommon
	instr ssa.Instruction
	fnv   *Term
	args  []*Term
}

type Eval struct {
	cur Node // where the instruction at hand is reached
	*U
	prog     *Program
	effects  []*Effect
	loopsMap map[string]*Loop
	allLoops []*Loop
	frames   map[string]*Frame
	nframes  int
	stack    []*Frame
	loopSt   []*Loop
	liCache  map[*ssa.Function]*loopInfo
	problems []string
	fnSeen   map[*ssa.Function]int
	dyn      map[*Term]types.Type // concrete types of values put into interfaces
	appendE  map[*Term]*Effect
	derefs   map[derefKey]*Deref
	instrNum map[ssa.Instruction]int
	initMem  *Mem
	inInit   bool

	initEffects []*Effect
	steps       int
	anyIdx      int
	opaque      map[string]bool               // functions whose calls are kept as calls
	before      func(st *State, args []*Term) // fixes part of the initial state
}

func NewEval(p *Program) *Eval {
	return &Eval{U: NewU(), prog: p, loopsMap: map[string]*Loop{}, frames: map[string]*Frame{},
		liCache: map[*ssa.Function]*loopInfo{}, fnSeen: map[*ssa.Function]int{}, dyn: map[*Term]types.Type{},
		appendE: map[*Term]*Effect{}, derefs: map[derefKey]*Deref{}, instrNum: map[ssa.Instruction]int{}}
}

func (e *Eval) problem(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	for _, p := range e.problems {
		if p == s {
			return
		}
	}
	e.problems = append(e.problems, s)
}

func (e *Eval) inum(in ssa.Instruction) int {
	if n, ok := e.instrNum[in]; ok {
		return n
	}
	fn := in.Parent()
	n := 0
	for _, b := range fn.Blocks {
		for _, x := range b.Instrs {
			e.instrNum[x] = n
			n++
		}
	}
	return e.instrNum[in]
}

func (e *Eval) site(f *Frame, in ssa.Instruction) string {
	return fmt.Sprintf("%d.%s.%d", f.id, f.fn.Name(), e.inum(in))
}

func (e *Eval) frameFor(parent *Frame, fn *ssa.Function, site ssa.Instruction, tag string) *Frame {
	pid := -1
	d := 0
	if parent != nil {
		pid = parent.id
		d = parent.depth + 1
	}
	n := -1
	if site != nil {
		n = e.inum(site)
	}
	k := fmt.Sprintf("%d/%d/%s/%p", pid, n, tag, fn)
	f := e.frames[k]
	if f == nil {
		f = &Frame{id: e.nframes, fn: fn, parent: parent, site: site, depth: d}
		e.nframes++
		e.frames[k] = f
	}
	f.env = map[ssa.Value]*Term{}
	f.defers = nil
	f.rets = nil
	return f
}

func (e *Eval) loopFor(key string, f *Frame) *Loop {
	l := e.loopsMap[key]
	if l == nil {
		l = &Loop{id: len(e.allLoops), frame: f}
		e.allLoops = append(e.allLoops, l)
		e.loopsMap[key] = l
	}
	l.init = map[*Term]*Term{}
	l.back = map[*Term]*Term{}
	l.exits = nil
	l.cont = True
	l.seq = len(e.effects)
	l.parents = append([]*Loop(nil), e.loopSt...)
	return l
}

func (e *Eval) effect(ef *Effect, f *Frame, in ssa.Instruction, st State) *Effect {
	ef.pc = st.pc
	ef.mem = st.mem
	ef.frame = f
	ef.instr = in
	ef.loops = append([]*Loop(nil), e.loopSt...)
	ef.seq = len(e.effects)
	e.effects = append(e.effects, ef)
	if ef.kind == "append" && ef.res != nil {
		e.appendE[ef.res] = ef
	}
	return ef
}

// Deref is a place that fails if a value is nil.
type Deref struct {
	base  *Term
	what  string // what is made of the value
	pc    Node
	frame *Frame
	instr ssa.Instruction
	loops []*Loop
	seq   int
	index *Term // the element asked for
	ok    Node  // the test that showed the value to have its type
}

type derefKey struct {
	frame *Frame
	instr ssa.Instruction
}

// deref notes that base must not be nil here.
func (e *Eval) deref(base *Term, what string, f *Frame, in ssa.Instruction, st State) {
	e.derefs[derefKey{f, in}] = &Deref{base, what, st.pc, f, in, append([]*Loop(nil), e.loopSt...), len(e.effects), nil, True}
}

// asserted is the outcome of the type assertion that v comes from.
func (e *Eval) asserted(f *Frame, v ssa.Value) Node {
	x, ok := v.(*ssa.Extract)
	if !ok || x.Index != 0 {
		return True
	}
	if a, ok := x.Tuple.(*ssa.TypeAssert); !ok || !a.CommaOk {
		return True
	}
	if t := e.val(f, x.Tuple); t.op == OTuple && len(t.args) == 2 {
		return e.Cond(t.args[1])
	}
	return True
}

// element notes that x must have an element i here.
func (e *Eval) element(x, i *Term, f *Frame, in ssa.Instruction, st State) {
	e.deref(x, "", f, in, st)
	e.derefs[derefKey{f, in}].index = i
}

// ---- memory ----

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func structFields(t types.Type) []*types.Var {
	if t == nil {
		return nil
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []*types.Var
	for i := 0; i < s.NumFields(); i++ {
		out = append(out, s.Field(i))
	}
	return out
}

func (e *Eval) FAddr(base *Term, f string, ftyp types.Type) *Term {
	return e.dist(base, types.NewPointer(ftyp), func(b *Term) *Term {
		return e.mk(OFAddr, f, types.NewPointer(ftyp), b)
	})
}

func isFresh(t *Term) bool {
	for t.op == OFAddr || t.op == OIAddr {
		t = t.args[0]
	}
	if t.op != OObj {
		return false
	}
	oi, _ := t.obj.(*ObjInfo)
	return oi != nil && oi.kind == "alloc"
}

func (e *Eval) hasSub(m *Mem, addr *Term, typ types.Type) bool {
	for _, f := range structFields(typ) {
		a := e.FAddr(addr, f.Name(), f.Type())
		if m.get(a) != nil || e.hasSub(m, a, f.Type()) {
			return true
		}
	}
	return false
}

func (e *Eval) load(m *Mem, addr *Term, typ types.Type) *Term {
	return e.dist(addr, typ, func(a *Term) *Term { return e.load1(m, a, typ) })
}

func (e *Eval) load1(m *Mem, a *Term, typ types.Type) *Term {
	if v := m.get(a); v != nil && !e.hasSub(m, a, typ) {
		return v
	}
	if e.hasSub(m, a, typ) || (isFresh(a) && structFields(typ) != nil && m.get(a) == nil && e.baseVal(m, a) == nil) {
		var names []string
		var vals []*Term
		for _, f := range structFields(typ) {
			names = append(names, f.Name())
			vals = append(vals, e.load1(m, e.FAddr(a, f.Name(), f.Type()), f.Type()))
		}
		return e.mkStruct(names, vals, typ)
	}
	if arr, ok := typeUnder(typ).(*types.Array); ok && a.op == OObj && m.get(a) == nil && arr.Len() <= 64 {
		var els []*Term
		set := false
		for i := int64(0); i < arr.Len(); i++ {
			ia := e.mk(OIAddr, "", types.NewPointer(arr.Elem()), a, e.Int(int(i)))
			set = set || m.get(ia) != nil || e.hasSub(m, ia, arr.Elem())
			els = append(els, e.load1(m, ia, arr.Elem()))
		}
		if set {
			return e.mk(OList, "", typ, els...)
		}
	}
	switch a.op {
	case OFAddr:
		if b := e.baseVal(m, a.args[0]); b != nil {
			return e.Field(b, a.aux, typ)
		}
		if isFresh(a) {
			return e.zero(typ)
		}
		b := a.args[0]
		if b.op == OFAddr || b.op == OIAddr || b.op == OGlobal {
			return e.Field(e.load1(m, b, elemType(b.typ)), a.aux, typ)
		}
		return e.Field(b, a.aux, typ)
	case OIAddr:
		if isFresh(a) {
			return e.zero(typ)
		}
		return e.Index(a.args[0], a.args[1], typ)
	case OObj:
		if oi, _ := a.obj.(*ObjInfo); oi != nil && oi.kind == "alloc" {
			return e.zero(typ)
		}
	case OGlobal:
		return e.mk(ODeref, "", typ, a)
	}
	if a.typ != nil {
		if _, ok := a.typ.Underlying().(*types.Pointer); !ok {
			return a // optional proto field: the value stands for its address
		}
	}
	if a.op == OField && typ != nil {
		if _, ok := typ.Underlying().(*types.Basic); ok {
			return a
		}
	}
	return e.mk(ODeref, "", typ, a)
}

// baseVal is the opaque value a whole struct location was last given, if any.
func (e *Eval) baseVal(m *Mem, a *Term) *Term {
	if v := m.get(a); v != nil {
		return v
	}
	if a.op == OFAddr {
		if b := e.baseVal(m, a.args[0]); b != nil {
			return e.Field(b, a.aux, elemType(a.typ))
		}
	}
	return nil
}

func (e *Eval) mkStruct(names []string, vals []*Term, typ types.Type) *Term {
	// {x.a, x.b, ...} for all fields of x is x itself
	if len(vals) > 0 && vals[0].op == OField && vals[0].aux == names[0] {
		b := vals[0].args[0]
		all := true
		for i, v := range vals {
			if v.op != OField || v.aux != names[i] || v.args[0] != b {
				all = false
				break
			}
		}
		if all && b.typ != nil && typ != nil && types.Identical(b.typ, typ) {
			return b
		}
	}
	return e.mk(OStruct, structNames(names, typ), typ, vals...)
}

func (e *Eval) killSub(m *Mem, addr *Term, typ types.Type) *Mem {
	for _, f := range structFields(typ) {
		a := e.FAddr(addr, f.Name(), f.Type())
		if m.get(a) != nil {
			m = m.set(a, nil)
		}
		m = e.killSub(m, a, f.Type())
	}
	return m
}

func (e *Eval) store(m *Mem, addr, v *Term, typ types.Type) *Mem {
	if addr.op == OGate {
		for i, a := range addr.args {
			old := e.load1(m, a, typ)
			c := addr.conds[i]
			m = e.store(m, a, e.Gate([]alt{{c, v}, {e.bdd.Not(c), old}}, True, typ), typ)
		}
		return m
	}
	m = e.killSub(m, addr, typ)
	if v.op == OStruct && structFields(typ) != nil {
		m = m.set(addr, nil)
		for i, f := range structFields(typ) {
			if i < len(v.args) {
				m = e.store(m, e.FAddr(addr, f.Name(), f.Type()), v.args[i], f.Type())
			}
		}
		return m
	}
	if addr.op == OObj && typ != nil {
		if arr, ok := typ.Underlying().(*types.Array); ok {
			for i := int64(0); i < arr.Len() && i < 64; i++ {
				ia := e.mk(OIAddr, "", types.NewPointer(arr.Elem()), addr, e.Int(int(i)))
				if v.op == OList && int(i) < len(v.args) {
					m = e.store(m, ia, v.args[i], arr.Elem())
				} else if m.get(ia) != nil {
					m = m.set(ia, nil)
				}
			}
			if v.op == OList {
				return m
			}
		}
	}
	return m.set(addr, v)
}

// locDefault is the value of a location in a memory that has no entry for it.
func (e *Eval) locDefault(m *Mem, loc *Term) *Term {
	if isEmptiness(loc) {
		return e.Bool(True) // not made on this path
	}
	if loc.op == OEntry {
		return e.mk(OLookup, "", loc.typ, loc.args[0], loc.args[1])
	}
	return e.load1(m, loc, elemTypeOr(loc.typ))
}

func elemTypeOr(t types.Type) types.Type {
	if x := elemType(t); x != nil {
		return x
	}
	return t
}

func (e *Eval) merge(sts []State) State {
	if len(sts) == 1 {
		return sts[0]
	}
	total := False
	for _, s := range sts {
		total = e.bdd.Or(total, s.pc)
	}
	locs := map[*Term]bool{}
	var order []*Term
	for _, s := range sts[1:] {
		diff(sts[0].mem, s.mem, func(l, _, _ *Term) {
			if !locs[l] {
				locs[l] = true
				order = append(order, l)
			}
		})
	}
	out := State{total, sts[0].mem}
	for _, l := range order {
		var alts []alt
		missing := 0
		for _, s := range sts {
			v := s.mem.get(l)
			if v == nil {
				missing++
				v = e.locDefault(s.mem, l)
			}
			alts = append(alts, alt{s.pc, v})
		}
		typ := elemTypeOr(l.typ)
		v := e.Gate(alts, total, typ)
		if missing > 0 && !isEmptiness(l) && v == e.locDefault(sts[0].mem, l) && sts[0].mem.get(l) == nil {
			continue
		}
		out.mem = out.mem.set(l, v)
	}
	return out
}

// ---- expressions ----

func (e *Eval) Index(x, i *Term, typ types.Type) *Term {
	x = original(x)
	if i.op == OIdx && (i.loop.kind == "index" || i.loop.kind == "string") && i.loop.container == x {
		return e.intern(Term{op: OElem, args: []*Term{x}, loop: i.loop, typ: typ})
	}
	return e.dist2(x, i, typ, func(x, i *Term) *Term {
		x = original(x)
		if i.op == OIdx && (i.loop.kind == "index" || i.loop.kind == "string") && i.loop.container == x {
			return e.intern(Term{op: OElem, args: []*Term{x}, loop: i.loop, typ: typ})
		}
		if x.op == OList && i.op == OConst {
			if n, err := strconv.Atoi(i.aux); err == nil && n < len(x.args) && n >= 0 {
				return x.args[n]
			}
		}
		return e.mk(OIndex, "", typ, x, i)
	})
}

func (e *Eval) val(f *Frame, v ssa.Value) *Term {
	if t, ok := f.env[v]; ok {
		return e.under(t, e.cur)
	}
	switch v := v.(type) {
	case *ssa.Const:
		return e.constVal(v.Value, v.Type())
	case *ssa.Global:
		return e.globalAddr(v)
	case *ssa.Function:
		return e.funcTerm(v)
	case *ssa.Builtin:
		return e.mk(OFunc, "builtin "+v.Name(), v.Type())
	}
	e.problem("no value for %s in %s", v.Name(), f.fn)
	return e.mk(OZero, "unknown:"+v.Name(), v.Type())
}

// under drops the choice between values where pc leaves only one of them.
func (e *Eval) under(t *Term, pc Node) *Term {
	if t.op != OGate || pc == True {
		return t
	}
	var one *Term
	for i, x := range t.args {
		if e.bdd.And(t.conds[i], pc) == False {
			continue
		}
		if one != nil {
			return t
		}
		one = x
	}
	if one == nil {
		return t
	}
	return one
}

// indexed is the value an index goes into: the container of the loop the index
// belongs to rather than a part of it.
func (e *Eval) indexed(f *Frame, v ssa.Value, i *Term) *Term {
	x := e.val(f, v)
	if t, ok := f.env[v]; ok && i.op == OIdx && i.loop.container != nil && t != x {
		if i.loop.container == original(t) || i.loop.container == original(e.under(t, i.loop.pc)) {
			return i.loop.container
		}
	}
	return x
}

func (e *Eval) globalAddr(g *ssa.Global) *Term {
	t := e.mk(OGlobal, g.RelString(nil), g.Type())
	t.obj = g
	return t
}

func (e *Eval) funcTerm(fn *ssa.Function) *Term {
	t := e.intern(Term{op: OFunc, aux: fnName(fn), typ: fn.Type(), obj: fn})
	return t
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Object() != nil {
		if f, ok := fn.Object().(*types.Func); ok {
			return f.FullName()
		}
	}
	return fn.String()
}

func (e *Eval) bin(op token.Token, a, b *Term, typ types.Type) *Term {
	switch op {
	case token.EQL:
		return e.Eq(a, b)
	case token.NEQ:
		return e.Bool(e.bdd.Not(e.Cond(e.Eq(a, b))))
	case token.LSS:
		return e.Lt(a, b)
	case token.GTR:
		return e.Lt(b, a)
	case token.LEQ:
		return e.Bool(e.bdd.Not(e.Cond(e.Lt(b, a))))
	case token.GEQ:
		return e.Bool(e.bdd.Not(e.Cond(e.Lt(a, b))))
	}
	return e.dist2(a, b, typ, func(a, b *Term) *Term {
		if a.op == OConst && b.op == OConst && isIntType(typ) {
			x, e1 := strconv.ParseInt(a.aux, 10, 64)
			y, e2 := strconv.ParseInt(b.aux, 10, 64)
			if e1 == nil && e2 == nil {
				switch op {
				case token.ADD:
					return e.mk(OConst, strconv.FormatInt(x+y, 10), typ)
				case token.SUB:
					return e.mk(OConst, strconv.FormatInt(x-y, 10), typ)
				case token.MUL:
					return e.mk(OConst, strconv.FormatInt(x*y, 10), typ)
				case token.OR:
					return e.mk(OConst, strconv.FormatInt(x|y, 10), typ)
				case token.AND:
					return e.mk(OConst, strconv.FormatInt(x&y, 10), typ)
				}
			}
		}
		if op == token.ADD && isStringType(typ) {
			if a.op == OConst && b.op == OConst {
				x, e1 := strconv.Unquote(a.aux)
				y, e2 := strconv.Unquote(b.aux)
				if e1 == nil && e2 == nil {
					return e.Str(x + y)
				}
			}
			if a.op == OConst && a.aux == `""` {
				return b
			}
			if b.op == OConst && b.aux == `""` {
				return a
			}
			return e.mk(OBin, "+", typ, a, b)
		}
		switch op {
		case token.ADD, token.MUL, token.OR, token.AND, token.XOR:
			if a.op == OConst || (b.op != OConst && a.id > b.id) {
				a, b = b, a
			}
		}
		if op == token.ADD && b.op == OConst && b.aux == "0" {
			return a
		}
		if op == token.ADD && b.op == OConst && a.op == OBin && a.aux == "-" && a.args[1] == b {
			return a.args[0]
		}
		if op == token.SUB && b.op == OConst && a.op == OBin && a.aux == "+" && a.args[1] == b {
			return a.args[0]
		}
		return e.mk(OBin, op.String(), typ, a, b)
	})
}

// ---- loops ----

type loopNode struct {
	header   *ssa.BasicBlock
	body     map[*ssa.BasicBlock]bool
	parent   *loopNode
	children []*loopNode
}

type loopInfo struct {
	byHeader map[*ssa.BasicBlock]*loopNode
	rpo      []*ssa.BasicBlock
	num      map[*ssa.BasicBlock]int
	bad      bool
}

func (e *Eval) loops(fn *ssa.Function) *loopInfo {
	if li := e.liCache[fn]; li != nil {
		return li
	}
	li := &loopInfo{byHeader: map[*ssa.BasicBlock]*loopNode{}, num: map[*ssa.BasicBlock]int{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.num[post[i]] = len(li.rpo)
		li.rpo = append(li.rpo, post[i])
	}
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if li.num[s] <= li.num[b] {
				if !s.Dominates(b) {
					li.bad = true
					continue
				}
				ln := li.byHeader[s]
				if ln == nil {
					ln = &loopNode{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					li.byHeader[s] = ln
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if ln.body[x] {
						continue
					}
					ln.body[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	for _, a := range li.byHeader {
		for _, b := range li.byHeader {
			if a != b && b.body[a.header] && (a.parent == nil || len(b.body) < len(a.parent.body)) {
				a.parent = b
			}
		}
	}
	e.liCache[fn] = li
	return li
}

type edgeState struct {
	from *ssa.BasicBlock
	to   *ssa.BasicBlock
	idx  int // index among to.Preds
	st   State
}

func predIndex(from, to *ssa.BasicBlock, nth int) int {
	for i, p := range to.Preds {
		if p == from {
			if nth == 0 {
				return i
			}
			nth--
		}
	}
	return -1
}

// region evaluates the blocks of a loop body (or of a whole function when
// cur is nil), visiting each block once.  It returns the states on back edges
// and on edges leaving the region.
func (e *Eval) region(f *Frame, li *loopInfo, cur *loopNode, entry []edgeState, first State) (back, exits []edgeState) {
	in := map[*ssa.BasicBlock][]edgeState{}
	var start *ssa.BasicBlock
	if cur == nil {
		start = f.fn.Blocks[0]
	} else {
		start = cur.header
	}
	push := func(es edgeState) {
		if es.st.pc == False {
			return
		}
		if cur != nil && es.to == cur.header {
			back = append(back, es)
			return
		}
		if cur != nil && !cur.body[es.to] {
			exits = append(exits, es)
			return
		}
		in[es.to] = append(in[es.to], es)
	}
	for _, b := range li.rpo {
		if cur != nil && !cur.body[b] {
			continue
		}
		if b == start {
			e.block(f, b, first, push)
			continue
		}
		// skip blocks that belong to an inner loop, except its header
		ln := li.byHeader[b]
		inner := false
		for h, x := range li.byHeader {
			if h != b && x != cur && x.body[b] && (cur == nil || cur.body[h]) && h != start {
				if cur != nil && x.body[cur.header] {
					continue
				}
				inner = true
				break
			}
		}
		if inner {
			continue
		}
		es := in[b]
		if len(es) == 0 {
			continue
		}
		if ln != nil {
			for _, x := range e.loop(f, li, ln, es) {
				push(x)
			}
			continue
		}
		var sts []State
		for _, x := range es {
			sts = append(sts, x.st)
		}
		st := e.merge(sts)
		e.phis(f, b, es, st.pc)
		e.block(f, b, st, push)
	}
	return
}

func (e *Eval) phis(f *Frame, b *ssa.BasicBlock, es []edgeState, total Node) {
	var vals []*Term
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var alts []alt
		for _, x := range es {
			alts = append(alts, alt{x.st.pc, e.val(f, p.Edges[x.idx])})
		}
		phis = append(phis, p)
		vals = append(vals, e.Gate(alts, total, p.Type()))
	}
	for i, p := range phis {
		f.env[p] = vals[i]
	}
}

// induction recognises header phis that count elements.
type induction struct {
	phi      *ssa.Phi
	test     *ssa.BinOp
	inc      ssa.Value
	pre      bool // phi starts at -1 and phi+1 is tested (range loops)
	n        ssa.Value
	reversed bool
}

func isConstInt(v ssa.Value, n int64) bool {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return false
	}
	return isIntType(c.Type()) && c.Int64() == n
}

func findInduction(ln *loopNode) *induction {
	ind := findInduction1(ln)
	if ind != nil {
		if p, ok := ind.n.(*ssa.Phi); ok && ln.body[p.Block()] {
			return nil // the bound moves
		}
	}
	return ind
}

func findInduction1(ln *loopNode) *induction {
	h := ln.header
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !isIntType(p.Type()) {
			continue
		}
		var init []ssa.Value
		var inc ssa.Value
		good := true
		for i, pred := range h.Preds {
			if ln.body[pred] {
				if inc != nil && inc != p.Edges[i] {
					good = false
				}
				inc = p.Edges[i]
			} else {
				init = append(init, p.Edges[i])
			}
		}
		if !good || inc == nil || len(init) == 0 {
			continue
		}
		bo, ok := inc.(*ssa.BinOp)
		if !ok || bo.X != ssa.Value(p) || !isConstInt(bo.Y, 1) {
			continue
		}
		inLoopTrue := ln.body[h.Succs[0]]
		allInit := func(n int64) bool {
			for _, v := range init {
				if !isConstInt(v, n) {
					return false
				}
			}
			return true
		}
		if bo.Op == token.ADD && inLoopTrue {
			if allInit(-1) && cmp.Op == token.LSS && cmp.X == ssa.Value(bo) {
				return &induction{phi: p, test: cmp, inc: bo, pre: true, n: cmp.Y}
			}
			if allInit(0) && (cmp.Op == token.LSS || cmp.Op == token.NEQ) && cmp.X == ssa.Value(p) {
				return &induction{phi: p, test: cmp, inc: bo, n: cmp.Y}
			}
			if allInit(0) && cmp.Op == token.GTR && cmp.Y == ssa.Value(p) {
				return &induction{phi: p, test: cmp, inc: bo, n: cmp.X}
			}
		}
		if bo.Op == token.SUB && inLoopTrue && cmp.X == ssa.Value(p) &&
			((cmp.Op == token.GEQ && isConstInt(cmp.Y, 0)) || (cmp.Op == token.GTR && isConstInt(cmp.Y, -1))) && len(init) == 1 {
			if s, ok := init[0].(*ssa.BinOp); ok && s.Op == token.SUB && isConstInt(s.Y, 1) {
				return &induction{phi: p, test: cmp, inc: bo, n: s.X, reversed: true}
			}
		}
	}
	return nil
}

func (e *Eval) loop(f *Frame, li *loopInfo, ln *loopNode, es []edgeState) []edgeState {
	var sts []State
	for _, x := range es {
		sts = append(sts, x.st)
	}
	st0 := e.merge(sts)
	h := ln.header
	key := fmt.Sprintf("%d:%s:%d", f.id, f.fn, h.Index)
	inits := map[*ssa.Phi]*Term{}
	e.phis(f, h, es, st0.pc)
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		inits[p] = f.env[p]
	}
	ind := findInduction(ln)
	var next *ssa.Next
	for _, in := range h.Instrs {
		if x, ok := in.(*ssa.Next); ok {
			next = x
		}
	}
	mods := map[*Term]bool{}
	var modOrder []*Term
	effStart := len(e.effects)
	var L *Loop
	var exitEdges []edgeState
	for pass := 0; ; pass++ {
		if pass > 12 {
			e.problem("loop at %s in %s: memory does not stabilise", e.prog.pos(firstPos(h)), f.fn)
			break
		}
		e.effects = e.effects[:effStart]
		L = e.loopFor(key, f)
		L.header = h
		L.pc = st0.pc
		L.pos = loopPos(ln)
		st := st0
		for _, l := range modOrder {
			if l.op == OEntry {
				st.mem = e.forget(st.mem, l)
				continue
			}
			old := st.mem.get(l)
			if old == nil {
				old = e.locDefault(st.mem, l)
			}
			lv := e.intern(Term{op: OLV, aux: "m" + strconv.Itoa(l.id), loop: L, typ: elemTypeOr(l.typ), obj: l})
			L.init[lv] = old
			st.mem = e.store(st.mem, l, lv, elemTypeOr(l.typ))
		}
		hdrMem := st.mem
		for p, t := range inits {
			if ind != nil && ind.phi == p {
				continue
			}
			lv := e.intern(Term{op: OLV, aux: p.Name() + "." + p.Comment, loop: L, typ: p.Type()})
			L.init[lv] = t
			f.env[p] = lv
		}
		switch {
		case ind != nil:
			L.kind = "index"
			L.reversed = ind.reversed
			idx := e.intern(Term{op: OIdx, loop: L, typ: types.Typ[types.Int]})
			if ind.pre {
				f.env[ind.phi] = e.mk(OBin, "-", types.Typ[types.Int], idx, e.Int(1))
				f.env[ind.inc] = idx
			} else {
				f.env[ind.phi] = idx
			}
		case next != nil:
			L.kind = "map"
			if next.IsString {
				L.kind = "string"
			}
		default:
			L.kind = "while"
		}
		e.loopSt = append(e.loopSt, L)
		if ind != nil {
			// find the container: n = len(x)
			L.container = nil
			if c, ok := ind.n.(*ssa.Call); ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					if !blockIn(ln, c.Block()) || f.env[c.Call.Args[0]] != nil {
						L.container = original(e.under(e.val(f, c.Call.Args[0]), L.pc))
						// a length computed in the header from memory is re-read below
					}
				}
			}
			if L.container == nil && f.env[ind.n] != nil {
				L.container = e.mk(OConv, "int-range", nil, f.env[ind.n])
			} else if L.container == nil {
				if c, ok := ind.n.(*ssa.Const); ok {
					L.container = e.mk(OConv, "int-range", nil, e.constVal(c.Value, c.Type()))
				}
			}
		}
		if next != nil {
			L.container = e.val(f, next.Iter)
			if L.container.op == ORange {
				L.container = e.under(L.container.args[0], L.pc)
			}
		}
		var back, exits []edgeState
		back, exits = e.region(f, li, ln, nil, st)
		if ind != nil && L.container == nil {
			// length read from memory inside the header
			if c, ok := ind.n.(*ssa.Call); ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && f.env[c.Call.Args[0]] != nil {
					L.container = original(f.env[c.Call.Args[0]])
					e.effects = e.effects[:effStart]
					e.loopSt = e.loopSt[:len(e.loopSt)-1]
					e.loopSt = append(e.loopSt, L)
					L.exits = nil
					back, exits = e.region(f, li, ln, nil, st)
				}
			}
		}
		e.loopSt = e.loopSt[:len(e.loopSt)-1]
		// changed locations
		grew := false
		if len(back) > 0 {
			var bs []State
			for _, x := range back {
				bs = append(bs, x.st)
			}
			m := e.merge(bs)
			for _, l := range e.changed(hdrMem, m.mem, L) {
				if !mods[l] {
					mods[l] = true
					modOrder = append(modOrder, l)
					grew = true
				}
			}
			for p := range inits {
				if ind != nil && ind.phi == p {
					continue
				}
				var alts []alt
				for _, x := range back {
					alts = append(alts, alt{x.st.pc, e.val(f, p.Edges[x.idx])})
				}
				L.back[f.env[p]] = e.Gate(alts, m.pc, p.Type())
			}
			for _, l := range modOrder {
				if l.op == OEntry {
					continue
				}
				lv := e.intern(Term{op: OLV, aux: "m" + strconv.Itoa(l.id), loop: L, typ: elemTypeOr(l.typ), obj: l})
				if _, ok := L.init[lv]; ok {
					L.back[lv] = e.load1(m.mem, l, elemTypeOr(l.typ))
				}
			}
		}
		if grew {
			continue
		}
		// exits
		exitEdges = exitEdges[:0]
		noneBefore := True
		hdrExit := []edgeState{}
		// the one way out of a loop without a condition is like one
		only := L.kind == "while" && len(exits) == 1
		for _, x := range exits {
			if x.from == h || only {
				hdrExit = append(hdrExit, x)
				continue
			}
			c := e.bdd.Restrict(x.st.pc, st0.pc)
			at := e.intern(Term{op: OExists, aux: fmt.Sprintf("/%d", len(L.exits)), node: c, loop: L, typ: types.Typ[types.Bool]})
			n := e.Atom(at)
			L.exits = append(L.exits, LoopExit{cond: c, atom: at, from: x.from, pos: lastPos(x.from), st: x.st, dies: panics(x.to)})
			x.st.pc = e.bdd.And(st0.pc, noneBefore, n)
			noneBefore = e.bdd.And(noneBefore, e.bdd.Not(n))
			exitEdges = append(exitEdges, x)
		}
		if len(exitEdges) == 1 && len(e.effects) == effStart && len(modOrder) == 0 {
			if n, ok := e.unrolled(f, ln, L); ok {
				exitEdges[0].st.pc = e.bdd.And(st0.pc, n)
				noneBefore = e.bdd.Not(n)
			}
		}
		noneBefore = e.liftTerminal(L, st0.pc, noneBefore, effStart)
		for _, x := range hdrExit {
			if L.kind == "while" {
				L.cont = e.bdd.Not(e.bdd.Restrict(x.st.pc, st0.pc))
			}
			x.st.pc = e.bdd.And(st0.pc, noneBefore)
			exitEdges = append(exitEdges, x)
		}
		if len(hdrExit) > 1 {
			e.problem("loop at %s has two header exits", e.prog.pos(L.pos))
		}
		break
	}
	return exitEdges
}

// unrolled gives the condition under which a loop that only looks for an
// element of a literal list finds one, and makes the values that its body
// computed those for the first such element.
func (e *Eval) unrolled(f *Frame, ln *loopNode, L *Loop) (Node, bool) {
	if L.kind != "index" || L.reversed || L.container == nil || L.container.op != OList || len(L.container.args) > 8 || len(L.init) > 0 {
		return False, false
	}
	el := e.intern(Term{op: OElem, args: []*Term{L.container}, loop: L, typ: sliceElem(L.container.typ)})
	idx := e.intern(Term{op: OIdx, loop: L, typ: types.Typ[types.Int]})
	found := False
	var conds []Node
	var subst []map[*Term]*Term
	for i, x := range L.container.args {
		m := map[*Term]*Term{el: x, idx: e.Int(i)}
		c := e.bdd.And(e.bdd.Not(found), e.SubstNode(L.exits[0].cond, m))
		conds = append(conds, c)
		subst = append(subst, m)
		found = e.bdd.Or(found, c)
	}
	mentions := func(t *Term) bool { return t.loop == L }
	for b := range ln.body {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || f.env[v] == nil || !e.contains(f.env[v], mentions) {
				continue
			}
			var alts []alt
			for i, c := range conds {
				if c != False {
					alts = append(alts, alt{c, e.Subst(f.env[v], subst[i])})
				}
			}
			if len(alts) > 0 {
				f.env[v] = e.Gate(alts, found, v.Type())
			}
		}
	}
	L.exits = nil
	return found, true
}

// liftTerminal moves the ends of the program reached inside functions called
// from a loop's body out of the loop, as ends in the body itself are.
func (e *Eval) liftTerminal(L *Loop, pc0, noneBefore Node, effStart int) Node {
	for _, ef := range e.effects[effStart:] {
		if !(ef.kind == "panic" || ef.kind == "call" && terminates(ef.name)) || len(ef.loops) == 0 || ef.loops[len(ef.loops)-1] != L {
			continue
		}
		c := e.bdd.Restrict(ef.pc, pc0)
		at := e.intern(Term{op: OExists, aux: fmt.Sprintf("/%d", len(L.exits)), node: c, loop: L, typ: types.Typ[types.Bool]})
		n := e.Atom(at)
		L.exits = append(L.exits, LoopExit{cond: c, atom: at, pos: posOf(ef), st: State{ef.pc, ef.mem}, dies: ef.kind == "panic"})
		ef.loops = ef.loops[:len(ef.loops)-1]
		ef.pc = e.bdd.And(pc0, noneBefore, n)
		noneBefore = e.bdd.And(noneBefore, e.bdd.Not(n))
	}
	return noneBefore
}

// dies reports whether t tells that a loop was left by a panic.
func (t *Term) dies() bool {
	for _, x := range t.loop.exits {
		if x.atom == t {
			return x.dies
		}
	}
	return false
}

// panics reports whether a block ends in a panic.
func panics(b *ssa.BasicBlock) bool {
	if b == nil {
		return false
	}
	_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
	return ok
}

func blockIn(ln *loopNode, b *ssa.BasicBlock) bool { return ln.body[b] }

// changed lists locations whose value differs and that outlive one iteration.
func (e *Eval) changed(a, b *Mem, L *Loop) []*Term {
	var out []*Term
	diff(a, b, func(l, x, y *Term) {
		root := l
		for root.op == OFAddr || root.op == OIAddr || root.op == OEntry {
			root = root.args[0]
		}
		if oi, ok := root.obj.(*ObjInfo); ok && root.op == OObj {
			for _, k := range oi.loops {
				if k == L {
					return
				}
			}
		}
		// locations named by this iteration's element are not shared
		if e.contains(l, func(t *Term) bool {
			return (t.op == OElem || t.op == OKey || t.op == OIdx || t.op == OLV) && t.loop == L
		}) {
			return
		}
		if y == nil {
			y = e.locDefault(b, l)
		}
		if x == nil {
			x = e.locDefault(a, l)
		}
		if x == y {
			return
		}
		out = append(out, l)
	})
	return out
}

func firstPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return b.Parent().Pos()
}

func lastPos(b *ssa.BasicBlock) token.Pos {
	for i := len(b.Instrs) - 1; i >= 0; i-- {
		if p := b.Instrs[i].Pos(); p.IsValid() {
			return p
		}
	}
	return firstPos(b)
}

func loopPos(ln *loopNode) token.Pos {
	p := firstPos(ln.header)
	if p.IsValid() && p != ln.header.Parent().Pos() {
		return p
	}
	for b := range ln.body {
		if q := firstPos(b); q.IsValid() && (q < p || p == ln.header.Parent().Pos()) {
			p = q
		}
	}
	return p
}

// ---- blocks and instructions ----

func (e *Eval) block(f *Frame, b *ssa.BasicBlock, st State, push func(edgeState)) {
	e.steps++
	for _, in := range b.Instrs {
		if st.pc == False {
			return
		}
		switch in := in.(type) {
		case *ssa.Phi:
		case *ssa.If:
			c := e.Cond(e.val(f, in.Cond))
			t, fl := st, st
			t.pc = e.bdd.And(st.pc, c)
			fl.pc = e.bdd.And(st.pc, e.bdd.Not(c))
			li := e.loops(f.fn)
			if ln := li.byHeader[b]; ln != nil && len(e.loopSt) > 0 && e.loopSt[len(e.loopSt)-1].header == b {
				// counting and map loops: the loop test is not a condition of the body
				L := e.loopSt[len(e.loopSt)-1]
				in0, in1 := ln.body[b.Succs[0]], ln.body[b.Succs[1]]
				if in0 != in1 {
					if L.kind != "while" {
						t.pc, fl.pc = st.pc, st.pc
					} else if in0 {
						t.pc = st.pc
					} else {
						fl.pc = st.pc
					}
				}
			}
			push(edgeState{b, b.Succs[0], predIndex(b, b.Succs[0], 0), t})
			n := 0
			if b.Succs[0] == b.Succs[1] {
				n = 1
			}
			push(edgeState{b, b.Succs[1], predIndex(b, b.Succs[1], n), fl})
		case *ssa.Jump:
			push(edgeState{b, b.Succs[0], predIndex(b, b.Succs[0], 0), st})
		case *ssa.Return:
			r := Ret{st: st, instr: in}
			for _, v := range in.Results {
				r.vals = append(r.vals, e.val(f, v))
			}
			f.rets = append(f.rets, r)
		case *ssa.Panic:
			e.effect(&Effect{kind: "panic", args: []*Term{e.val(f, in.X)}}, f, in, st)
			return
		default:
			st = e.instr(f, in, st)
		}
	}
}

func fieldName(t types.Type, i int) (string, types.Type) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s := t.Underlying().(*types.Struct)
	return s.Field(i).Name(), s.Field(i).Type()
}

func (e *Eval) newObj(f *Frame, in ssa.Instruction, kind string, typ types.Type) *Term {
	s := e.site(f, in)
	t := e.mk(OObj, s, typ)
	t.obj = &ObjInfo{loops: append([]*Loop(nil), e.loopSt...), kind: kind, frame: f, instr: in, typ: typ}
	return t
}

func (e *Eval) typeIs(x *Term, T types.Type) Node {
	r := e.dist(x, types.Typ[types.Bool], func(x *Term) *Term {
		if e.isNil(x) {
			return e.Bool(False)
		}
		if (x.op == OStruct || x.op == OObj) && x.typ != nil {
			xt := x.typ
			if _, ok := xt.Underlying().(*types.Interface); !ok {
				if _, ok := T.Underlying().(*types.Interface); ok {
					return e.Bool(boolNode(types.AssertableTo(T.Underlying().(*types.Interface), xt)))
				}
				return e.Bool(boolNode(types.Identical(xt, T)))
			}
		}
		if d := e.dyn[x]; d != nil {
			if it, ok := T.Underlying().(*types.Interface); ok {
				return e.Bool(boolNode(types.Implements(d, it)))
			}
			return e.Bool(boolNode(types.Identical(d, T)))
		}
		if name := libraryResult(x); name != "" && strings.HasPrefix(types.TypeString(T, nil), modulePath) && !strings.HasPrefix(name, modulePath) {
			return e.Bool(False) // libraries do not make values of the program's own types
		}
		t := e.mk(OTypeIs, types.TypeString(T, nil), types.Typ[types.Bool], x)
		t.obj = T
		return e.Bool(e.Atom(t))
	})
	return e.Cond(r)
}

func boolNode(b bool) Node {
	if b {
		return True
	}
	return False
}

func (e *Eval) lookup(m *Mem, mp, k *Term, vt types.Type) (*Term, *Term) {
	var vs, oks []alt
	for _, a := range e.alts(mp) {
		for _, kk := range e.alts(k) {
			c := e.bdd.And(a.c, kk.c)
			if c == False {
				continue
			}
			v, ok := e.lookup1(m, a.t, kk.t, vt)
			vs = append(vs, alt{c, v})
			oks = append(oks, alt{c, ok})
		}
	}
	return e.Gate(vs, True, vt), e.Gate(oks, True, types.Typ[types.Bool])
}

func (e *Eval) lookup1(m *Mem, mp, k *Term, vt types.Type) (*Term, *Term) {
	if e.isNil(mp) {
		return e.zero(vt), e.Bool(False)
	}
	sym := e.mk(OLookup, "", vt, mp, k)
	in := func() *Term {
		if k.op == OKey && k.loop.container == mp {
			return e.Bool(True)
		}
		return e.Bool(e.Atom(e.mk(OIn, "", types.Typ[types.Bool], mp, k)))
	}
	ent := m.get(e.mk(OEntry, "", vt, mp, k))
	if ent == nil {
		if x := m.get(e.emptiness(mp)); x != nil && x.op == OBool && x.node == True {
			return e.zero(vt), e.Bool(False)
		}
		return sym, in()
	}
	var vs, oks []alt
	for _, a := range e.alts(ent) {
		switch {
		case a.t.op == OAbsent:
			vs = append(vs, alt{a.c, e.zero(vt)})
			oks = append(oks, alt{a.c, e.Bool(False)})
		case a.t == sym:
			vs = append(vs, a)
			oks = append(oks, alt{a.c, in()})
		case a.t.op == OBool:
			// presence and truth coincide unless false was stored
			vs = append(vs, a)
			oks = append(oks, alt{a.c, e.Bool(True)})
		default:
			vs = append(vs, a)
			oks = append(oks, alt{a.c, e.Bool(True)})
		}
	}
	return e.Gate(vs, True, vt), e.Gate(oks, True, types.Typ[types.Bool])
}

func (e *Eval) mapSet(st State, mp, k, v *Term, vt types.Type) State {
	for _, a := range e.alts(mp) {
		if e.isNil(a.t) {
			continue
		}
		loc := e.mk(OEntry, "", vt, a.t, k)
		st.mem = e.filled(st.mem, a.t)
		if a.c == True {
			st.mem = st.mem.set(loc, v)
		} else {
			old := st.mem.get(loc)
			if old == nil {
				old = e.locDefault(st.mem, loc)
			}
			// Gate of booleans would lose presence; keep them apart
			st.mem = st.mem.set(loc, e.Gate([]alt{{a.c, v}, {e.bdd.Not(a.c), old}}, True, vt))
		}
	}
	return st
}

// emptiness is the location that records that nothing has been put into a map
// since it was made.
func (e *Eval) emptiness(mp *Term) *Term {
	return e.mk(OEntry, "", types.Typ[types.Bool], mp, e.mk(ONamed, "made", nil))
}

func isEmptiness(l *Term) bool {
	return l.op == OEntry && l.args[1].op == ONamed && l.args[1].aux == "made"
}

// forget makes the value of a map entry unknown.
func (e *Eval) forget(m *Mem, l *Term) *Mem {
	if isEmptiness(l) {
		return m.set(l, e.Bool(False))
	}
	return m.set(l, nil)
}

func (e *Eval) filled(m *Mem, mp *Term) *Mem {
	loc := e.emptiness(mp)
	if m.get(loc) == nil {
		return m
	}
	return m.set(loc, e.Bool(False))
}

// anyFilled forgets that maps are empty when code we do not see is handed
// something that may lead to them.
func (e *Eval) anyFilled(m *Mem, args []*Term) *Mem {
	for _, a := range args {
		if _, ok := typeUnder(a.typ).(*types.Basic); ok || a.op == OConst {
			continue
		}
		out := m
		m.each(func(l, v *Term) {
			if isEmptiness(l) {
				out = out.set(l, e.Bool(False))
			}
		})
		return out
	}
	return m
}

func mapElem(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if m, ok := t.Underlying().(*types.Map); ok {
		return m.Elem()
	}
	return nil
}

func (e *Eval) instr(f *Frame, in ssa.Instruction, st State) State {
	e.cur = st.pc
	defer func() { e.cur = True }()
	set := func(v ssa.Value, t *Term) { f.env[v] = t }
	switch in := in.(type) {
	case *ssa.Alloc:
		o := e.newObj(f, in, "alloc", in.Type())
		typ := elemType(in.Type())
		st.mem = e.killSub(st.mem, o, typ)
		if arr, ok := typ.Underlying().(*types.Array); ok {
			for i := int64(0); i < arr.Len() && i < 64; i++ {
				ia := e.mk(OIAddr, "", types.NewPointer(arr.Elem()), o, e.Int(int(i)))
				if st.mem.get(ia) != nil {
					st.mem = st.mem.set(ia, nil)
				}
			}
		}
		if st.mem.get(o) != nil {
			st.mem = st.mem.set(o, nil)
		}
		set(in, o)
	case *ssa.BinOp:
		set(in, e.binInstr(f, in))
	case *ssa.UnOp:
		x := e.val(f, in.X)
		switch in.Op {
		case token.MUL:
			switch in.X.(type) {
			case *ssa.Alloc, *ssa.Global, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.FreeVar:
			default:
				e.deref(x, "*", f, in, st)
			}
			set(in, e.load(st.mem, x, in.Type()))
		case token.NOT:
			set(in, e.Bool(e.bdd.Not(e.Cond(x))))
		default:
			t := e.mk(OUn, in.Op.String(), in.Type(), x)
			set(in, t)
		}
	case *ssa.ChangeType:
		set(in, e.val(f, in.X))
	case *ssa.ChangeInterface:
		set(in, e.val(f, in.X))
	case *ssa.MakeInterface:
		x := e.val(f, in.X)
		for _, a := range e.alts(x) {
			if a.t.typ == nil || types.IsInterface(a.t.typ) {
				continue
			}
			if old, ok := e.dyn[a.t]; ok && (old == nil || !types.Identical(old, in.X.Type())) {
				e.dyn[a.t] = nil
			} else {
				e.dyn[a.t] = in.X.Type()
			}
		}
		set(in, x)
	case *ssa.Convert:
		x := e.val(f, in.X)
		if isStringType(in.Type()) && isIntType(in.X.Type()) {
			x = e.mk(OConv, in.Type().String(), in.Type(), x)
		}
		set(in, x)
	case *ssa.MultiConvert:
		set(in, e.val(f, in.X))
	case *ssa.SliceToArrayPointer:
		set(in, e.val(f, in.X))
	case *ssa.Extract:
		t := e.val(f, in.Tuple)
		set(in, e.dist(t, in.Type(), func(t *Term) *Term {
			if t.op == OTuple {
				return t.args[in.Index]
			}
			return e.mk(OExtract, strconv.Itoa(in.Index), in.Type(), t)
		}))
	case *ssa.Field:
		n, ft := fieldName(in.X.Type(), in.Field)
		set(in, e.Field(e.val(f, in.X), n, ft))
	case *ssa.FieldAddr:
		n, ft := fieldName(in.X.Type(), in.Field)
		e.deref(e.val(f, in.X), n, f, in, st)
		e.derefs[derefKey{f, in}].ok = e.asserted(f, in.X)
		set(in, e.FAddr(e.val(f, in.X), n, ft))
	case *ssa.Index:
		i := e.val(f, in.Index)
		set(in, e.Index(e.indexed(f, in.X, i), i, in.Type()))
	case *ssa.IndexAddr:
		i := e.val(f, in.Index)
		x := e.indexed(f, in.X, i)
		if _, ok := in.X.Type().Underlying().(*types.Slice); ok {
			e.element(x, i, f, in, st)
		}
		if i.op == OIdx && i.loop.container == x {
			set(in, e.mk(OIAddr, "", in.Type(), x, i))
			break
		}
		set(in, e.dist(x, in.Type(), func(x *Term) *Term {
			return e.mk(OIAddr, "", in.Type(), x, i)
		}))
	case *ssa.Slice:
		set(in, e.slice(f, in, st))
	case *ssa.MakeMap:
		o := e.newObj(f, in, "map", in.Type())
		set(in, o)
		st.mem = st.mem.set(e.emptiness(o), e.Bool(True))
	case *ssa.MakeSlice:
		if isZero(in.Len) {
			set(in, e.mk(OList, "", in.Type()))
			return st
		}
		o := e.newObj(f, in, "slice", in.Type())
		set(in, o)
		e.effect(&Effect{kind: "makeslice", args: []*Term{o, e.val(f, in.Len)}, res: o}, f, in, st)
	case *ssa.MakeChan:
		set(in, e.newObj(f, in, "chan", in.Type()))
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, e.val(f, b))
		}
		set(in, e.intern(Term{op: OClosure, aux: e.site(f, in) + fn.String(), args: bs, typ: in.Type(), obj: fn}))
	case *ssa.TypeAssert:
		x := e.val(f, in.X)
		if in.CommaOk {
			c := e.typeIs(x, in.AssertedType)
			set(in, e.mk(OTuple, "", nil, e.narrow(x, in.AssertedType), e.Bool(c)))
		} else {
			c := e.typeIs(x, in.AssertedType)
			e.effect(&Effect{kind: "assert", name: types.TypeString(in.AssertedType, nil), args: []*Term{x, e.Bool(c)}}, f, in, st)
			set(in, e.narrow(x, in.AssertedType))
		}
	case *ssa.Lookup:
		x, i := e.val(f, in.X), e.val(f, in.Index)
		if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
			e.element(x, i, f, in, st)
			set(in, e.Index(x, i, in.Type()))
			break
		}
		vt := mapElem(in.X.Type())
		v, ok := e.lookup(st.mem, x, i, vt)
		if in.CommaOk {
			set(in, e.mk(OTuple, "", nil, v, ok))
		} else {
			set(in, v)
		}
	case *ssa.Range:
		x := e.val(f, in.X)
		set(in, e.mk(ORange, "", in.Type(), x))
	case *ssa.Next:
		it := e.val(f, in.Iter)
		var L *Loop
		for i := len(e.loopSt) - 1; i >= 0; i-- {
			if e.loopSt[i].header == in.Block() && e.loopSt[i].frame == f {
				L = e.loopSt[i]
				break
			}
		}
		if L == nil {
			e.problem("next outside loop in %s", f.fn)
			set(in, e.mk(OZero, "next", nil))
			break
		}
		x := it
		if it.op == ORange {
			x = L.container
		}
		if in.IsString {
			idx := e.intern(Term{op: OIdx, loop: L, typ: types.Typ[types.Int]})
			el := e.intern(Term{op: OElem, args: []*Term{x}, loop: L, typ: types.Typ[types.Rune]})
			set(in, e.mk(OTuple, "", nil, e.Bool(e.Atom(e.mk(ONamed, "more", nil))), idx, el))
			break
		}
		var kt, vt types.Type
		if m, ok := x.typ.(*types.Map); ok {
			kt, vt = m.Key(), m.Elem()
		} else if r, ok := in.Iter.(*ssa.Range); ok {
			if m, ok := r.X.Type().Underlying().(*types.Map); ok {
				kt, vt = m.Key(), m.Elem()
			}
		}
		key := e.intern(Term{op: OKey, args: []*Term{x}, loop: L, typ: kt})
		v, _ := e.lookup(st.mem, x, key, vt)
		if x.op != OGate {
			v, _ = e.lookup1(st.mem, x, key, vt)
		}
		set(in, e.mk(OTuple, "", nil, e.Bool(e.Atom(e.mk(ONamed, "more", nil))), key, v))
	case *ssa.Store:
		a, v := e.val(f, in.Addr), e.val(f, in.Val)
		typ := elemType(in.Addr.Type())
		if !isFresh(a) || a.op == OIAddr {
			e.effect(&Effect{kind: "store", args: []*Term{a, v}}, f, in, st)
		} else if a.op == OFAddr {
			e.effect(&Effect{kind: "fieldset", args: []*Term{a, v}}, f, in, st)
		}
		st.mem = e.store(st.mem, a, v, typ)
	case *ssa.MapUpdate:
		m, k, v := e.val(f, in.Map), e.val(f, in.Key), e.val(f, in.Value)
		e.effect(&Effect{kind: "mapset", args: []*Term{m, k, v}}, f, in, st)
		st = e.mapSet(st, m, k, v, mapElem(in.Map.Type()))
	case *ssa.Call:
		var t *Term
		t, st = e.call(f, in, &in.Call, st)
		set(in, t)
	case *ssa.Go:
		_, st = e.call(f, in, &in.Call, st)
		e.effect(&Effect{kind: "go"}, f, in, st)
	case *ssa.Defer:
		d := deferred{st: st, call: &in.Call, instr: in}
		if !in.Call.IsInvoke() {
			d.fnv = e.val(f, in.Call.Value)
		} else {
			d.fnv = e.val(f, in.Call.Value)
		}
		for _, a := range in.Call.Args {
			d.args = append(d.args, e.val(f, a))
		}
		f.defers = append(f.defers, d)
		e.effect(&Effect{kind: "defer", name: calleeName(&in.Call), args: append([]*Term{d.fnv}, d.args...)}, f, in, st)
	case *ssa.RunDefers:
		for i := len(f.defers) - 1; i >= 0; i-- {
			d := f.defers[i]
			c := e.bdd.Restrict(d.st.pc, st.pc)
			if e.bdd.And(st.pc, d.st.pc) == False {
				continue
			}
			s1 := st
			s1.pc = e.bdd.And(st.pc, c)
			s2 := st
			s2.pc = e.bdd.And(st.pc, e.bdd.Not(c))
			_, s1 = e.callVal(f, d.instr, d.call, d.fnv, d.args, s1)
			if s2.pc == False {
				st = s1
			} else if s1.pc == False {
				st = s2
			} else {
				st = e.merge([]State{s1, s2})
			}
		}
	case *ssa.Send:
		e.effect(&Effect{kind: "send", args: []*Term{e.val(f, in.Chan), e.val(f, in.X)}}, f, in, st)
	case *ssa.Select:
		e.effect(&Effect{kind: "select"}, f, in, st)
		set(in, e.mk(OCall, "select#"+e.site(f, in), in.Type()))
	case *ssa.DebugRef:
	default:
		e.problem("unhandled instruction %T in %s", in, f.fn)
		if v, ok := in.(ssa.Value); ok {
			set(v, e.mk(OZero, fmt.Sprintf("unhandled#%s", e.site(f, in)), v.Type()))
		}
	}
	return st
}

// narrow keeps the concrete type of alternatives that cannot be T out.
func (e *Eval) narrow(x *Term, T types.Type) *Term {
	if x.op != OGate {
		return x
	}
	var keep []alt
	for i, a := range x.args {
		if e.typeIs(a, T) != False {
			keep = append(keep, alt{x.conds[i], a})
		}
	}
	if len(keep) == 0 {
		return x
	}
	if len(keep) == 1 {
		return keep[0].t
	}
	return e.Gate(keep, True, T)
}

func (e *Eval) binInstr(f *Frame, in *ssa.BinOp) *Term {
	if t, ok := f.env[in]; ok && t.op == OIdx {
		return t // induction variable
	}
	if in.Op == token.EQL || in.Op == token.NEQ {
		for _, p := range [][2]ssa.Value{{in.X, in.Y}, {in.Y, in.X}} {
			if c, ok := p[1].(*ssa.Const); !ok || !c.IsNil() {
				continue
			}
			// a failed assertion leaves nil
			if ok := e.asserted(f, p[0]); ok != True {
				if in.Op == token.EQL {
					ok = e.bdd.Not(ok)
				}
				return e.Bool(ok)
			}
		}
	}
	return e.bin(in.Op, e.val(f, in.X), e.val(f, in.Y), in.Type())
}

func isZero(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.ExactString() == "0"
}

func (e *Eval) slice(f *Frame, in *ssa.Slice, st State) *Term {
	x := e.val(f, in.X)
	if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		if arr, ok := p.Elem().Underlying().(*types.Array); ok {
			if x.op == OObj && in.Low == nil && in.High == nil && arr.Len() <= 64 {
				var els []*Term
				for i := int64(0); i < arr.Len(); i++ {
					ia := e.mk(OIAddr, "", types.NewPointer(arr.Elem()), x, e.Int(int(i)))
					els = append(els, e.load1(st.mem, ia, arr.Elem()))
				}
				return e.mk(OList, "", in.Type(), els...)
			}
			if x.op == OObj && in.Low == nil && in.High != nil {
				// make([]T, n, constant): an allocation of its own
				if isZero(in.High) {
					return e.mk(OList, "", in.Type())
				}
				o := e.newObj(f, in, "slice", in.Type())
				e.effect(&Effect{kind: "makeslice", args: []*Term{o, e.val(f, in.High)}, res: o}, f, in, st)
				return o
			}
			if x.op == OObj && in.Low == nil && in.High == nil {
				o := e.newObj(f, in, "slice", in.Type())
				return o
			}
		}
	}
	lo, hi := e.Int(0), e.Nil()
	if in.Low != nil {
		lo = e.val(f, in.Low)
	}
	if in.High != nil {
		hi = e.val(f, in.High)
	}
	return e.sliceOf(x, lo, hi, in.Type())
}

func (e *Eval) sliceOf(x, lo, hi *Term, typ types.Type) *Term {
	return e.dist(x, typ, func(x *Term) *Term {
		if lo.op == OConst && lo.aux == "0" && e.isNil(hi) {
			return x
		}
		if hi.op == OConst && hi.aux == "0" && x.op != OGate {
			// x[:0]: an empty slice sharing x's storage
			return e.mk(OSlice, "empty", typ, x)
		}
		return e.mk(OSlice, "", typ, x, lo, hi)
	})
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.FullName()
	}
	switch v := c.Value.(type) {
	case *ssa.Function:
		return fnName(v)
	case *ssa.Builtin:
		return v.Name()
	}
	return ""
}

// initPkg evaluates the initialisers of a package's variables, so that
// variables nothing else assigns have known values.
func (e *Eval) initPkg(path string) {
	sp := e.prog.ssa[path]
	if sp == nil {
		e.problem("package %s not found", path)
		return
	}
	fn := sp.Func("init")
	if fn == nil {
		return
	}
	assigned := e.prog.assignedGlobals()
	e.inInit = true
	f := e.frameFor(nil, fn, nil, "init"+path)
	mem := e.initMem
	if g, ok := sp.Members["init$guard"].(*ssa.Global); ok {
		mem = mem.set(e.globalAddr(g), e.Bool(False))
	}
	n := len(e.effects)
	_, out := e.runFrame(f, nil, nil, State{True, mem})
	for _, ef := range e.effects[n:] {
		ef.init = true
	}
	e.initEffects = append(e.initEffects, e.effects[n:]...)
	e.effects = e.effects[:n]
	e.inInit = false
	res := e.initMem
	out.mem.each(func(l, v *Term) {
		if l.op == OGlobal {
			g, _ := l.obj.(*ssa.Global)
			if g == nil || assigned[g] || g.Name() == "init$guard" {
				return
			}
		}
		res = res.set(l, v)
	})
	e.initMem = res
}

// Run evaluates fn from a symbolic initial state.
func (e *Eval) Run(fn *ssa.Function, args []*Term) (*Frame, State) {
	f := e.frameFor(nil, fn, nil, "root")
	st := State{True, e.initMem}
	if args == nil {
		for i, p := range fn.Params {
			args = append(args, e.mk(OParam, fmt.Sprintf("%s.%d:%s", fn.Name(), i, p.Name()), p.Type()))
		}
	}
	if e.before != nil {
		e.before(&st, args)
	}
	_, out := e.runFrame(f, args, nil, st)
	return f, out
}

func (e *Eval) param(fn *ssa.Function, i int) *Term {
	p := fn.Params[i]
	return e.mk(OParam, fmt.Sprintf("%s.%d:%s", fn.Name(), i, p.Name()), p.Type())
}

func (e *Eval) runFrame(f *Frame, args, bindings []*Term, st State) (*Term, State) {
	fn := f.fn
	e.fnSeen[fn]++
	body := func(args []*Term, st State) {
		f.env = map[ssa.Value]*Term{}
		f.defers, f.rets = nil, nil
		for i, p := range fn.Params {
			if i < len(args) {
				f.env[p] = args[i]
			}
		}
		for i, p := range fn.FreeVars {
			if i < len(bindings) {
				f.env[p] = bindings[i]
			}
		}
		li := e.loops(fn)
		if li.bad {
			e.problem("irreducible control flow in %s", fn)
		}
		if ln := li.byHeader[fn.Blocks[0]]; ln != nil {
			e.problem("entry block of %s is a loop header", fn)
		}
		e.region(f, li, nil, nil, st)
	}
	e.stack = append(e.stack, f)
	effStart := len(e.effects)
	f.rec, f.recSeen = nil, false
	body(args, st)
	if f.recSeen {
		e.recursive(f, args, st, effStart, body)
	}
	e.stack = e.stack[:len(e.stack)-1]
	// join returns
	if len(f.rets) == 0 {
		return e.mk(OTuple, "", nil), State{False, st.mem}
	}
	var sts []State
	for _, r := range f.rets {
		sts = append(sts, r.st)
	}
	out := e.merge(sts)
	n := fn.Signature.Results().Len()
	var res []*Term
	for i := 0; i < n; i++ {
		var alts []alt
		for _, r := range f.rets {
			alts = append(alts, alt{r.st.pc, r.vals[i]})
		}
		res = append(res, e.Gate(alts, out.pc, fn.Signature.Results().At(i).Type()))
	}
	// drop locals of the finished frame
	var dead []*Term
	diff(st.mem, out.mem, func(l, _, y *Term) {
		if y == nil {
			return
		}
		root := l
		for root.op == OFAddr || root.op == OIAddr {
			root = root.args[0]
		}
		if oi, ok := root.obj.(*ObjInfo); ok && root.op == OObj && oi.frame == f && oi.kind == "alloc" {
			if a, ok := oi.instr.(*ssa.Alloc); ok && !a.Heap {
				dead = append(dead, l)
			}
		}
	})
	if f.parent != nil {
		for _, l := range dead {
			out.mem = out.mem.set(l, nil)
		}
	}
	if n == 1 {
		return res[0], out
	}
	return e.mk(OTuple, "", nil, res...), out
}

// recursive re-evaluates a function found to call itself as a loop whose
// "iterations" are the activations.
func (e *Eval) recursive(f *Frame, args []*Term, st0 State, effStart int, body func([]*Term, State)) {
	key := fmt.Sprintf("rec:%d:%s", f.id, f.fn)
	mods := map[*Term]bool{}
	fixed := map[int]bool{} // parameters passed on unchanged
	var modOrder []*Term
	for pass := 0; ; pass++ {
		if pass > 12 {
			e.problem("recursive function %s: memory does not stabilise", f.fn)
			return
		}
		e.effects = e.effects[:effStart]
		L := e.loopFor(key, f)
		L.kind = "rec"
		L.pc = st0.pc
		L.pos = f.fn.Pos()
		L.recArgs, L.recPC, L.recParams = nil, nil, nil
		st := st0
		for _, l := range modOrder {
			if l.op == OEntry {
				st.mem = e.forget(st.mem, l)
				continue
			}
			lv := e.intern(Term{op: OLV, aux: "m" + strconv.Itoa(l.id), loop: L, typ: elemTypeOr(l.typ), obj: l})
			old := st.mem.get(l)
			if old == nil {
				old = e.locDefault(st.mem, l)
			}
			L.init[lv] = old
			st.mem = e.store(st.mem, l, lv, elemTypeOr(l.typ))
		}
		var ps []*Term
		for i, a := range args {
			if fixed[i] {
				ps = append(ps, a)
				continue
			}
			lv := e.intern(Term{op: OLV, aux: "p" + strconv.Itoa(i), loop: L, typ: f.fn.Params[i].Type()})
			L.init[lv] = a
			ps = append(ps, lv)
		}
		L.recParams = ps
		f.rec = L
		hdr := st.mem
		e.loopSt = append(e.loopSt, L)
		body(ps, st)
		e.loopSt = e.loopSt[:len(e.loopSt)-1]
		for i, lv := range ps {
			var alts []alt
			for j, ra := range L.recArgs {
				if i < len(ra) {
					alts = append(alts, alt{L.recPC[j], ra[i]})
				}
			}
			if fixed[i] {
				continue
			}
			if len(alts) > 0 {
				L.back[lv] = e.Gate(alts, True, lv.typ)
			}
		}
		grew := false
		for i, lv := range ps {
			same := len(L.recArgs) > 0 && lv.op == OLV && lv.loop == L && lv != args[i]
			for _, ra := range L.recArgs {
				same = same && i < len(ra) && ra[i] == lv
			}
			if same {
				fixed[i], grew = true, true
				delete(L.init, lv)
				delete(L.back, lv)
			}
		}
		for _, r := range f.rets {
			for _, l := range e.changed(hdr, r.st.mem, L) {
				if !mods[l] {
					mods[l] = true
					modOrder = append(modOrder, l)
					grew = true
				}
			}
		}
		for _, r := range f.rets {
			for _, l := range modOrder {
				if l.op == OEntry {
					continue
				}
				lv := e.intern(Term{op: OLV, aux: "m" + strconv.Itoa(l.id), loop: L, typ: elemTypeOr(l.typ), obj: l})
				L.back[lv] = e.load1(r.st.mem, l, elemTypeOr(l.typ))
			}
		}
		if !grew {
			f.recSeen = true
			// the value of the outermost call is an opaque function of its arguments
			f.recRets = nil
			for _, r := range f.rets {
				r.vals = append([]*Term(nil), r.vals...)
				f.recRets = append(f.recRets, r)
			}
			for i := range f.rets {
				for j := range f.rets[i].vals {
					f.rets[i].vals[j] = e.mk(ORec, fmt.Sprintf("%s#%d", f.fn, j), f.fn.Signature.Results().At(j).Type(), args...)
				}
			}
			return
		}
	}
}

// libraryResult names the function a term is the result of.
func libraryResult(x *Term) string {
	if x.op == OExtract {
		x = x.args[0]
	}
	if x.op != OCall {
		return ""
	}
	n, _, _ := strings.Cut(x.aux, "#")
	return strings.TrimLeft(n, "(*")
}
