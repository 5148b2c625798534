package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modulePath = "github.com/google/capslock"
const protoPath = modulePath + "/proto"

// inlinable reports whether fn's body is part of the analysed program.
func (e *Eval) inlinable(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 || e.opaque[fnName(fn)] {
		return false
	}
	return e.prog.isRepoFn(fn)
}

func (e *Eval) call(f *Frame, in ssa.Instruction, c *ssa.CallCommon, st State) (*Term, State) {
	var args []*Term
	for _, a := range c.Args {
		args = append(args, e.val(f, a))
	}
	var fnv *Term
	if c.IsInvoke() {
		fnv = e.val(f, c.Value)
		e.deref(fnv, c.Method.Name(), f, in, st)
		e.derefs[derefKey{f, in}].ok = e.asserted(f, c.Value)
	} else {
		fnv = e.val(f, c.Value)
		if fn := c.StaticCallee(); fn != nil && fn.Signature.Recv() != nil && len(args) > 0 && !e.inlinable(fn) {
			if _, ok := fn.Signature.Recv().Type().(*types.Pointer); ok {
				e.deref(args[0], fn.Name(), f, in, st)
				e.derefs[derefKey{f, in}].ok = e.asserted(f, c.Args[0])
			}
		}
	}
	return e.callVal(f, in, c, fnv, args, st)
}

func resultType(c *ssa.CallCommon) types.Type {
	r := c.Signature().Results()
	if r.Len() == 1 {
		return r.At(0).Type()
	}
	return r
}

func (e *Eval) callVal(f *Frame, in ssa.Instruction, c *ssa.CallCommon, fnv *Term, args []*Term, st State) (*Term, State) {
	if c.IsInvoke() {
		if fns := e.tabled(fnv, c.Method); fns != nil {
			// an element of a table: one case for each entry
			return e.cases(st, resultType(c), len(fns), func(i int, st State) (*Term, State) {
				o := fnv.args[0].args[i]
				for j, x := range fnv.args[0].args[:len(fns)-1] {
					eq := e.Cond(e.Eq(fnv, x))
					if j > i {
						break
					}
					if j < i {
						eq = e.bdd.Not(eq)
					}
					st.pc = e.bdd.And(st.pc, eq)
				}
				return e.invokeFn(f, in, c, fns[i], append([]*Term{o}, args...), nil, st, "case"+strconv.Itoa(i))
			})
		}
		return e.external(f, in, c, c.Method.FullName(), append([]*Term{fnv}, args...), resultType(c), st, true)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(f, in, b.Name(), c, args, st)
	}
	if fnv.op == OGate {
		// several possible callees
		return e.cases(st, resultType(c), len(fnv.args), func(i int, st State) (*Term, State) {
			st.pc = e.bdd.And(st.pc, fnv.conds[i])
			if st.pc == False {
				return nil, st
			}
			return e.callTerm(f, in, c, fnv.args[i], args, st, "alt"+strconv.Itoa(i))
		})
	}
	return e.callTerm(f, in, c, fnv, args, st, "")
}

// cases evaluates several possible callees.
func (e *Eval) cases(st State, typ types.Type, n int, call func(i int, st State) (*Term, State)) (*Term, State) {
	var sts []State
	var alts []alt
	for i := 0; i < n; i++ {
		r, o := call(i, st)
		if o.pc == False {
			continue
		}
		sts = append(sts, o)
		alts = append(alts, alt{o.pc, r})
	}
	if len(sts) == 0 {
		return e.mk(OZero, "unreachable", nil), State{False, st.mem}
	}
	out := e.merge(sts)
	return e.gateTuple(alts, out.pc, typ), out
}

// tabled gives the functions a method call on an element of a fixed table can
// mean, one for each entry, if all of them are known.
func (e *Eval) tabled(t *Term, m *types.Func) []*ssa.Function {
	if t.op != OElem || t.args[0].op != OList || len(t.args[0].args) > 16 {
		return nil
	}
	var fns []*ssa.Function
	for _, x := range t.args[0].args {
		typ := e.dyn[x]
		if typ == nil {
			typ = x.typ
		}
		if x.op != OObj && x.op != OStruct || typ == nil || types.IsInterface(typ) {
			return nil
		}
		sel := e.prog.prog.MethodSets.MethodSet(typ).Lookup(m.Pkg(), m.Name())
		if sel == nil {
			return nil
		}
		fn := e.prog.prog.MethodValue(sel)
		if fn == nil || !e.inlinable(fn) {
			return nil
		}
		fns = append(fns, fn)
	}
	return fns
}

func (e *Eval) gateTuple(alts []alt, total Node, typ types.Type) *Term {
	if tup, ok := typ.(*types.Tuple); ok {
		var parts []*Term
		for i := 0; i < tup.Len(); i++ {
			var as []alt
			for _, a := range alts {
				var x *Term
				if a.t.op == OTuple && i < len(a.t.args) {
					x = a.t.args[i]
				} else {
					x = e.mk(OExtract, strconv.Itoa(i), tup.At(i).Type(), a.t)
				}
				as = append(as, alt{a.c, x})
			}
			parts = append(parts, e.Gate(as, total, tup.At(i).Type()))
		}
		return e.mk(OTuple, "", nil, parts...)
	}
	return e.Gate(alts, total, typ)
}

func (e *Eval) callTerm(f *Frame, in ssa.Instruction, c *ssa.CallCommon, t *Term, args []*Term, st State, tag string) (*Term, State) {
	switch t.op {
	case OFunc, OClosure:
		fn, _ := t.obj.(*ssa.Function)
		if fn == nil {
			break
		}
		// bound method closures: the binding is the receiver
		if strings.HasSuffix(fn.Name(), "$bound") && t.op == OClosure {
			if callee := boundTarget(fn); callee != nil {
				return e.invokeFn(f, in, c, callee, append(append([]*Term{}, t.args...), args...), nil, st, tag)
			}
			if m := boundInvoke(fn); m != nil {
				return e.external(f, in, c, m.FullName(), append(append([]*Term{}, t.args...), args...), resultType(c), st, true)
			}
		}
		var bind []*Term
		if t.op == OClosure {
			bind = t.args
		}
		return e.invokeFn(f, in, c, fn, args, bind, st, tag)
	}
	if t.op == OIter {
		return e.iterate(f, in, c, t, args, st)
	}
	if fn := e.fixedFunc(t); fn != nil {
		return e.invokeFn(f, in, c, fn, args, nil, st, tag)
	}
	if e.isNil(t) {
		e.effect(&Effect{kind: "panic", name: "nil call"}, f, in, st)
		return e.mk(OZero, "unreachable", nil), State{False, st.mem}
	}
	// unknown function value
	res := e.mk(OCall, "dyn#"+e.site(f, in)+tag, resultType(c), append([]*Term{t}, args...)...)
	e.effect(&Effect{kind: "dyncall", args: append([]*Term{t}, args...), res: res}, f, in, st)
	return res, st
}

// fixedFunc gives the function a package-level variable holds, if it is only
// set where it is declared, perhaps wrapped so as to run only once.
func (e *Eval) fixedFunc(t *Term) *ssa.Function {
	if t.op == OCall && strings.HasPrefix(t.aux, "sync.Once") && len(t.args) == 1 {
		fn, _ := t.args[0].obj.(*ssa.Function)
		if t.args[0].op == OFunc || t.args[0].op == OClosure && len(t.args[0].args) == 0 {
			return fn
		}
		return nil
	}
	if t.op != ODeref || t.args[0].op != OGlobal {
		return nil
	}
	g, _ := t.args[0].obj.(*ssa.Global)
	if g == nil || g.Pkg == nil || g.Pkg.Func("init") == nil || !e.prog.isRepoFn(g.Pkg.Func("init")) || e.prog.assignedGlobals()[g] {
		return nil
	}
	var val ssa.Value
	for _, b := range g.Pkg.Func("init").Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == g {
				if val != nil {
					return nil
				}
				val = s.Val
			}
		}
	}
	if call, ok := val.(*ssa.Call); ok && len(call.Call.Args) == 1 {
		if callee := call.Call.StaticCallee(); callee != nil && strings.HasPrefix(fnName(callee), "sync.Once") {
			val = call.Call.Args[0]
		}
	}
	fn, _ := val.(*ssa.Function)
	return fn
}

func boundTarget(fn *ssa.Function) *ssa.Function {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && !c.Call.IsInvoke() {
				if g, ok := c.Call.Value.(*ssa.Function); ok {
					return g
				}
			}
		}
	}
	return nil
}

func boundInvoke(fn *ssa.Function) *types.Func {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && c.Call.IsInvoke() {
				return c.Call.Method
			}
		}
	}
	return nil
}

func (e *Eval) invokeFn(f *Frame, in ssa.Instruction, c *ssa.CallCommon, fn *ssa.Function, args, bind []*Term, st State, tag string) (*Term, State) {
	if e.inInit && fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Pkg != f.fn.Pkg {
		return e.mk(OTuple, "", nil), st // initialisation of an imported package
	}
	if !e.inlinable(fn) {
		return e.external(f, in, c, fnName(fn), args, resultType(c), st, false)
	}
	// recursion?
	for i := len(e.stack) - 1; i >= 0; i-- {
		g := e.stack[i]
		if g.fn == fn {
			g.recSeen = true
			if g.rec != nil {
				g.rec.recArgs = append(g.rec.recArgs, args)
				g.rec.recPC = append(g.rec.recPC, st.pc)
			}
			e.effect(&Effect{kind: "reccall", name: fn.String(), args: args}, f, in, st)
			var parts []*Term
			res := fn.Signature.Results()
			for j := 0; j < res.Len(); j++ {
				parts = append(parts, e.mk(ORec, fmt.Sprintf("%s#%d", fn, j), res.At(j).Type(), args...))
			}
			if len(parts) == 1 {
				return parts[0], st
			}
			return e.mk(OTuple, "", nil, parts...), st
		}
	}
	if len(e.stack) > 60 {
		e.problem("call depth limit reached at %s", fn)
		return e.mk(OCall, "deep#"+e.site(f, in), resultType(c), args...), st
	}
	g := e.frameFor(f, fn, in, tag)
	e.effect(&Effect{kind: "enter", name: fn.String(), args: args}, f, in, st)
	return e.runFrame(g, args, bind, st)
}

func (e *Eval) builtin(f *Frame, in ssa.Instruction, name string, c *ssa.CallCommon, args []*Term, st State) (*Term, State) {
	var typ types.Type
	if v, ok := in.(ssa.Value); ok {
		typ = v.Type()
	}
	switch name {
	case "len":
		return e.Len(e.load0(st, args[0])), st
	case "cap":
		return e.mk(OCall, "cap", typ, args[0]), st
	case "append":
		if len(args) == 1 {
			return args[0], st
		}
		return e.appendTo(f, in, st, args[0], args[1], typ, ""), st
	case "delete":
		e.effect(&Effect{kind: "mapdel", args: args}, f, in, st)
		for _, a := range e.alts(args[0]) {
			loc := e.mk(OEntry, "", mapElem(c.Args[0].Type()), a.t, args[1])
			if a.c == True {
				st.mem = st.mem.set(loc, e.mk(OAbsent, "", nil))
			}
		}
		return e.mk(OTuple, "", nil), st
	case "copy":
		e.effect(&Effect{kind: "copy", args: args}, f, in, st)
		return e.mk(OCall, "copy#"+e.site(f, in), typ), st
	case "clear":
		e.effect(&Effect{kind: "clear", args: args}, f, in, st)
		return e.mk(OTuple, "", nil), st
	case "min", "max":
		return e.mk(OCall, name, typ, args...), st
	case "ssa:wrapnilchk":
		return args[0], st
	case "recover":
		return e.Nil(), st
	case "panic", "print", "println", "close":
		e.effect(&Effect{kind: "call", name: name, args: args}, f, in, st)
		return e.mk(OTuple, "", nil), st
	}
	e.problem("unmodelled builtin %s", name)
	return e.mk(OCall, name+"#"+e.site(f, in), typ, args...), st
}

func (e *Eval) load0(st State, t *Term) *Term { return t }

// copied is a copy of a slice other code may hold; its elements are those of
// the original.
func (e *Eval) copied(x *Term) *Term {
	return e.dist(x, x.typ, func(x *Term) *Term {
		if x.op == OField || x.op == ODeref || x.op == OParam {
			return e.mk(OConv, "copy", x.typ, x)
		}
		return x
	})
}

// original strips copied.
func original(x *Term) *Term {
	for x != nil && x.op == OConv && x.aux == "copy" {
		x = x.args[0]
	}
	return x
}

func (e *Eval) appendTo(f *Frame, in ssa.Instruction, st State, base, add *Term, typ types.Type, tag string) *Term {
	if e.isNil(add) {
		return base
	}
	// append([]T(nil), xs...) is a copy of xs; appending to a literal of
	// known elements gives a literal
	if e.isNil(base) || (base.op == OList && len(base.args) == 0) || (base.op == OSlice && base.aux == "empty" && base.args[0] != add) {
		if add.op != OList {
			return e.copied(add)
		}
	}
	if base.op == OList && add.op == OList && len(base.args)+len(add.args) <= 64 {
		return e.mk(OList, "", typ, append(append([]*Term{}, base.args...), add.args...)...)
	}
	t := e.mk(OAppend, e.site(f, in)+tag, typ, base, add)
	e.effect(&Effect{kind: "append", args: []*Term{base, add}, res: t}, f, in, st)
	return t
}

// ---- library ----

var pureExact = map[string]bool{
	"fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Sprintln": true, "fmt.Errorf": true,
	"errors.New": true, "errors.Is": true, "errors.As": true, "errors.Unwrap": true, "errors.Join": true,
	"slices.Contains": true, "slices.Index": true, "slices.Equal": true, "slices.Max": true, "slices.Min": true,
	"slices.BinarySearch": true, "slices.Compare": true,
	"maps.Keys": true, "maps.Values": true, "maps.All": true, "slices.Values": true, "slices.All": true,
	"slices.Backward": true,
	"(error).Error":   true, "(fmt.Stringer).String": true,
	"path/filepath.Join": true, "path/filepath.Base": true, "path/filepath.Dir": true, "path/filepath.Clean": true,
	"(*os.ProcessState).ExitCode": true, "runtime.GOOS": true,
	"cmp.Compare": true, "cmp.Less": true,
}

var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "path": true, "go/types": true, "go/ast": true, "go/token": true,
	"go/constant": true, "golang.org/x/tools/go/ssa": true, "golang.org/x/tools/go/ssa/ssautil": true,
	"golang.org/x/tools/go/callgraph": true, "golang.org/x/tools/go/types/typeutil": true,
	"golang.org/x/tools/go/ast/astutil": true, "unicode": true, "unicode/utf8": true, "bytes": true,
	"reflect": true, "golang.org/x/tools/go/packages": true, "cmp": true, "iter": true,
	"golang.org/x/mod/module": true, "golang.org/x/mod/semver": true,
	"google.golang.org/protobuf/proto": true, protoPath: true,
}

var impureNames = map[string]bool{
	"golang.org/x/tools/go/packages.Load": true, "golang.org/x/tools/go/packages.PrintErrors": true,
	"(*golang.org/x/tools/go/ssa.Program).Build": true, "(*golang.org/x/tools/go/ssa.Package).Build": true,
	"golang.org/x/tools/go/packages.Visit": true,
	"strings.NewReader":                    true, "strings.NewReplacer": true,
	"go/ast.Walk": true, "go/ast.Inspect": true,
	"golang.org/x/tools/go/ast/astutil.Apply": true,
	"go/ast.NewIdent":                         true,
}

func pkgOfName(name string) string {
	s := strings.TrimPrefix(name, "(")
	s = strings.TrimPrefix(s, "*")
	// cut at the first '.' after the last '/'
	i := strings.LastIndex(s, "/")
	j := strings.Index(s[i+1:], ".")
	if j < 0 {
		return s
	}
	return s[:i+1+j]
}

func pureCall(name string) bool {
	if pureExact[name] {
		return true
	}
	if impureNames[name] {
		return false
	}
	if strings.HasPrefix(name, "(*strings.Builder)") || strings.HasPrefix(name, "(*bytes.Buffer)") || strings.HasPrefix(name, "(*strings.Reader)") ||
		strings.HasPrefix(name, "(*golang.org/x/tools/go/ast/astutil.Cursor).Replace") ||
		strings.HasPrefix(name, "(*golang.org/x/tools/go/ast/astutil.Cursor).Insert") ||
		strings.HasPrefix(name, "(*golang.org/x/tools/go/ast/astutil.Cursor).Delete") {
		return false
	}
	p := pkgOfName(name)
	if strings.HasPrefix(p, modulePath+"/") && p != protoPath && strings.HasPrefix(name, "(") {
		return true // methods called through the repository's own interfaces
	}
	return purePkgs[p]
}

// terminates reports library calls that never return.
func terminates(name string) bool {
	switch name {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "runtime.Goexit",
		"(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln", "(*log.Logger).Panic", "(*log.Logger).Panicf", "(*log.Logger).Panicln":
		return true
	}
	return false
}

func protoGetter(name string) (field string, ok bool) {
	if !strings.HasPrefix(name, "(*"+protoPath+".") {
		return "", false
	}
	i := strings.Index(name, ").")
	m := name[i+2:]
	if strings.HasPrefix(m, "Get") && len(m) > 3 {
		return m[3:], true
	}
	return "", false
}

func isAddr(t *Term) bool {
	switch t.op {
	case OObj, OFAddr, OIAddr, OGlobal:
		return t.op != OObj || t.obj.(*ObjInfo).kind == "alloc"
	}
	return false
}

func (e *Eval) external(f *Frame, in ssa.Instruction, c *ssa.CallCommon, name string, args []*Term, typ types.Type, st State, invoke bool) (*Term, State) {
	u := e.U
	bt := types.Typ[types.Bool]
	// models of functions that are identities or have a closed form
	if fld, ok := protoGetter(name); ok {
		recv := args[0]
		rt := recv.typ
		if c.Signature().Recv() != nil {
			rt = c.Signature().Recv().Type()
		}
		var ft types.Type = typ
		for _, sf := range structFields(elemTypeOr(rt)) {
			if sf.Name() == fld {
				ft = sf.Type()
			}
		}
		v := e.load(st.mem, e.FAddr(recv, fld, ft), ft)
		if _, isPtr := ft.Underlying().(*types.Pointer); isPtr {
			if _, basic := elemType(ft).Underlying().(*types.Basic); basic {
				v = e.dist(v, typ, func(x *Term) *Term {
					if isAddr(x) {
						return e.load1(st.mem, x, elemType(ft))
					}
					return x
				})
			}
		}
		return v, st
	}
	switch name {
	case "google.golang.org/protobuf/proto.String", "google.golang.org/protobuf/proto.Int64", "google.golang.org/protobuf/proto.Bool", "google.golang.org/protobuf/proto.Int32":
		return args[0], st
	case "strings.CutPrefix":
		has := u.mk(OCall, "strings.HasPrefix", bt, args[0], args[1])
		n := u.Cond(has)
		cut := e.sliceOf(args[0], u.Len(args[1]), u.Nil(), types.Typ[types.String])
		return u.mk(OTuple, "", nil, u.Gate([]alt{{n, cut}, {u.bdd.Not(n), args[0]}}, True, types.Typ[types.String]), u.Bool(n)), st
	case "strings.TrimPrefix":
		has := u.Cond(u.mk(OCall, "strings.HasPrefix", bt, args[0], args[1]))
		cut := e.sliceOf(args[0], u.Len(args[1]), u.Nil(), types.Typ[types.String])
		return u.Gate([]alt{{has, cut}, {u.bdd.Not(has), args[0]}}, True, types.Typ[types.String]), st
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
		// constant operands are folded
		return e.dist2(args[0], args[1], bt, func(a, b *Term) *Term {
			x, e1 := strconv.Unquote(a.aux)
			y, e2 := strconv.Unquote(b.aux)
			if a.op == OConst && b.op == OConst && e1 == nil && e2 == nil {
				switch name {
				case "strings.HasPrefix":
					return u.Bool(boolNode(strings.HasPrefix(x, y)))
				case "strings.HasSuffix":
					return u.Bool(boolNode(strings.HasSuffix(x, y)))
				}
				return u.Bool(boolNode(strings.Contains(x, y)))
			}
			return u.Bool(u.Atom(u.mk(OCall, name, bt, a, b)))
		}), st
	case "(*go/token.Position).IsValid":
		line := e.load1(st.mem, e.FAddr(args[0], "Line", types.NewPointer(types.Typ[types.Int])), types.Typ[types.Int])
		return e.dist(line, bt, func(x *Term) *Term { return u.Bool(u.bdd.Not(u.Cond(u.Eq(x, u.Int(0))))) }), st
	case "strings.EqualFold":
		return u.Bool(u.Atom(u.mk(OCall, name, bt, args...))), st
	case "slices.Contains":
		if l := args[0]; l.op == OList {
			n := False
			for _, x := range l.args {
				n = u.bdd.Or(n, u.Cond(u.Eq(args[1], x)))
			}
			return u.Bool(n), st
		}
	case "(*sync.Once).Do", "sync.OnceFunc":
		if len(args) == 2 {
			_, st = e.callVal1(f, in, args[1], nil, st, "once")
			return u.mk(OTuple, "", nil), st
		}
	case "maps.Keys", "maps.Values", "maps.All", "slices.Values", "slices.All", "slices.Backward":
		return e.dist(args[0], typ, func(x *Term) *Term { return u.mk(OIter, name, typ, x) }), st
	case "slices.Collect":
		if args[0].op == OIter {
			return u.mk(OCall, "collect:"+args[0].aux, typ, args[0].args...), st
		}
	case "slices.Sorted":
		if args[0].op == OIter {
			t := u.mk(OCall, "sorted:"+args[0].aux, typ, args[0].args...)
			e.effect(&Effect{kind: "call", name: name, args: args, res: t}, f, in, st)
			return t, st
		}
	case "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln", "io.WriteString":
		if fn := e.ownWriter(in); fn != nil {
			x := args[1]
			if name != "io.WriteString" {
				x = u.mk(OCall, "fmt.S"+strings.TrimPrefix(name, "fmt.F"), types.Typ[types.String], args[1:]...)
			}
			return e.invokeFn(f, in, &ssa.CallCommon{Value: fn}, fn, []*Term{args[0], x}, nil, st, "write")
		}
	case "maps.Clone":
		t := e.newObj(f, in, "map", typ)
		e.effect(&Effect{kind: "mapcopy", name: name, args: []*Term{t, args[0]}, res: t}, f, in, st)
		return t, st
	case "slices.SortedFunc", "slices.SortedStableFunc":
		if args[0].op == OIter {
			t := u.mk(OCall, "collect:"+args[0].aux, typ, args[0].args...)
			_, st = e.external(f, in, c, "slices.SortFunc", []*Term{t, args[1]}, types.NewTuple(), st, false)
			return t, st
		}
	case "cmp.Or":
		if args[0].op == OList && typ != nil {
			zero := u.zero(typ)
			var alts []alt
			left := True
			for i, x := range args[0].args {
				n := u.bdd.Not(u.Cond(u.Eq(x, zero)))
				if i == len(args[0].args)-1 {
					n = True
				}
				alts = append(alts, alt{u.bdd.And(left, n), x})
				left = u.bdd.And(left, u.bdd.Not(n))
			}
			return u.Gate(alts, True, typ), st
		}
	case "slices.Clone":
		return e.copied(args[0]), st
	case "maps.Copy":
		e.effect(&Effect{kind: "mapcopy", name: name, args: args}, f, in, st)
		for _, a := range e.alts(args[0]) {
			st.mem = e.filled(st.mem, a.t)
		}
		return u.mk(OTuple, "", nil), st
	case "slices.Concat":
		if args[0].op == OList {
			t := u.Nil()
			for i, x := range args[0].args {
				t = e.appendTo(f, in, st, t, x, typ, "c"+strconv.Itoa(i))
			}
			return t, st
		}
	case "text/template.Must", "html/template.Must":
		ok := u.Cond(u.Eq(args[1], u.Nil()))
		e.effect(&Effect{kind: "panic", name: name, args: args}, f, in, State{u.bdd.And(st.pc, u.bdd.Not(ok)), st.mem})
		st.pc = u.bdd.And(st.pc, ok)
		return args[0], st
	case "sort.Strings", "sort.Ints", "slices.Sort":
		e.effect(&Effect{kind: "sort", name: name, args: args}, f, in, st)
		return u.mk(OTuple, "", nil), st
	case "slices.Reverse":
		e.effect(&Effect{kind: "reverse", name: name, args: args}, f, in, st)
		return u.mk(OTuple, "", nil), st
	case "slices.Compact":
		t := u.mk(OCall, name, typ, args...)
		e.effect(&Effect{kind: "call", name: name, args: args, res: t}, f, in, st)
		return t, st
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
		L := e.callbackLoop(f, in, name, args[0], st)
		a := u.mk(OParam, fmt.Sprintf("cmp%d.a", L.id), nil)
		b := u.mk(OParam, fmt.Sprintf("cmp%d.b", L.id), nil)
		if strings.HasPrefix(name, "sort.") {
			a.typ, b.typ = types.Typ[types.Int], types.Typ[types.Int]
		}
		r, st2 := e.callback(f, in, L, args[1], []*Term{a, b}, st, "cmp")
		L.ret = r
		e.effect(&Effect{kind: "sort", name: name, args: args, res: r}, f, in, st)
		_ = st2
		return u.mk(OTuple, "", nil), st
	case "sort.Sort", "sort.Stable":
		var r *Term
		if less := e.lessOf(in); less != nil {
			L := e.callbackLoop(f, in, name, args[0], st)
			a := u.mk(OParam, fmt.Sprintf("cmp%d.a", L.id), types.Typ[types.Int])
			b := u.mk(OParam, fmt.Sprintf("cmp%d.b", L.id), types.Typ[types.Int])
			r, _ = e.callback(f, in, L, less, []*Term{args[0], a, b}, st, "cmp")
			L.ret = r
		}
		if r == nil {
			if T := stdSlice(in); T != "" {
				name = T
			}
		}
		e.effect(&Effect{kind: "sort", name: name, args: args, res: r}, f, in, st)
		return u.mk(OTuple, "", nil), st
	case "slices.DeleteFunc":
		L := e.callbackLoop(f, in, name, args[0], st)
		el := u.intern(Term{op: OElem, args: []*Term{args[0]}, loop: L, typ: sliceElem(args[0].typ)})
		r, st2 := e.callback(f, in, L, args[1], []*Term{el}, st, "del")
		L.ret = r
		c := u.bdd.Restrict(u.bdd.Not(u.Cond(r)), st.pc)
		t := u.intern(Term{op: OFilter, args: []*Term{args[0]}, node: c, loop: L, typ: typ})
		e.effect(&Effect{kind: "deletefunc", name: name, args: args, res: t}, f, in, st)
		return t, st2
	case "maps.DeleteFunc":
		L := e.callbackLoop(f, in, name, args[0], st)
		key := u.intern(Term{op: OKey, args: []*Term{args[0]}, loop: L})
		v, _ := e.lookup(st.mem, args[0], key, mapElem(args[0].typ))
		r, st2 := e.callback(f, in, L, args[1], []*Term{key, v}, st, "del")
		L.ret = r
		s := st
		s.pc = u.bdd.And(st.pc, u.Cond(r))
		e.loopSt = append(e.loopSt, L)
		e.effect(&Effect{kind: "mapdel", name: name, args: []*Term{args[0], key}}, f, in, s)
		e.loopSt = e.loopSt[:len(e.loopSt)-1]
		return u.mk(OTuple, "", nil), st2
	case "slices.ContainsFunc", "slices.IndexFunc":
		L := e.callbackLoop(f, in, name, args[0], st)
		el := u.intern(Term{op: OElem, args: []*Term{args[0]}, loop: L, typ: sliceElem(args[0].typ)})
		r, st2 := e.callback(f, in, L, args[1], []*Term{el}, st, "pred")
		L.ret = r
		c := u.bdd.Restrict(u.Cond(r), st.pc)
		at := u.intern(Term{op: OExists, aux: "/0", node: c, loop: L, typ: bt})
		L.exits = append(L.exits, LoopExit{cond: c, atom: at})
		if name == "slices.ContainsFunc" {
			return u.Bool(u.Atom(at)), st2
		}
		return u.mk(OCall, name, typ, at), st2
	case "golang.org/x/tools/go/packages.Visit":
		out := st
		for i, what := range []string{"pre", "post"} {
			fn := args[1+i]
			if u.isNil(fn) {
				continue
			}
			L := e.callbackLoop(f, in, name+"."+what, args[0], out)
			el := u.intern(Term{op: OElem, args: []*Term{u.mk(OCall, "import-closure", args[0].typ, args[0])}, loop: L, typ: sliceElem(args[0].typ)})
			r, o := e.callback(f, in, L, fn, []*Term{el}, out, what)
			L.ret = r
			out = o
		}
		return u.mk(OTuple, "", nil), out
	case "golang.org/x/tools/go/ast/astutil.Apply":
		out := st
		for i, what := range []string{"pre", "post"} {
			fn := args[1+i]
			if u.isNil(fn) {
				continue
			}
			L := e.callbackLoop(f, in, name+"."+what, args[0], out)
			cur := u.intern(Term{op: OElem, args: []*Term{u.mk(OCall, "cursors", nil, args[0])}, loop: L})
			r, o := e.callback(f, in, L, fn, []*Term{cur}, out, what)
			L.ret = r
			out = o
		}
		t := u.mk(OCall, name+"#"+e.site(f, in), typ, args...)
		e.effect(&Effect{kind: "call", name: name, args: args, res: t}, f, in, out)
		return t, out
	case "go/ast.Inspect":
		L := e.callbackLoop(f, in, name, args[0], st)
		el := u.intern(Term{op: OElem, args: []*Term{u.mk(OCall, "nodes", nil, args[0])}, loop: L, typ: c.Args[0].Type()})
		r, o := e.callback(f, in, L, args[1], []*Term{el}, st, "f")
		L.ret = r
		e.effect(&Effect{kind: "call", name: name, args: args}, f, in, o)
		return u.mk(OTuple, "", nil), o
	case "flag.StringVar", "flag.BoolVar", "flag.IntVar":
		fl := u.mk(OCall, strings.TrimSuffix(name, "Var"), types.NewPointer(elemTypeOr(c.Args[0].Type())), args[1:]...)
		e.effect(&Effect{kind: "call", name: name, args: args}, f, in, st)
		st.mem = e.store(st.mem, args[0], u.mk(ODeref, "", elemType(c.Args[0].Type()), fl), elemType(c.Args[0].Type()))
		return u.mk(OTuple, "", nil), st
	case "flag.String", "flag.Bool", "flag.Int":
		t := u.mk(OCall, name, typ, args...)
		e.effect(&Effect{kind: "call", name: name, args: args, res: t}, f, in, st)
		return t, st
	}
	if strings.HasSuffix(name, ").Enum") && strings.HasPrefix(name, "("+protoPath) {
		return args[0], st
	}
	// callbacks handed to code we do not see: analyse them for their effects
	out := st
	for i, a := range args {
		if fn, ok := a.obj.(*ssa.Function); ok && (a.op == OClosure || a.op == OFunc) && e.inlinable(fn) {
			L := e.callbackLoop(f, in, name, nil, out)
			var ps []*Term
			for j, p := range fn.Params {
				ps = append(ps, u.mk(OParam, fmt.Sprintf("cb%d.%d:%s", L.id, j, p.Name()), p.Type()))
			}
			r, o := e.callback(f, in, L, a, ps, out, "arg"+strconv.Itoa(i))
			L.ret = r
			out = o
		}
	}
	st = out
	var res *Term
	if pureCall(name) {
		res = e.pureTerm(name, args, typ)
	} else {
		res = u.mk(OCall, name+"#"+e.site(f, in), typ, args...)
	}
	if tup, ok := typ.(*types.Tuple); ok && tup.Len() == 0 {
		res = u.mk(OTuple, "", nil)
	}
	kind := "call"
	if invoke {
		kind = "invoke"
	}
	e.effect(&Effect{kind: kind, name: name, args: args, res: res}, f, in, st)
	if terminates(name) {
		return res, State{False, st.mem}
	}
	if !pureCall(name) {
		st.mem = e.anyFilled(st.mem, args)
		// contents reachable from local objects handed over may change
		for _, a := range args {
			for _, o := range e.escaping(st.mem, a) {
				typ := elemTypeOr(o.typ)
				st.mem = e.killSub(st.mem, o, typ)
				mod := u.mk(OMod, name+"#"+e.site(f, in), typ, append([]*Term{o}, args...)...)
				st.mem = st.mem.set(o, mod)
			}
		}
	}
	return res, st
}

func (e *Eval) pureTerm(name string, args []*Term, typ types.Type) *Term {
	for i, a := range args {
		if a.op == OGate && len(a.args) <= 4 {
			var out []alt
			for j, x := range a.args {
				b := append([]*Term(nil), args...)
				b[i] = x
				out = append(out, alt{a.conds[j], e.pureTerm(name, b, typ)})
			}
			if _, ok := typ.(*types.Tuple); ok {
				return e.gateTuple(out, True, typ)
			}
			return e.Gate(out, True, typ)
		}
	}
	t := e.mk(OCall, name, typ, args...)
	if isBoolType(typ) {
		return e.Bool(e.Atom(t))
	}
	return t
}

// escaping lists local objects an impure callee could modify through t,
// directly or through pointers in their fields.
func (e *Eval) escaping(m *Mem, t *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		switch t.op {
		case OObj:
			oi, ok := t.obj.(*ObjInfo)
			if !ok || oi.kind != "alloc" || seen[t] {
				return
			}
			seen[t] = true
			out = append(out, t)
			for _, f := range structFields(elemType(t.typ)) {
				if v := m.get(e.FAddr(t, f.Name(), f.Type())); v != nil {
					rec(v)
				}
			}
		case OGate, OList:
			for _, a := range t.args {
				rec(a)
			}
		}
	}
	rec(t)
	return out
}

func sliceElem(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

// lessOf finds the Less method of the value passed to sort.Sort.
func (e *Eval) lessOf(in ssa.Instruction) *Term {
	fn := e.methodOf(in, "Less")
	if fn == nil {
		return nil
	}
	return e.intern(Term{op: OFunc, aux: fn.String(), obj: fn, typ: fn.Signature})
}

// methodOf finds a method of the concrete value that a call is given as its
// first argument.
func (e *Eval) methodOf(in ssa.Instruction, name string) *ssa.Function {
	c, ok := in.(ssa.CallInstruction)
	if !ok || len(c.Common().Args) == 0 {
		return nil
	}
	mi, ok := c.Common().Args[0].(*ssa.MakeInterface)
	if !ok {
		return nil
	}
	sel := e.prog.prog.MethodSets.MethodSet(mi.X.Type()).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	fn := e.prog.prog.MethodValue(sel)
	if fn == nil || fn.Blocks == nil {
		return nil
	}
	return fn
}

// ownWriter finds the Write method of a writer of the repository's own type
// that a call prints to.
func (e *Eval) ownWriter(in ssa.Instruction) *ssa.Function {
	fn := e.methodOf(in, "Write")
	if fn == nil || fn.Signature.Recv() == nil {
		return nil
	}
	t := fn.Signature.Recv().Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path()+"/", modulePath+"/") {
		return nil
	}
	return fn
}

// stdSlice names the function that sorts like sort.Sort does with a slice type
// of package sort.
func stdSlice(in ssa.Instruction) string {
	if c, ok := in.(ssa.CallInstruction); ok && len(c.Common().Args) > 0 {
		if mi, ok := c.Common().Args[0].(*ssa.MakeInterface); ok {
			switch mi.X.Type().String() {
			case "sort.StringSlice":
				return "sort.Strings"
			case "sort.IntSlice":
				return "sort.Ints"
			}
		}
	}
	return ""
}

func (e *Eval) callbackLoop(f *Frame, in ssa.Instruction, kind string, container *Term, st State) *Loop {
	L := e.loopFor(fmt.Sprintf("cb:%d:%s:%d:%s", f.id, f.fn, e.inum(in), kind), f)
	L.kind = kind
	L.container = original(container)
	L.pc = st.pc
	L.pos = in.Pos()
	return L
}

// callback evaluates a function value as the body of loop L.
func (e *Eval) callback(f *Frame, in ssa.Instruction, L *Loop, fn *Term, args []*Term, st0 State, tag string) (*Term, State) {
	effStart := len(e.effects)
	mods := map[*Term]bool{}
	var modOrder []*Term
	for pass := 0; ; pass++ {
		e.effects = e.effects[:effStart]
		L.init, L.back, L.exits = map[*Term]*Term{}, map[*Term]*Term{}, nil
		st := st0
		for _, l := range modOrder {
			if l.op == OEntry {
				st.mem = e.forget(st.mem, l)
				continue
			}
			lv := e.intern(Term{op: OLV, aux: "m" + strconv.Itoa(l.id), loop: L, typ: elemTypeOr(l.typ), obj: l})
			old := st.mem.get(l)
			if old == nil {
				old = e.locDefault(st.mem, l)
			}
			L.init[lv] = old
			st.mem = e.store(st.mem, l, lv, elemTypeOr(l.typ))
		}
		hdr := st
		e.loopSt = append(e.loopSt, L)
		r, out := e.callVal1(f, in, fn, args, st, tag)
		e.loopSt = e.loopSt[:len(e.loopSt)-1]
		grew := false
		for _, l := range e.changed(hdr.mem, out.mem, L) {
			if !mods[l] {
				mods[l] = true
				modOrder = append(modOrder, l)
				grew = true
			}
		}
		for _, l := range modOrder {
			if l.op == OEntry {
				continue
			}
			lv := e.intern(Term{op: OLV, aux: "m" + strconv.Itoa(l.id), loop: L, typ: elemTypeOr(l.typ), obj: l})
			L.back[lv] = e.load1(out.mem, l, elemTypeOr(l.typ))
		}
		if pass > 12 {
			e.problem("callback of %s: memory does not stabilise", L.kind)
			return r, hdr
		}
		if !grew {
			hdr.pc = e.bdd.And(hdr.pc, e.liftTerminal(L, st0.pc, True, effStart))
			return r, hdr
		}
	}
}

// callVal1 calls a function value with explicit arguments.
func (e *Eval) callVal1(f *Frame, in ssa.Instruction, fn *Term, args []*Term, st State, tag string) (*Term, State) {
	var sts []State
	var alts []alt
	var rt types.Type
	for i, a := range e.alts(fn) {
		s := st
		s.pc = e.bdd.And(st.pc, a.c)
		if s.pc == False || e.isNil(a.t) {
			continue
		}
		tg := tag
		if i > 0 {
			tg += strconv.Itoa(i)
		}
		g, _ := a.t.obj.(*ssa.Function)
		if g == nil {
			e.effect(&Effect{kind: "dyncall", args: append([]*Term{a.t}, args...)}, f, in, s)
			sts = append(sts, s)
			alts = append(alts, alt{s.pc, e.mk(OCall, "dyn#"+e.site(f, in)+tg, nil, append([]*Term{a.t}, args...)...)})
			continue
		}
		c := &ssa.CallCommon{Value: g}
		rt = resultType(c)
		r, o := e.callTerm(f, in, c, a.t, args, s, tg)
		if o.pc == False {
			continue
		}
		sts = append(sts, o)
		alts = append(alts, alt{o.pc, r})
	}
	if len(sts) == 0 {
		return e.mk(OZero, "unreachable", nil), State{False, st.mem}
	}
	out := e.merge(sts)
	return e.gateTuple(alts, out.pc, rt), out
}

// iterate models calling an iterator function with a yield function, which is
// what ranging over a function compiles to.
func (e *Eval) iterate(f *Frame, in ssa.Instruction, c *ssa.CallCommon, it *Term, args []*Term, st State) (*Term, State) {
	x := it.args[0]
	kind := "map"
	switch it.aux {
	case "slices.Values", "slices.All", "slices.Backward":
		kind = "index"
	}
	L := e.callbackLoop(f, in, kind, x, st)
	L.reversed = it.aux == "slices.Backward"
	var ps []*Term
	key := e.intern(Term{op: OKey, args: []*Term{x}, loop: L})
	if m, ok := typeUnder(x.typ).(*types.Map); ok {
		key.typ = m.Key()
	}
	idx := e.intern(Term{op: OIdx, loop: L, typ: types.Typ[types.Int]})
	el := e.intern(Term{op: OElem, args: []*Term{x}, loop: L, typ: sliceElem(x.typ)})
	switch it.aux {
	case "maps.Keys":
		ps = []*Term{key}
	case "maps.Values":
		v, _ := e.lookup(st.mem, x, key, mapElem(x.typ))
		ps = []*Term{v}
	case "maps.All":
		v, _ := e.lookup(st.mem, x, key, mapElem(x.typ))
		ps = []*Term{key, v}
	case "slices.Values":
		ps = []*Term{el}
	case "slices.All", "slices.Backward":
		ps = []*Term{idx, el}
	}
	r, o := e.callback(f, in, L, args[0], ps, st, "yield")
	L.ret = r
	if n := e.Cond(r); n != True && e.bdd.Restrict(n, st.pc) != True {
		c := e.bdd.Not(e.bdd.Restrict(n, st.pc))
		at := e.intern(Term{op: OExists, aux: "/0", node: c, loop: L, typ: types.Typ[types.Bool]})
		L.exits = append(L.exits, LoopExit{cond: c, atom: at})
	}
	return e.mk(OTuple, "", nil), o
}

func typeUnder(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}
