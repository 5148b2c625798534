package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C23", "RunCapslock is evaluated for every output name and for a name that is none of them, with the four analyses kept as "+
		"calls. The analysis called must be that of the documented mode, be given the caller's packages and configuration, and "+
		"its result must reach the encoder, the template or the printing loop as it is; arguments that the mode does not take "+
		"must give an error before anything is analysed or printed. The templates are parsed and walked: every capability, count "+
		"and path element must be printed in the loops over the lists that hold them, under no condition other than that the list "+
		"has elements. Failures of writes, encoding and flushing must lead to an error result.", ruleC23)
}

// outputMode is a documented output mode.
type outputMode struct {
	names    []string
	analysis string
}

var outputModes = []outputMode{
	{[]string{"json", "j"}, "GetCapabilityInfo"},
	{[]string{"m", "machine"}, "GetCapabilityCounts"},
	{[]string{"v", "verbose"}, "GetCapabilityStats"},
	{[]string{"g", "graph"}, "CapabilityGraph"},
	{[]string{"compare"}, "GetCapabilityInfo"},
	// any other name gives the short report
	{[]string{"", "another"}, "GetCapabilityCounts"},
}

func ruleC23(c *Check) {
	for _, m := range outputModes {
		for _, name := range m.names {
			c.dispatched(m, name)
		}
	}
	c.need("vacuity", "output names", c.stats["output_names"], 11)
	c.need("vacuity", "reports printed", c.stats["reports_printed"], 8)
	c.need("vacuity", "templates", c.stats["templates"], 4)
	c.need("vacuity", "template values", c.stats["template_values"], 28)
	c.need("vacuity", "failures followed", c.stats["failures_followed"], 8)
	c.outputOptions()
}

// outputOptions: the command passes its options and arguments on.
func (c *Check) outputOptions() {
	m := c.command("/cmd/capslock")
	if m == nil {
		return
	}
	defer c.problems(m.e, "main")
	m.parsed()
	n := 0
	for _, ef := range m.e.effects {
		if ef.name != anaPkg+".RunCapslock" {
			continue
		}
		n++
		sig := ef.instr.(ssa.CallInstruction).Common().Signature()
		for i := 0; i < sig.Params().Len() && i < len(ef.args); i++ {
			a := ef.args[i]
			switch t := sig.Params().At(i).Type(); {
			case isStringType(t):
				if !m.e.isFlag(a, "output") {
					c.failEff("options", ef, "the output mode is %s, not the option -output", m.short(a))
				} else {
					c.okEff("options", ef)
				}
			case t.String() == "[]string":
				if !(a.op == OCall && strings.HasPrefix(a.aux, "flag.Args")) {
					c.failEff("options", ef, "the arguments are %s, not those of the command line", m.short(a))
				} else {
					c.okEff("options", ef)
				}
			}
		}
	}
	c.need("vacuity", "calls to RunCapslock", n, 1)
}

// dispatched checks one output name.
func (c *Check) dispatched(m outputMode, name string) {
	ops := map[string]bool{}
	for _, x := range outputModes {
		ops[anaPkg+"."+x.analysis] = true
	}
	eval := func(noArgs bool) (*Sem, *Frame) {
		c.opaque = ops
		defer func() { c.opaque = nil }()
		return c.semArgs("/analyzer", "RunCapslock", nil, func(e *Eval, p *ssa.Parameter) *Term {
			switch {
			case isStringType(p.Type()):
				return e.Const(strconv.Quote(name), p.Type())
			case noArgs && p.Type().String() == "[]string":
				return e.Nil()
			}
			return nil
		}, "/analyzer")
	}
	// which arguments are accepted
	s, f := eval(false)
	if s == nil {
		return
	}
	c.count("output_names", 1)
	r := &modeRun{s: s, f: f, mode: m, name: name, what: "-output=" + name}
	r.arguments()
	c.problems(s.e, s.name)
	if m.names[0] == "compare" {
		return // what is printed is checked with the comparison
	}
	s, f = eval(true)
	r = &modeRun{s: s, f: f, mode: m, name: name, what: "-output=" + name}
	r.report()
	c.problems(s.e, s.name)
	if name == "graph" {
		for _, filtered := range []bool{false, true} {
			s, f := c.graphRun(filtered)
			if s == nil {
				continue
			}
			r := &modeRun{s: s, f: f, mode: m, name: name, what: "-output=" + name}
			r.failures()
			c.problems(s.e, s.name)
		}
	}
}

type modeRun struct {
	s    *Sem
	f    *Frame
	mode outputMode
	name string
	what string
}

// analyses lists the calls to analyses.
func (r *modeRun) analyses() []*Effect {
	var out []*Effect
	for _, ef := range r.s.e.effects {
		for _, x := range outputModes {
			if ef.kind == "call" && ef.name == anaPkg+"."+x.analysis {
				out = append(out, ef)
				break
			}
		}
	}
	return out
}

// failed is the condition that the run reports an error.
func (r *modeRun) failed() Node {
	e := r.s.e
	n := r.s.exited()
	for _, x := range r.f.rets {
		v := x.vals[len(x.vals)-1]
		n = e.bdd.Or(n, e.bdd.And(x.st.pc, e.bdd.Not(e.Cond(e.Eq(v, e.Nil())))))
	}
	return n
}

// arguments checks that stray arguments are rejected.
func (r *modeRun) arguments() {
	s, c, e := r.s, r.s.c, r.s.e
	args := s.paramOf("[]string")
	if strings.HasPrefix(args.aux, "missing") {
		c.fail("anchor", "-", s.fn, "no parameter for the arguments")
		return
	}
	want := int64(0)
	if r.mode.names[0] == "compare" {
		want = 1
	}
	right := e.Cond(e.Eq(e.Len(args), e.Int(int(want))))
	stray := e.bdd.Not(right)
	for _, ef := range e.effects {
		if ef.init {
			continue
		}
		_, isWrite := e.asWrite(ef)
		isAnalysis := false
		for _, a := range r.analyses() {
			isAnalysis = isAnalysis || a == ef
		}
		if (isAnalysis || isWrite && r.stdout(ef)) && e.bdd.And(ef.pc, stray, s.care(ef.pc, stray)) != False {
			c.failEff("stray arguments", ef, "with %s, an analysis is run or output printed although the number of arguments is not %d", r.what, want)
			return
		}
	}
	ok := r.failed()
	if x := e.bdd.And(stray, e.bdd.Not(ok), s.care(stray, ok)); x != False {
		c.fail("stray arguments", "-", s.fn, "with %s, a number of arguments other than %d is accepted: %s", r.what, want, s.cube(x))
		return
	}
	ran := False
	for _, ef := range r.analyses() {
		ran = e.bdd.Or(ran, ef.pc)
	}
	if e.bdd.And(right, ran) == False {
		c.fail("stray arguments", "-", s.fn, "with %s, no analysis is run with the right number of arguments", r.what)
		return
	}
	if want == 1 {
		used := false
		for _, ef := range e.effects {
			if strings.HasPrefix(ef.name, "os.Open") || strings.HasPrefix(ef.name, "os.ReadFile") {
				a := ef.args[0]
				used = used || a == e.load(ef.mem, e.mk(OIAddr, "", nil, args, e.Int(0)), types.Typ[types.String]) || (a.op == OIndex || a.op == OElem) && a.args[0] == args
			}
		}
		if !used {
			c.fail("stray arguments", "-", s.fn, "with %s, the file named by the argument is not read", r.what)
			return
		}
		for _, ef := range r.analyses() {
			r.called(ef)
		}
	}
	c.ok("stray arguments", s.fn+" "+r.what)
}

func (r *modeRun) stdout(ef *Effect) bool {
	w, ok := r.s.e.asWrite(ef)
	return ok && r.s.e.toStdout(w.to)
}

// called checks which analysis is called, and with what.
func (r *modeRun) called(ef *Effect) bool {
	s, c, e := r.s, r.s.c, r.s.e
	if ef.name != anaPkg+"."+r.mode.analysis {
		c.failEff("mode", ef, "%s reports the result of %s, not of %s", r.what, shortName(ef.name), r.mode.analysis)
		return false
	}
	sig := ef.instr.(ssa.CallInstruction).Common().Signature()
	good := true
	for i := 0; i < sig.Params().Len() && i < len(ef.args); i++ {
		t := sig.Params().At(i).Type()
		p := s.paramOf(t.String())
		if strings.HasPrefix(p.aux, "missing") {
			continue // callbacks
		}
		a := ef.args[i]
		if a == p {
			continue
		}
		if pt, ok := t.Underlying().(*types.Pointer); ok && a.op == OObj && r.copied(a, p, pt.Elem(), ef) {
			continue
		}
		c.failEff("mode", ef, "with %s the analysis is given %s for %s", r.what, s.short(a), s.short(p))
		good = false
	}
	// the configuration is not changed on the way
	for _, x := range e.effects {
		if x.init || x.seq >= ef.seq || !r.changes(x, s.paramOf("*"+anaPkg+".Config"), s.paramOf("[]*golang.org/x/tools/go/packages.Package"), s.queriedSet()) {
			continue
		}
		if r.mode.names[0] == "compare" {
			continue // the granularity is taken from the file
		}
		if e.bdd.And(x.pc, ef.pc) != False {
			c.failEff("mode", x, "with %s the packages or the configuration given are changed before the analysis", r.what)
			good = false
		}
	}
	if good {
		c.okEff("mode", ef)
	}
	return good
}

// copied: the object holds the same fields as the parameter.
func (r *modeRun) copied(obj, p *Term, t types.Type, ef *Effect) bool {
	e := r.s.e
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if e.load(ef.mem, e.FAddr(obj, f.Name(), f.Type()), f.Type()) != e.load(ef.mem, e.FAddr(p, f.Name(), f.Type()), f.Type()) {
			return false
		}
	}
	return true
}

// changes: the effect writes to something held by one of the roots.
func (r *modeRun) changes(ef *Effect, roots ...*Term) bool {
	switch ef.kind {
	case "mapset", "mapdel", "mapcopy", "store", "fieldset", "deletefunc", "clear", "copy", "reverse":
	case "call", "invoke":
		if !strings.Contains(ef.name, "proto.Reset") && !strings.Contains(ef.name, "proto.Merge") && !strings.HasSuffix(ef.name, ").Reset") {
			return false
		}
	default:
		return false
	}
	if len(ef.args) == 0 {
		return false
	}
	t := ef.args[0]
	for t != nil {
		for _, x := range roots {
			if x != nil && t == x {
				return true
			}
		}
		switch t.op {
		case OField, OFAddr, OIAddr, OIndex, OLookup, OElem, ODeref, OSlice, OConv, OExtract:
			t = t.args[0]
		default:
			return false
		}
	}
	return false
}

// report checks that the result of the analysis is printed as it is.
func (r *modeRun) report() {
	s, c, e := r.s, r.s.c, r.s.e
	var call *Effect
	as := r.analyses()
	if len(as) == 0 {
		c.fail("mode", "-", s.fn, "with %s no analysis is run", r.what)
		return
	}
	for _, ef := range as {
		if e.bdd.And(ef.pc, s.total) == False {
			continue
		}
		if !r.called(ef) {
			return
		}
		if call != nil {
			c.failEff("mode", ef, "with %s two analyses are run", r.what)
			return
		}
		call = ef
	}
	if call == nil || len(call.loops) > 0 || e.bdd.And(s.total, e.bdd.Not(call.pc)) != False {
		c.failEff("mode", as[0], "with %s the analysis is not always run", r.what)
		return
	}
	if r.mode.analysis == "CapabilityGraph" {
		c.count("reports_printed", 1)
		return // what the callbacks print is checked below
	}
	rep := call.res
	for _, ef := range e.effects {
		if r.changes(ef, rep) {
			c.failEff("unaltered", ef, "with %s the report is changed before it is printed", r.what)
			return
		}
	}
	done := False
	for _, ef := range e.effects {
		var n Node
		switch {
		case ef.init:
			continue
		case strings.HasSuffix(ef.name, "template.Template).Execute") || strings.HasSuffix(ef.name, "template.Template).ExecuteTemplate"):
			n = r.template(ef, rep)
		default:
			w, ok := e.asWrite(ef)
			if !ok || !e.toStdout(w.to) {
				continue
			}
			n = r.printed(w, rep)
		}
		done = e.bdd.Or(done, n)
	}
	if r.mode.names[0] == "m" {
		done = r.listed(rep)
	}
	// unless something failed before
	ok := r.failed()
	if x := e.bdd.And(call.pc, s.total, e.bdd.Not(done), e.bdd.Not(ok), s.care(done, ok)); x != False {
		c.failEff("printed", call, "with %s the report is not always printed: %s", r.what, s.cube(x))
		return
	}
	c.count("reports_printed", 1)
	c.okEff("printed", call)
	r.failures()
}

// printed: the write prints the whole report as JSON.
func (r *modeRun) printed(w write, rep *Term) Node {
	s, c, e := r.s, r.s.c, r.s.e
	if r.mode.names[0] != "json" {
		if r.mode.names[0] != "m" && !r.rendered(w) {
			c.failEff("printed", w.ef, "with %s something other than the report is printed", r.what)
		} else if r.rendered(w) {
			return w.ef.pc
		}
		return False
	}
	n := False
	for _, p := range w.pieces {
		if p.term == nil {
			if strings.TrimSpace(p.text) != "" {
				c.failEff("printed", w.ef, "with %s the text %q is printed beside the report", r.what, p.text)
			}
			continue
		}
		for _, a := range e.alts(p.term) {
			t := unconv(a.t)
			for t.op == OAppend && t.args[1].op == OList || t.op == OConv {
				t = t.args[0]
			}
			if t.op == OExtract {
				t = t.args[0]
			}
			i := 0
			switch {
			case t.op == OCall && strings.HasPrefix(t.aux, "(google.golang.org/protobuf/encoding/protojson.MarshalOptions)."):
				i = 1
				for _, f := range []string{"UseProtoNames", "UseEnumNumbers"} {
					if x := e.Field(t.args[0], f, types.Typ[types.Bool]); e.Cond(x) != False {
						c.failEff("printed", w.ef, "with %s the report is printed with the option %s", r.what, f)
					}
				}
			case t.op == OCall && strings.HasPrefix(t.aux, "google.golang.org/protobuf/encoding/protojson."):
			default:
				c.failEff("printed", w.ef, "with %s, %s is printed, which is not the report as JSON", r.what, s.short(a.t))
				continue
			}
			if i >= len(t.args) || unconv(t.args[i]) != rep {
				c.failEff("printed", w.ef, "with %s, %s is printed, which is not the report of the analysis", r.what, s.short(a.t))
				continue
			}
			n = e.bdd.Or(n, e.bdd.And(w.ef.pc, a.c))
		}
	}
	if len(w.ef.loops) > 0 {
		c.failEff("printed", w.ef, "with %s the report is printed in a loop", r.what)
	}
	return n
}

// rendered: the write prints what a template left in a buffer.
func (r *modeRun) rendered(w write) bool {
	for _, p := range w.pieces {
		if p.term == nil {
			continue
		}
		t := unconv(p.term)
		if !(t.op == OCall && len(t.args) == 1 && (strings.Contains(t.aux, ").Bytes") || strings.Contains(t.aux, ").String"))) {
			return false
		}
		for _, ef := range r.s.e.effects {
			if strings.Contains(ef.name, "template.Template).Execute") && unconv(ef.args[1]) == t.args[0] {
				return true
			}
		}
	}
	return false
}

// noErrors is the condition that no write to standard output failed.
func (r *modeRun) noErrors() Node {
	e := r.s.e
	n := True
	for _, ef := range e.effects {
		if err := e.errOf(ef); err != nil && !ef.init && (r.stdout(ef) || strings.HasSuffix(ef.name, ".Flush")) {
			n = e.bdd.And(n, e.Cond(e.Eq(err, e.Nil())))
		}
	}
	return n
}

// listed: every key of the counts is printed on a line.
func (r *modeRun) listed(rep *Term) Node {
	s, c, e := r.s, r.s.c, r.s.e
	counts := e.Field(rep, "CapabilityCounts", nil)
	noErr := r.noErrors()
	done := False
	for _, l := range lines(s.stdoutWrites()) {
		ef := l.writes[0].ef
		var named []*Term
		for _, p := range l.pieces {
			if p.term != nil {
				named = append(named, p.term)
			} else if strings.TrimSpace(p.text) != "" {
				c.failEff("printed", ef, "with %s the text %q is printed beside the names", r.what, p.text)
			}
		}
		if len(named) != 1 {
			c.failEff("printed", ef, "with %s a line names %d things, expected one capability", r.what, len(named))
			continue
		}
		for _, x := range s.q.expand(s.q.event(ef, named[0])) {
			k := unconv(s.norm(x.terms[0], nil))
			if !(k.op == OKey && r.countsOf(k.args[0], counts)) {
				c.failEff("printed", ef, "with %s, %s is printed, which is not one of the capabilities counted", r.what, s.short(k))
				continue
			}
			if x.cut {
				c.failEff("printed", ef, "with %s only a part of the capabilities is printed", r.what)
			}
			for _, L := range append(append([]*Loop(nil), x.loops...), x.via...) {
				for _, ex := range L.exits {
					if e.bdd.And(ex.cond, noErr) != False {
						c.failEff("printed", ef, "with %s the listing stops early: %s", r.what, s.cube(ex.cond))
					}
				}
			}
			n := e.bdd.Restrict(x.pc, noErr)
			// loops entered only for lists that are not empty
			if y := e.bdd.And(s.total, noErr, e.bdd.Not(n), s.loopCare(n, x.loops, x.cont), s.care(n)); y != False {
				c.failEff("printed", ef, "with %s some capabilities are not printed: %s", r.what, s.cube(y))
				continue
			}
			done = True
			c.okEff("printed", ef)
		}
	}
	return done
}

func (r *modeRun) countsOf(t, counts *Term) bool {
	t = unconv(t)
	if t == counts || t.op == OField && t.aux == "CapabilityCounts" && t.args[0] == counts.args[0] {
		return true
	}
	return t.op == OCall && strings.HasSuffix(t.aux, ").GetCapabilityCounts") && t.args[0] == counts.args[0]
}

// failures: what cannot be written, encoded or flushed gives an error.
func (r *modeRun) failures() {
	s, c, e := r.s, r.s.c, r.s.e
	failed := r.failed()
	s.surfaced("failures", failed, nil, "an error result")
	// buffered output is flushed
	for _, ef := range e.effects {
		var to *Term
		if w, ok := e.asWrite(ef); ok {
			to = w.to
		} else if strings.Contains(ef.name, "template.Template).Execute") {
			to = ef.args[1]
		}
		if to == nil || ef.init || !e.toStdout(to) {
			continue
		}
		for _, a := range e.alts(to) {
			b := unconv(a.t)
			if b.op != OCall {
				continue
			}
			n, l := s.raise(e.bdd.And(ef.pc, a.c), nil)
			if l != nil {
				continue
			}
			flushed := failed
			for _, x := range e.effects {
				if strings.HasSuffix(x.name, ".Flush") && len(x.args) > 0 && unconv(x.args[0]) == b && x.res != nil && x.seq > ef.seq && len(x.loops) == 0 {
					flushed = e.bdd.Or(flushed, x.pc)
				}
			}
			bad := False
			for _, k := range n {
				for _, L := range ef.loops {
					for _, v := range e.bdd.Support(k) {
						if e.inLoop(e.atoms[v], L) {
							k = e.bdd.Exists(k, v)
						}
					}
				}
				bad = e.bdd.Or(bad, e.bdd.And(k, e.bdd.Not(flushed), s.care(k, flushed)))
			}
			if bad != False {
				c.failEff("failures", ef, "with %s what is written here stays in a buffer that is not flushed, or the error of flushing it is lost: %s", r.what, s.cube(bad))
			}
		}
	}
}

// inLoop: the term depends on an iteration of the loop.
func (e *Eval) inLoop(t *Term, l *Loop) bool {
	found := false
	e.walk(t, func(x *Term) bool {
		found = found || x.loop == l
		return !found
	})
	return found
}

// embedded lists the files embedded in a package variable, relative to the
// package's directory.
func (c *Check) embedded(global string) (dir string, files []string) {
	i := strings.LastIndex(global, ".")
	if i < 0 {
		return "", nil
	}
	p := c.prog.byPkg[global[:i]]
	if p == nil {
		return "", nil
	}
	for _, f := range p.Syntax {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, sp := range g.Specs {
				v := sp.(*ast.ValueSpec)
				if len(v.Names) != 1 || v.Names[0].Name != global[i+1:] {
					continue
				}
				doc := v.Doc
				if doc == nil {
					doc = g.Doc
				}
				if doc == nil {
					continue
				}
				dir = filepath.Dir(c.prog.fset.Position(f.Pos()).Filename)
				for _, l := range doc.List {
					rest, ok := strings.CutPrefix(l.Text, "//go:embed ")
					if !ok {
						continue
					}
					for _, pat := range strings.Fields(rest) {
						if u, err := strconv.Unquote(pat); err == nil {
							pat = u
						}
						files = append(files, embedFiles(dir, strings.TrimPrefix(pat, "all:"))...)
					}
				}
			}
		}
	}
	return dir, files
}

// embedFiles lists what a pattern embeds.
func embedFiles(dir, pat string) (out []string) {
	ms, _ := filepath.Glob(filepath.Join(dir, filepath.FromSlash(pat)))
	for _, m := range ms {
		filepath.Walk(m, func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.Mode().IsRegular() {
				if rel, err := filepath.Rel(dir, p); err == nil {
					out = append(out, filepath.ToSlash(rel))
				}
			}
			return nil
		})
	}
	return out
}

// parsedTemplate is what a template term is made of.
type parsedTemplate struct {
	name  string            // of the template itself
	texts map[string]string // by name
	files map[string]string
	funcs map[string]*Term
	bad   string
}

func (r *modeRun) parsed(t *Term, out *parsedTemplate) {
	s, c, e := r.s, r.s.c, r.s.e
	t = unconv(t)
	if t.op == OExtract {
		t = t.args[0]
	}
	if t.op != OCall {
		out.bad = "undecided: how the template " + s.short(t) + " is made"
		return
	}
	n := t.aux
	if i := strings.Index(n, "#"); i >= 0 {
		n = n[:i]
	}
	n = n[strings.LastIndex(n, "/")+1:]
	a := t.args
	switch n {
	case "template.New":
		out.name, _ = unquote(a[0])
	case "template.Must":
		r.parsed(a[0], out)
	case "template.Template).Funcs":
		r.parsed(a[0], out)
		for _, ef := range e.effects {
			if ef.kind == "mapset" && ef.args[0] == unconv(a[1]) {
				if k, ok := unquote(ef.args[1]); ok {
					out.funcs[k] = ef.args[2]
				}
			}
		}
		for _, ef := range e.initEffects {
			if ef.kind == "mapset" && (ef.args[0] == unconv(a[1])) {
				if k, ok := unquote(ef.args[1]); ok {
					out.funcs[k] = ef.args[2]
				}
			}
		}
	case "template.Template).Option", "template.Template).Delims":
		r.parsed(a[0], out)
		if n != "template.Template).Option" {
			out.bad = "undecided: " + n
		}
	case "template.Template).Parse":
		r.parsed(a[0], out)
		if txt, ok := unquote(a[1]); ok {
			out.texts[out.name] = txt
			return
		}
		if x := unconv(a[1]); x.op == ODeref && x.args[0].op == OGlobal {
			dir, fs := c.embedded(x.args[0].aux)
			if len(fs) == 1 {
				out.read(dir, fs[0], out.name)
				return
			}
		}
		out.bad = "undecided: the text of the template " + s.short(a[1])
	case "template.Template).ParseFS", "template.ParseFS":
		if n != "template.ParseFS" {
			r.parsed(a[0], out)
			a = a[1:]
		}
		fs := unconv(a[0])
		if !(fs.op == ODeref && fs.args[0].op == OGlobal) || len(a) < 2 || a[1].op != OList {
			out.bad = "undecided: the files of the template"
			return
		}
		dir, files := c.embedded(fs.args[0].aux)
		for _, p := range a[1].args {
			pat, ok := unquote(p)
			found := false
			for _, f := range files {
				if m, err := path.Match(pat, f); ok && err == nil && m {
					found = true
					if out.name == "" {
						out.name = path.Base(f)
					}
					out.read(dir, f, path.Base(f))
				}
			}
			if !found {
				out.bad = "no embedded file is called " + pat
				return
			}
		}
	default:
		out.bad = "undecided: how the template is made by " + n
	}
}

func (p *parsedTemplate) read(dir, file, name string) {
	b, err := os.ReadFile(filepath.Join(dir, filepath.FromSlash(file)))
	if err != nil {
		p.bad = err.Error()
		return
	}
	p.texts[name] = string(b)
	p.files[name] = file
}

// template checks one execution of a template; it returns the condition under
// which the report is printed by it.
func (r *modeRun) template(ef *Effect, rep *Term) Node {
	s, c, e := r.s, r.s.c, r.s.e
	data := ef.args[len(ef.args)-1]
	if unconv(data) != rep {
		c.failEff("printed", ef, "with %s the template is given %s, not the report", r.what, s.short(data))
		return False
	}
	if w := unconv(ef.args[1]); !e.toStdout(w) {
		// a buffer that is printed
		ok := false
		for _, x := range s.stdoutWrites() {
			ok = ok || r.rendered(x) && x.ef.seq > ef.seq
		}
		if !ok {
			c.failEff("printed", ef, "with %s the template writes to %s, not to standard output", r.what, s.short(w))
			return False
		}
	}
	if len(ef.loops) > 0 {
		c.failEff("printed", ef, "with %s the template is executed in a loop", r.what)
	}
	pt := &parsedTemplate{texts: map[string]string{}, files: map[string]string{}, funcs: map[string]*Term{}}
	r.parsed(ef.args[0], pt)
	name := pt.name
	if len(ef.args) > 3 {
		name, _ = unquote(ef.args[2])
	}
	if pt.bad != "" {
		c.failEff("template", ef, "%s", pt.bad)
		return False
	}
	if _, ok := pt.texts[name]; !ok {
		c.failEff("template", ef, "with %s the template %q is executed, which has no text", r.what, name)
		return False
	}
	r.walkTemplate(ef, pt, name)
	return ef.pc
}

// escapes: a function that templates call gives escape sequences only.
func (r *modeRun) escapes(f *Term, where, name string) {
	c := r.s.c
	fn, ok := unconv(f).obj.(*ssa.Function)
	if !ok || fn.Parent() != nil || fn.Pkg == nil {
		c.fail("template", where, name, "undecided: the function %s called by the template", r.s.short(f))
		return
	}
	s, fr := c.sem(strings.TrimPrefix(fn.Pkg.Pkg.Path(), modulePath), fn.Name())
	if s == nil {
		return
	}
	defer c.problems(s.e, s.name)
	for _, x := range fr.rets {
		for _, a := range s.e.alts(x.vals[0]) {
			t := unconv(a.t)
			if txt, ok := unquote(t); ok && strings.Trim(txt, "\x1b[0123456789;m") == "" {
				continue
			}
			if t.op == OCall && strings.HasSuffix(strings.SplitN(t.aux, "#", 2)[0], "strings.Builder).String") {
				continue
			}
			c.fail("template", c.pos(x.instr.Pos()), fn.Name(), "the template prints %s, which is not part of the report", s.short(a.t))
			return
		}
	}
	for _, w := range s.e.writes() {
		for _, p := range w.pieces {
			if p.term != nil || strings.Trim(p.text, "\x1b[0123456789;m") != "" {
				c.failEff("template", w.ef, "text that is not part of the report is printed by the template")
			}
		}
	}
	c.ok("template", fn.Name())
}
