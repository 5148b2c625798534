package main

import (
	"fmt"
	"sort"
	"strings"
	"text/template/parse"
)

// shown is a value a template prints.
type shown struct {
	val    string   // the path of the value in the data
	ranges []string // the lists it is printed for each element of
	conds  []string // conditions, "!" for else branches
	before string   // text printed just before and after
	after  string
	line   int
}

// said is a text a template prints.
type said struct {
	text  string
	conds []string
}

// tmplWalk walks the parsed templates.
type tmplWalk struct {
	trees  map[string]*parse.Tree
	vars   []tvar
	ranges []string
	conds  []string
	out    []*shown
	texts  []said
	last   *shown
	text   string
	bad    []string
	calls  []tmplCall
	depth  int
	tree   *parse.Tree
}

type tvar struct{ name, val string }

// tmplCall is a call of a function of the program.
type tmplCall struct {
	name string
	args []parse.Node
	line int
}

var tmplBuiltins = map[string]bool{
	"and": true, "or": true, "not": true, "len": true, "index": true, "slice": true, "print": true, "printf": true, "println": true,
	"html": true, "js": true, "urlquery": true, "call": true, "eq": true, "ne": true, "lt": true, "le": true, "gt": true, "ge": true,
}

func (w *tmplWalk) lookup(name string) string {
	for i := len(w.vars) - 1; i >= 0; i-- {
		if w.vars[i].name == name {
			return w.vars[i].val
		}
	}
	return "?" + name
}

func fields(val string, names []string) string {
	for _, n := range names {
		if n != "Get" {
			n = strings.TrimPrefix(n, "Get")
		}
		if n == "String" {
			continue
		}
		val += "." + n
	}
	return val
}

// value is the path of a node's value.
func (w *tmplWalk) value(n parse.Node, dot string) string {
	switch n := n.(type) {
	case *parse.DotNode:
		return dot
	case *parse.FieldNode:
		return fields(dot, n.Ident)
	case *parse.VariableNode:
		return fields(w.lookup(n.Ident[0]), n.Ident[1:])
	case *parse.ChainNode:
		return fields(w.value(n.Node, dot), n.Field)
	case *parse.PipeNode:
		vs := w.pipe(n, dot)
		if len(vs) == 1 {
			return vs[0]
		}
		return n.String()
	case *parse.StringNode:
		return "=" + n.Text
	case *parse.NumberNode, *parse.BoolNode, *parse.NilNode:
		return "=" + n.String()
	}
	return "(" + n.String() + ")"
}

// pipe gives the values a pipeline prints; a value that is computed from
// others is given in brackets.
func (w *tmplWalk) pipe(p *parse.PipeNode, dot string) []string {
	var vals []string
	for i, cmd := range p.Cmds {
		id, ok := cmd.Args[0].(*parse.IdentifierNode)
		if !ok {
			if len(cmd.Args) > 1 || i > 0 {
				w.bad = append(w.bad, "undecided: "+cmd.String())
			}
			vals = []string{w.value(cmd.Args[0], dot)}
			continue
		}
		var args []string
		for _, a := range cmd.Args[1:] {
			args = append(args, w.value(a, dot))
		}
		if i > 0 {
			args = append(args, vals...)
		}
		switch {
		case id.Ident == "print" || id.Ident == "println":
			vals = args
		case id.Ident == "printf":
			vals = nil
			for k, a := range args {
				if k > 0 {
					vals = append(vals, a)
				} else if strings.Contains(a, "%.") || strings.Contains(a, "%c") {
					w.bad = append(w.bad, "undecided: format "+a)
				}
			}
		case tmplBuiltins[id.Ident]:
			vals = []string{"(" + id.Ident + " " + strings.Join(args, " ") + ")"}
		default:
			w.calls = append(w.calls, tmplCall{id.Ident, cmd.Args[1:], 0})
			vals = nil
		}
	}
	return vals
}

func (w *tmplWalk) list(l *parse.ListNode, dot string) {
	if l == nil {
		return
	}
	n := len(w.vars)
	for _, x := range l.Nodes {
		w.node(x, dot)
	}
	w.vars = w.vars[:n]
}

func (w *tmplWalk) under(cond string, f func()) {
	w.conds = append(w.conds, cond)
	f()
	w.conds = w.conds[:len(w.conds)-1]
}

func (w *tmplWalk) print(val string) {
	s := &shown{val: val, ranges: append([]string(nil), w.ranges...), conds: append([]string(nil), w.conds...), before: w.text}
	w.out = append(w.out, s)
	w.last, w.text = s, ""
}

func (w *tmplWalk) say(text string) {
	if w.last != nil {
		w.last.after += text
	}
	w.text += text
	w.texts = append(w.texts, said{text, append([]string(nil), w.conds...)})
}

func (w *tmplWalk) node(n parse.Node, dot string) {
	switch n := n.(type) {
	case *parse.TextNode:
		w.say(string(n.Text))
	case *parse.CommentNode:
	case *parse.ListNode:
		w.list(n, dot)
	case *parse.ActionNode:
		vs := w.pipe(n.Pipe, dot)
		if len(n.Pipe.Decl) > 0 {
			v := "(" + n.Pipe.String() + ")"
			if len(vs) == 1 {
				v = vs[0]
			}
			name := n.Pipe.Decl[0].Ident[0]
			if n.Pipe.IsAssign {
				// known only if it is the same
				if w.lookup(name) != v {
					for i := range w.vars {
						if w.vars[i].name == name {
							w.vars[i].val = "(assigned)"
						}
					}
				}
				return
			}
			w.vars = append(w.vars, tvar{name, v})
			return
		}
		for _, v := range vs {
			if t, ok := strings.CutPrefix(v, "="); ok {
				w.say(t)
			} else {
				w.print(v)
			}
		}
	case *parse.IfNode:
		c := w.cond(n.Pipe, dot)
		w.under(c, func() { w.list(n.List, dot) })
		w.under("!"+c, func() { w.list(n.ElseList, dot) })
		w.drop(n.Pipe)
	case *parse.WithNode:
		c := w.cond(n.Pipe, dot)
		w.under(c, func() { w.list(n.List, c) })
		w.under("!"+c, func() { w.list(n.ElseList, dot) })
		w.drop(n.Pipe)
	case *parse.RangeNode:
		vs := w.pipe(n.Pipe, dot)
		if len(vs) != 1 {
			w.bad = append(w.bad, "undecided: "+n.String())
			return
		}
		c := vs[0]
		k := len(w.vars)
		switch len(n.Pipe.Decl) {
		case 1:
			w.vars = append(w.vars, tvar{n.Pipe.Decl[0].Ident[0], c + "[]"})
		case 2:
			w.vars = append(w.vars, tvar{n.Pipe.Decl[0].Ident[0], c + "[key]"}, tvar{n.Pipe.Decl[1].Ident[0], c + "[]"})
		}
		w.ranges = append(w.ranges, c)
		w.list(n.List, c+"[]")
		w.ranges = w.ranges[:len(w.ranges)-1]
		w.vars = w.vars[:k]
		w.under("!"+c, func() { w.list(n.ElseList, dot) })
	case *parse.TemplateNode:
		t := w.trees[n.Name]
		if t == nil || w.depth > 10 {
			w.bad = append(w.bad, "undecided: "+n.String())
			return
		}
		d := "=nil"
		if n.Pipe != nil {
			if vs := w.pipe(n.Pipe, dot); len(vs) == 1 {
				d = vs[0]
			}
		}
		vars := w.vars
		w.vars = []tvar{{"$", d}}
		w.depth++
		w.list(t.Root, d)
		w.depth--
		w.vars = vars
	case *parse.BreakNode, *parse.ContinueNode:
		w.bad = append(w.bad, "a list is not printed to its end: "+n.String())
	default:
		w.bad = append(w.bad, "undecided: "+n.String())
	}
}

// cond is the value a condition tests.
func (w *tmplWalk) cond(p *parse.PipeNode, dot string) string {
	vs := w.pipe(p, dot)
	v := "(" + p.String() + ")"
	if len(vs) == 1 {
		v = vs[0]
	}
	// "len x" and comparisons of it with 0 say whether x has elements
	for _, f := range []string{"(len %s)", "(gt (len %s) =0)", "(ne (len %s) =0)", "(ge (len %s) =1)"} {
		i := strings.Index(f, "%s")
		if x, ok := strings.CutPrefix(v, f[:i]); ok {
			if y, ok := strings.CutSuffix(x, f[i+2:]); ok && !strings.ContainsAny(y, " ()") {
				v = y
			}
		}
	}
	for _, d := range p.Decl {
		w.vars = append(w.vars, tvar{d.Ident[0], v})
	}
	return v
}

func (w *tmplWalk) drop(p *parse.PipeNode) {
	w.vars = w.vars[:len(w.vars)-len(p.Decl)]
}

// required is a value that must be printed.
type required struct {
	val   string
	unit  string   // the word printed beside it
	allow []string // conditions that do no harm
}

var templateNeeds = map[string][]required{
	"GetCapabilityCounts": {
		{".ModuleInfo[].Path", "", nil}, {".ModuleInfo[].Version", "", nil},
		{".CapabilityCounts[key]", "", nil}, {".CapabilityCounts[]", "", nil},
	},
	"GetCapabilityStats": {
		{".ModuleInfo[].Path", "", nil}, {".ModuleInfo[].Version", "", nil},
		{".CapabilityStats[].Capability", "", nil},
		{".CapabilityStats[].Count", "references", nil},
		{".CapabilityStats[].DirectCount", "direct", nil},
		{".CapabilityStats[].TransitiveCount", "transitive", nil},
		{".CapabilityStats[].ExampleCallpath[].Name", "", nil},
		{".CapabilityStats[].ExampleCallpath[].Site.Filename", "", []string{".CapabilityStats[].ExampleCallpath[].Site"}},
		{".CapabilityStats[].ExampleCallpath[].Site.Line", "", []string{".CapabilityStats[].ExampleCallpath[].Site"}},
		{".CapabilityStats[].ExampleCallpath[].Site.Column", "", []string{".CapabilityStats[].ExampleCallpath[].Site"}},
	},
}

// units are words that say what a number counts.
var units = []string{"references", "direct", "transitive"}

// unitOf finds the word that says what a number is.
func unitOf(s *shown) string {
	at, word := -1, ""
	low := strings.ToLower(s.after)
	for _, u := range units {
		if i := strings.Index(low, u); i >= 0 && (at < 0 || i < at) {
			at, word = i, u
		}
	}
	if word != "" {
		return word
	}
	low = strings.ToLower(s.before)
	for _, u := range units {
		if i := strings.LastIndex(low, u); i >= 0 && i > at {
			at, word = i, u
		}
	}
	return word
}

// walkTemplate checks what a template prints of the report.
func (r *modeRun) walkTemplate(ef *Effect, pt *parsedTemplate, name string) {
	c := r.s.c
	file := pt.files[name]
	where := c.pos(ef.instr.Pos())
	if file != "" {
		where = "analyzer/" + file
	}
	funcs := map[string]any{}
	for f := range tmplBuiltins {
		funcs[f] = fmt.Sprint
	}
	for f := range pt.funcs {
		funcs[f] = fmt.Sprint
	}
	trees := map[string]*parse.Tree{}
	var names []string
	for n := range pt.texts {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		set, err := parse.Parse(n, pt.texts[n], "", "", funcs)
		if err != nil {
			c.fail("template", where, name, "the template cannot be parsed: %v", err)
			return
		}
		for k, t := range set {
			if old := trees[k]; old == nil || parse.IsEmptyTree(old.Root) {
				trees[k] = t
			}
		}
	}
	root := trees[name]
	if root == nil {
		c.fail("template", where, name, "no template %q", name)
		return
	}
	w := &tmplWalk{trees: trees, vars: []tvar{{"$", ""}}, tree: root}
	w.list(root.Root, "")
	for _, b := range w.bad {
		c.fail("template", where, name, "%s", b)
	}
	c.count("templates", 1)
	for _, q := range templateNeeds[r.mode.analysis] {
		c.count("template_values", 1)
		lists := containersOf(q.val)
		why := "it is not printed"
		for _, s := range w.out {
			if s.val != q.val {
				continue
			}
			why = ""
			if strings.Join(s.ranges, "|") != strings.Join(lists, "|") {
				why = "it is not printed for each element of its list"
				continue
			}
			for _, x := range s.conds {
				ok := false
				for _, l := range lists {
					ok = ok || x == l
				}
				for _, a := range q.allow {
					ok = ok || x == a
				}
				if !ok {
					why = "it is printed only if " + x
				}
			}
			if why == "" && q.unit != "" {
				if u := unitOf(s); u != q.unit {
					why = fmt.Sprintf("it is called %q, not %q", u, q.unit)
				}
			}
			if why == "" {
				break
			}
		}
		if why != "" {
			c.fail("template", where, name, "%s of the report: %s", strings.TrimPrefix(q.val, "."), why)
			continue
		}
		c.ok("template", where+" "+q.val)
	}
	// the statement that nothing was found
	list := ".CapabilityCounts"
	if r.mode.analysis == "GetCapabilityStats" {
		list = ".CapabilityStats"
	}
	for _, t := range w.texts {
		if !strings.Contains(strings.ToLower(t.text), "no capabilities") {
			continue
		}
		ok := false
		for _, x := range t.conds {
			ok = ok || x == "!"+list
		}
		if !ok {
			c.fail("template", where, name, "the text %q is not limited to reports without capabilities", strings.TrimSpace(t.text))
		}
	}
	r.templateFuncs(where, name, w, pt)
}

// containersOf lists the lists a path goes through, outermost first.
func containersOf(val string) []string {
	var out []string
	for i := 0; i < len(val); i++ {
		if val[i] == '[' {
			out = append(out, val[:i])
		}
	}
	return out
}

// templateFuncs: functions called by the template only add escape sequences.
func (r *modeRun) templateFuncs(where, name string, w *tmplWalk, pt *parsedTemplate) {
	c := r.s.c
	done := map[string]bool{}
	for _, call := range w.calls {
		f := pt.funcs[call.name]
		if f == nil {
			c.fail("template", where, name, "the function %s is not defined", call.name)
			return
		}
		if len(call.args) > 0 {
			if _, ok := call.args[0].(*parse.StringNode); !ok {
				c.fail("template", where, name, "undecided: the first argument of %s", call.name)
			}
		}
		if done[call.name] {
			continue
		}
		done[call.name] = true
		r.escapes(f, where, name)
	}
}
