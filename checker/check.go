package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Check collects the obligations of one property.
type Check struct {
	id    string
	prog  *Program
	title string
	obls  []obligation
	viols []violation
	stats map[string]int
	notes []string
	roots []string
	fns   map[*ssa.Function]bool
	known []string
	fatal bool

	opaque map[string]bool // functions not looked into by the next evaluation
}

type obligation struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Held      bool   `json:"held"`
}

type violation struct {
	pos, fn, rule, msg string
	key                string
}

func (c *Check) pos(p token.Pos) string { return c.prog.pos(p) }

// ok records a discharged obligation.
func (c *Check) ok(rule, construct string) {
	c.obls = append(c.obls, obligation{rule, construct, true})
}

// fail records a violation at a construct.
func (c *Check) fail(rule, where, fn, format string, a ...any) {
	c.failKey("", rule, where, fn, format, a...)
}

// failKey also gives the violation the key by which a known finding names it.
func (c *Check) failKey(key, rule, where, fn, format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	for _, v := range c.viols {
		if v.pos == where && v.rule == rule && v.msg == msg {
			return
		}
	}
	c.obls = append(c.obls, obligation{rule, where + " " + fn, false})
	c.viols = append(c.viols, violation{pos: where, fn: fn, rule: rule, msg: msg, key: key})
}

func (c *Check) failEff(rule string, ef *Effect, format string, a ...any) {
	fn := ""
	if ef != nil && ef.frame != nil {
		fn = ef.frame.fn.Name()
	}
	c.fail(rule, c.pos(posOf(ef)), fn, format, a...)
}

func (c *Check) okEff(rule string, ef *Effect) {
	c.ok(rule, c.pos(posOf(ef))+" "+ef.frame.fn.Name())
}

func (c *Check) count(k string, n int) { c.stats[k] += n }

// need fails unless at least n instances of what were found.
func (c *Check) need(rule, what string, got, n int) bool {
	if got < n {
		c.fail(rule, "-", "", "found %d %s, expected at least %d: the construct this rule is about is gone", got, what, n)
		return false
	}
	return true
}

// root finds an entry point and evaluates it.
func (c *Check) root(pkg, name string, inits ...string) (*Eval, *Frame, *ssa.Function) {
	return c.rootWith(pkg, name, nil, inits...)
}

// given fixes fields of what the parameters of an entry point refer to.
type given map[string]string

// argFn chooses the value of a parameter of an entry point; nil leaves it
// arbitrary.
type argFn func(e *Eval, p *ssa.Parameter) *Term

func (c *Check) rootWith(pkg, name string, g given, inits ...string) (*Eval, *Frame, *ssa.Function) {
	return c.rootArgs(pkg, name, g, nil, inits...)
}

func (c *Check) rootArgs(pkg, name string, g given, fix argFn, inits ...string) (*Eval, *Frame, *ssa.Function) {
	fn := c.prog.fn(modulePath+pkg, name)
	if fn == nil {
		c.fail("anchor", "-", name, "entry point %s%s not found", modulePath+pkg, name)
		return nil, nil, nil
	}
	e := NewEval(c.prog)
	e.opaque = c.opaque
	for _, p := range inits {
		e.initPkg(modulePath + p)
	}
	label := pkg + "." + name
	if g != nil {
		used := 0
		e.before = func(st *State, args []*Term) {
			for i, a := range args {
				el := elemType(fn.Params[i].Type())
				for _, fv := range structFields(el) {
					if v, ok := g[fv.Name()]; ok {
						val := e.Const(v, fv.Type())
						if isBoolType(fv.Type()) {
							val = e.Bool(False)
							if v == "true" {
								val = e.Bool(True)
							}
						}
						if strings.HasSuffix(v, "!") {
							val = e.mk(OParam, v, fv.Type())
						}
						st.mem = e.store(st.mem, e.FAddr(a, fv.Name(), fv.Type()), val, fv.Type())
						used++
					}
				}
			}
		}
		for k, v := range g {
			label += " " + k + "=" + v
		}
		defer func() {
			if used != len(g) {
				c.fail("anchor", "-", name, "parameters have no field to fix for %v", g)
			}
		}()
	}
	var args []*Term
	for i, p := range fn.Params {
		t := e.param(fn, i)
		if fix != nil {
			if v := fix(e, p); v != nil {
				t = v
				label += " " + p.Name() + "=" + v.aux
			}
		}
		args = append(args, t)
	}
	f, _ := e.Run(fn, args)
	c.absorb(e, label)
	return e, f, fn
}

func (c *Check) absorb(e *Eval, name string) {
	c.roots = append(c.roots, strings.TrimPrefix(name, "/"))
	for fn := range e.fnSeen {
		c.fns[fn] = true
	}
	c.stats["blocks_evaluated"] += e.steps
	c.stats["effects_collected"] += len(e.effects)
	c.stats["calling_contexts"] += e.nframes
	for _, p := range e.problems {
		c.fail("analysis", "-", name, "the analysis could not interpret the code: %s", p)
	}
}

// problems reports analysis failures that occurred after absorb.
func (c *Check) problems(e *Eval, name string) {
	for _, p := range e.problems {
		c.fail("analysis", "-", name, "the analysis could not interpret the code: %s", p)
	}
}

type rule struct {
	id    string
	about string
	run   func(c *Check)
}

var rules []rule

func register(id, about string, run func(c *Check)) {
	rules = append(rules, rule{id, about, run})
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

var loaded *Program

func loadOnce(repo string) (*Program, error) {
	if loaded != nil {
		return loaded, nil
	}
	p, err := Load(repo)
	loaded = p
	return p, err
}

func runCheck(id string) int {
	start := time.Now()
	repo := envOr("CAPSLOCK_REPO", "/repo")
	var r *rule
	for i := range rules {
		if rules[i].id == id {
			r = &rules[i]
		}
	}
	if r == nil {
		fmt.Fprintf(os.Stderr, "no rule for %s\n", id)
		return 2
	}
	c := &Check{id: id, stats: map[string]int{}, fns: map[*ssa.Function]bool{}}
	p, err := loadOnce(repo)
	if err != nil {
		c.prog = &Program{root: repo, fset: token.NewFileSet()}
		c.fail("load", "-", "", "the source could not be loaded and type-checked: %v", err)
	} else {
		c.prog = p
		func() {
			defer func() {
				if x := recover(); x != nil {
					c.fail("analysis", "-", "", "analysis failed: %v", x)
					if os.Getenv("V") != "" {
						debug.PrintStack()
					}
				}
			}()
			r.run(c)
		}()
	}
	known := loadKnown(filepath.Join(verifDir(), "known-findings.txt"), id)
	var fresh []violation
	var suppressed int
	for _, v := range c.viols {
		if k := matchKnown(known, v); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
			suppressed++
			continue
		}
		fresh = append(fresh, v)
	}
	writeEvidence(c, r, fresh, suppressed, time.Since(start).Seconds())
	fmt.Printf("%s: %d obligations, %d functions analysed from %d entry points, %d violations\n", id, len(c.obls), len(c.fns), len(c.roots), len(fresh))
	if len(fresh) == 0 {
		return 0
	}
	path := filepath.Join(verifDir(), "evidence", id+".violations.txt")
	var sb strings.Builder
	for _, v := range fresh {
		fmt.Fprintf(&sb, "%s: %s [%s] %s\n", v.pos, v.fn, v.rule, v.msg)
	}
	fmt.Print(sb.String())
	if err := os.WriteFile(path, []byte(sb.String()), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	return 1
}

// A known finding is a line
//
//	open: property=<id> match=<text in the report> | <what fails>
type knownFinding struct{ match, what string }

func loadKnown(path, id string) []knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "open: property="+id+" match=")
		if !ok {
			continue
		}
		m, what, ok := strings.Cut(rest, " | ")
		if ok && strings.TrimSpace(m) != "" {
			out = append(out, knownFinding{strings.TrimSpace(m), what})
		}
	}
	return out
}

func matchKnown(ks []knownFinding, v violation) string {
	for _, k := range ks {
		if v.key != "" && v.key == k.match {
			return k.what
		}
	}
	return ""
}

func writeEvidence(c *Check, r *rule, fresh []violation, suppressed int, wall float64) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := envOr("VERIF_TIER", "quick")
	if tier != "thorough" {
		tier = "quick"
	}
	discharged := 0
	perRule := map[string]int{}
	for _, o := range c.obls {
		if o.Held {
			discharged++
		}
		perRule[o.Rule]++
	}
	seen := map[string]bool{}
	var samples []obligation
	for _, o := range c.obls {
		if !seen[o.Rule] || !o.Held {
			seen[o.Rule] = true
			samples = append(samples, o)
		}
	}
	var fns []string
	for fn := range c.fns {
		fns = append(fns, fn.String())
	}
	sort.Strings(fns)
	cov := map[string]any{
		"explanation":           r.about,
		"obligations":           len(c.obls),
		"discharged":            discharged,
		"obligations_per_rule":  perRule,
		"entry_points":          c.roots,
		"functions_analysed":    len(fns),
		"function_names":        fns,
		"samples":               samples,
		"measured":              c.stats,
		"known_findings_listed": suppressed,
	}
	if len(c.notes) > 0 {
		cov["notes"] = c.notes
	}
	ev := map[string]any{
		"property": c.id, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"wall_s": wall, "violations": len(fresh),
		"assumptions": []string{
			"distinct symbolic locations do not alias unless they are the same term",
			"library functions behave as modelled in checker/calls.go",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, c.id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}
