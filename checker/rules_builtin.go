package main

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

func init() {
	register("C24", "The builtin capability map is read line by line. For every exported function and method listed in "+
		"checker/spec/stdlib.txt the category that the map's entries give it is compared with the listed capability, and entries "+
		"that make a function or package SAFE or uncategorised are compared with the ones known to reach nothing privileged. The "+
		"order in which entries apply is read off the lookup.", ruleC24)
}

// stdlibSpec lists what the builtin map has to say about the standard
// library:
//
//	func <function> <capability>     privileged functions (a|b: either)
//	package <package> <capability>   packages privileged as a whole
//	cgo <suffix>                     names of calls into C
//	safe <function>                  functions that may be SAFE or uncategorised
//	safepackage <package>            packages that may be SAFE or uncategorised
//
//go:embed spec/stdlib.txt
var stdlibSpec string

// mapEntry is one line of a capability map.
type mapEntry struct {
	line int
	cat  string
}

// builtinMap is the content of a capability map.
type builtinMap struct {
	fn, pkg, unana map[string]mapEntry
	cgo            map[string]int
	edges          map[[2]string]int
}

// parseMap reads a capability map as its format is documented.
func parseMap(src string, caps func(string) bool, bad func(line int, format string, a ...any)) *builtinMap {
	m := &builtinMap{map[string]mapEntry{}, map[string]mapEntry{}, map[string]mapEntry{}, map[string]int{}, map[[2]string]int{}}
	for i, l := range strings.Split(src, "\n") {
		n := i + 1
		l, _, _ = strings.Cut(l, "#")
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}
		want := map[string]int{"func": 3, "package": 3, "unanalyzed": 2, "cgo_suffix": 2, "ignore_edge": 3}[f[0]]
		if want == 0 {
			bad(n, "unknown keyword %q", f[0])
			continue
		}
		if len(f) != want {
			bad(n, "%s entry has %d words instead of %d", f[0], len(f), want)
			if len(f) < want {
				continue
			}
		}
		dup := false
		switch f[0] {
		case "func", "package":
			t := m.fn
			if f[0] == "package" {
				t = m.pkg
			}
			if !caps(f[2]) {
				bad(n, "%q is not a capability", f[2])
				continue
			}
			_, dup = t[f[1]]
			t[f[1]] = mapEntry{n, f[2]}
		case "unanalyzed":
			_, dup = m.unana[f[1]]
			m.unana[f[1]] = mapEntry{n, "CAPABILITY_UNANALYZED"}
		case "cgo_suffix":
			_, dup = m.cgo[f[1]]
			m.cgo[f[1]] = n
		case "ignore_edge":
			k := [2]string{f[1], f[2]}
			_, dup = m.edges[k]
			m.edges[k] = n
		}
		if dup {
			bad(n, "second %s entry for %s", f[0], f[1])
		}
	}
	return m
}

// category is what the entries say about a function.
func (m *builtinMap) category(pkg, name string) (string, int) {
	for s, l := range m.cgo {
		if strings.HasSuffix(name, s) {
			return "CAPABILITY_CGO", l
		}
	}
	for _, t := range []map[string]mapEntry{m.fn, m.unana} {
		if e, ok := t[name]; ok {
			return e.cat, e.line
		}
	}
	if e, ok := m.pkg[pkg]; ok {
		return e.cat, e.line
	}
	return "CAPABILITY_UNSPECIFIED", 0
}

// pkgOf is the package in a function's full name.
func pkgOf(name string) string {
	s := strings.TrimLeft(name, "(*")
	i := strings.LastIndex(s, "/") + 1
	j := strings.Index(s[i:], ".")
	if j < 0 {
		return ""
	}
	return s[:i+j]
}

// embeddedMap finds the file embedded as the builtin map.
func (c *Check) embeddedMap(rule string) (file, src string) {
	pkg := c.prog.byPkg[intPkg]
	if pkg == nil {
		c.fail(rule, "-", "", "package %s is gone", intPkg)
		return "", ""
	}
	re := regexp.MustCompile(`^//go:embed\s+(\S+)\s*$`)
	for _, f := range pkg.Syntax {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			docs := []*ast.CommentGroup{g.Doc}
			for _, s := range g.Specs {
				docs = append(docs, s.(*ast.ValueSpec).Doc)
			}
			for _, doc := range docs {
				if doc == nil {
					continue
				}
				for _, l := range doc.List {
					m := re.FindStringSubmatch(l.Text)
					if m == nil {
						continue
					}
					if file != "" {
						c.fail(rule, c.pos(l.Pos()), "", "undecided: more than one file is embedded")
						return "", ""
					}
					file = filepath.Join("interesting", strings.Trim(m[1], "\"`"))
				}
			}
		}
	}
	if file == "" {
		c.fail(rule, "-", "", "no capability map is embedded in package interesting")
		return "", ""
	}
	b, err := os.ReadFile(filepath.Join(c.prog.root, file))
	if err != nil {
		c.fail(rule, "-", "", "the embedded capability map cannot be read: %v", err)
		return "", ""
	}
	return file, string(b)
}

// capNames is the set of capability names in the generated code.
func (c *Check) capNames() map[string]bool {
	out := map[string]bool{}
	pkg := c.prog.byPkg[protoPath]
	if pkg == nil {
		return out
	}
	for _, n := range pkg.Types.Scope().Names() {
		k, ok := pkg.Types.Scope().Lookup(n).(*types.Const)
		if ok && k.Type().String() == protoPath+".Capability" {
			out[strings.TrimPrefix(n, "Capability_")] = true
		}
	}
	return out
}

func ruleC24(c *Check) {
	rule := "builtin map"
	file, src := c.embeddedMap(rule)
	if file == "" {
		return
	}
	names := c.capNames()
	m := parseMap(src, func(s string) bool { return names[s] }, func(line int, format string, a ...any) {
		c.fail("well-formed lines", fmt.Sprintf("%s:%d", file, line), "", format, a...)
	})
	c.need(rule, "function entries", len(m.fn), 600)
	c.need(rule, "package entries", len(m.pkg), 50)
	c.count("map_entries", len(m.fn)+len(m.pkg)+len(m.unana)+len(m.cgo)+len(m.edges))
	c.ok("well-formed lines", file)
	safe, safePkg, fns := map[string]bool{}, map[string]bool{}, 0
	at := func(l int) string {
		if l == 0 {
			return file
		}
		return fmt.Sprintf("%s:%d", file, l)
	}
	for _, l := range strings.Split(stdlibSpec, "\n") {
		f := strings.Fields(l)
		if len(f) < 2 || strings.HasPrefix(f[0], "#") {
			continue
		}
		switch f[0] {
		case "func":
			fns++
			cat, line := m.category(pkgOf(f[1]), f[1])
			switch {
			case slices.Contains(strings.Split(f[2], "|"), cat):
				c.ok("privileged functions", at(line)+" "+f[1])
			case cat == "CAPABILITY_UNSPECIFIED":
				c.fail("privileged functions", at(line), f[1], "%s has no capability; it is documented as %s", f[1], f[2])
			default:
				c.fail("privileged functions", at(line), f[1], "%s is %s; it is documented as %s", f[1], cat, f[2])
			}
		case "package":
			e, ok := m.pkg[f[1]]
			if !ok || e.cat != f[2] {
				c.fail("privileged packages", at(e.line), f[1], "package %s is not %s", f[1], f[2])
			} else {
				c.ok("privileged packages", at(e.line)+" "+f[1])
			}
		case "cgo":
			if l, ok := m.cgo[f[1]]; !ok {
				c.fail("cgo names", file, f[1], "calls to functions named *%s are not recognised as cgo", f[1])
			} else {
				c.ok("cgo names", at(l)+" "+f[1])
			}
		case "safe":
			safe[f[1]] = true
		case "safepackage":
			safePkg[f[1]] = true
		}
	}
	c.need(rule, "privileged functions listed", fns, 850)
	none := func(cat string) bool { return cat == "CAPABILITY_SAFE" || cat == "CAPABILITY_UNSPECIFIED" }
	rest := 0
	for _, n := range sortedKeys(m.fn) {
		if e := m.fn[n]; none(e.cat) {
			if !safe[n] {
				c.fail("exempt functions", at(e.line), n, "%s is %s, but it is not known to reach nothing privileged", n, e.cat)
			}
			rest++
		}
	}
	for _, n := range sortedKeys(m.pkg) {
		if e := m.pkg[n]; none(e.cat) {
			if !safePkg[n] {
				c.fail("exempt packages", at(e.line), n, "package %s is %s, but it is not known to reach nothing privileged", n, e.cat)
			}
			rest++
		}
	}
	c.ok("exempt functions", fmt.Sprintf("%d entries", rest))
	if cm := c.loadMap(true); cm != nil {
		c.precedence(cm.field)
	}
}

// writeSpec prints the functions of the standard library that the current map
// says are privileged; it is how spec/stdlib.txt was started.
func writeSpec() int {
	b, err := os.ReadFile(filepath.Join(envOr("CAPSLOCK_REPO", "/repo"), "interesting", "interesting.cm"))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	m := parseMap(string(b), func(string) bool { return true }, func(int, string, ...any) {})
	none := func(cat string) bool { return cat == "CAPABILITY_SAFE" || cat == "CAPABILITY_UNSPECIFIED" }
	var out []string
	fns := map[string]bool{}
	for _, goos := range []string{"linux", "windows", "darwin"} {
		pkgs, err := packages.Load(&packages.Config{Mode: packages.NeedName | packages.NeedTypes | packages.NeedImports | packages.NeedDeps | packages.NeedSyntax | packages.NeedFiles,
			Env: append(os.Environ(), "GOOS="+goos, "CGO_ENABLED=0")}, "std")
		if err != nil {
			fmt.Println(err)
			return 2
		}
		for _, p := range pkgs {
			if strings.Contains("/"+p.PkgPath+"/", "/internal/") || strings.HasPrefix(p.PkgPath, "vendor/") {
				continue
			}
			sc := p.Types.Scope()
			for _, n := range sc.Names() {
				switch o := sc.Lookup(n).(type) {
				case *types.Func:
					if o.Exported() {
						fns[o.FullName()] = true
					}
				case *types.TypeName:
					named, ok := o.Type().(*types.Named)
					if !ok || !o.Exported() || types.IsInterface(named) {
						continue
					}
					for i := 0; i < named.NumMethods(); i++ {
						if k := named.Method(i); k.Exported() {
							fns[k.FullName()] = true
						}
					}
				}
			}
		}
	}
	for n := range m.fn {
		fns[n] = true
	}
	for n := range fns {
		if cat, _ := m.category(pkgOf(n), n); !none(cat) && cat != "CAPABILITY_UNANALYZED" {
			out = append(out, "func "+n+" "+cat)
		}
	}
	for n, e := range m.fn {
		if none(e.cat) {
			out = append(out, "safe "+n)
		}
	}
	for n, e := range m.pkg {
		if none(e.cat) {
			out = append(out, "safepackage "+n)
		} else {
			out = append(out, "package "+n+" "+e.cat)
		}
	}
	for s := range m.cgo {
		out = append(out, "cgo "+s)
	}
	sort.Strings(out)
	fmt.Println(strings.Join(out, "\n"))
	return 0
}
