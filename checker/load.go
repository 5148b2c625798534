package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the repository, parsed, type-checked and in SSA form.
type Program struct {
	root  string
	fset  *token.FileSet
	pkgs  []*packages.Package
	byPkg map[string]*packages.Package
	prog  *ssa.Program
	ssa   map[string]*ssa.Package
	nfn   int

	assigned map[*ssa.Global]bool
}

func Load(root string) (*Program, error) {
	fset := token.NewFileSet()
	abs, err := filepath.Abs(root)
	if err != nil {
		return nil, err
	}
	if r, err := filepath.EvalSymlinks(abs); err == nil {
		abs = r
	}
	cfg := &packages.Config{
		Dir:  abs,
		Fset: fset,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local"),
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
			f, err := parser.ParseFile(fset, filename, src, parser.SkipObjectResolution|parser.ParseComments)
			if f != nil && !strings.HasPrefix(filename, abs+string(filepath.Separator)) {
				// Only declarations of dependencies are needed.
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok {
						fd.Body = nil
					}
				}
			}
			return f, err
		},
	}
	all, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var pkgs []*packages.Package
	for _, q := range all {
		// testpkgs holds inputs for the repository's own tests, not its code.
		if strings.HasPrefix(q.PkgPath, modulePath+"/testpkgs/") {
			continue
		}
		pkgs = append(pkgs, q)
	}
	p := &Program{root: abs, fset: fset, byPkg: map[string]*packages.Package{}, ssa: map[string]*ssa.Package{}}
	var errs []string
	for _, q := range pkgs {
		for _, e := range q.Errors {
			errs = append(errs, e.Error())
		}
		p.byPkg[q.PkgPath] = q
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages found in %s", abs)
	}
	p.pkgs = pkgs
	// Function bodies of dependencies were dropped, which leaves imports unused
	// there; the declarations themselves are complete.
	packages.Visit(pkgs, nil, func(q *packages.Package) { q.IllTyped = false })
	for _, q := range pkgs {
		countingLoops(q)
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		p.ssa[pkgs[i].PkgPath] = sp
		sp.Build()
	}
	p.prog = prog
	return p, nil
}

func (p *Program) isRepoPkg(path string) bool {
	return path != protoPath && (path == modulePath || strings.HasPrefix(path, modulePath+"/"))
}

func (p *Program) isRepoFn(fn *ssa.Function) bool {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return p.isRepoPkg(fn.Pkg.Pkg.Path())
	}
	if fn.Parent() != nil {
		return p.isRepoFn(fn.Parent())
	}
	if recv := fn.Signature.Recv(); recv != nil && fn.Synthetic != "" {
		// the wrapper of a method promoted from an embedded field
		if n, ok := elemTypeOr(recv.Type()).(*types.Named); ok && n.Obj().Pkg() != nil && p.isRepoPkg(n.Obj().Pkg().Path()) {
			return true
		}
	}
	if obj := fn.Object(); obj != nil && obj.Pkg() != nil {
		return p.isRepoPkg(obj.Pkg().Path())
	}
	return false
}

func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.fset.Position(pos)
	rel, err := filepath.Rel(p.root, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

// fn finds a package-level function or a method ("T.m" or "(*T).m" as "T.m").
func (p *Program) fn(pkg, name string) *ssa.Function {
	sp := p.ssa[pkg]
	if sp == nil {
		return nil
	}
	if i := strings.Index(name, "."); i >= 0 {
		tn, mn := name[:i], name[i+1:]
		t := sp.Type(tn)
		if t == nil {
			return nil
		}
		obj := t.Object()
		for _, ptr := range []bool{true, false} {
			ms := p.prog.MethodSets.MethodSet(methodType(obj, ptr))
			for j := 0; j < ms.Len(); j++ {
				if ms.At(j).Obj().Name() == mn {
					f := p.prog.MethodValue(ms.At(j))
					if f != nil && f.Synthetic == "" {
						return f
					}
				}
			}
		}
		return nil
	}
	return sp.Func(name)
}

// allFuncs lists every function with a body in the repository's own packages.
func (p *Program) allFuncs() []*ssa.Function {
	var out []*ssa.Function
	for fn := range ssautil.AllFunctions(p.prog) {
		if len(fn.Blocks) > 0 && p.isRepoFn(fn) && fn.Synthetic == "" {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// assignedGlobals is the set of package-level variables assigned, or whose
// address is taken, outside package initialisation.
func (p *Program) assignedGlobals() map[*ssa.Global]bool {
	if p.assigned != nil {
		return p.assigned
	}
	p.assigned = map[*ssa.Global]bool{}
	for fn := range ssautil.AllFunctions(p.prog) {
		if !p.isRepoFn(fn) {
			continue
		}
		if fn.Name() == "init" && fn.Synthetic == "package initializer" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops [10]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
						continue
					}
					p.assigned[g] = true
				}
			}
		}
	}
	return p.assigned
}
