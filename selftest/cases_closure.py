A = "analyzer/analyzer.go"
U = "analyzer/util.go"
R = "analyzer/rewrite.go"
L = "analyzer/load.go"
EACH = """	visitedPackages := make(map[*packages.Package]struct{})
	var visit func(p *packages.Package)
	visit = func(p *packages.Package) {
		if _, ok := visitedPackages[p]; ok {
			return
		}
		visitedPackages[p] = struct{}{}
		for _, p2 := range p.Imports {
			visit(p2)
		}
		fn(p)
	}
	for _, p := range pkgs {
		visit(p)
	}
"""
BUILD = """	ssaBuilderMode := ssa.InstantiateGenerics
	if populateSyntax {
		// Debug mode makes ssa.Function.Syntax() point to the ast Node for the
		// function.  This will allow us to link nodes in the callgraph with
		// functions in the syntax tree which convert unsafe.Pointer objects or
		// use the reflect package in notable ways.
		ssaBuilderMode |= ssa.GlobalDebug
	}
	ssaProg, _ := ssautil.AllPackages(pkgs, ssaBuilderMode)
	ssaProg.Build()
	allFunctions := ssautil.AllFunctions(ssaProg)
	graph := vta.CallGraph(allFunctions, nil)
	return graph, ssaProg, allFunctions
"""
MODE = "	cfg := &packages.Config{Mode: PackagesLoadModeNeeded}\n"

keep("clo-fn-first", (U, EACH, EACH.replace("		fn(p)\n", "").replace("		for _, p2 := range", "		fn(p)\n		for _, p2 := range")))
keep("clo-test-at-call", (U, EACH, """	visited := make(map[*packages.Package]bool)
	var visit func(p *packages.Package)
	visit = func(p *packages.Package) {
		visited[p] = true
		for _, dep := range p.Imports {
			if !visited[dep] {
				visit(dep)
			}
		}
		fn(p)
	}
	for _, p := range pkgs {
		if !visited[p] {
			visit(p)
		}
	}
"""))
keep("clo-by-id", (U, EACH, EACH.replace("map[*packages.Package]struct{}", "map[string]bool").replace("if _, ok := visitedPackages[p]; ok {", "if visitedPackages[p.ID] {").replace("visitedPackages[p] = struct{}{}", "visitedPackages[p.ID] = true")))
keep("clo-queue", (U, EACH, """	seen := map[*packages.Package]bool{}
	var queue []*packages.Package
	enqueue := func(p *packages.Package) {
		if !seen[p] {
			seen[p] = true
			queue = append(queue, p)
		}
	}
	for _, p := range pkgs {
		enqueue(p)
	}
	for len(queue) > 0 {
		p := queue[0]
		queue = queue[1:]
		fn(p)
		for _, dep := range p.Imports {
			enqueue(dep)
		}
	}
"""))
keep("clo-collect", (U, EACH, """	var all []*packages.Package
	packages.Visit(pkgs, nil, func(p *packages.Package) { all = append(all, p) })
	for _, p := range all {
		fn(p)
	}
"""))
keep("clo-mode-inline", (U, BUILD, """	mode := ssa.InstantiateGenerics
	if populateSyntax {
		mode = ssa.InstantiateGenerics | ssa.GlobalDebug
	}
	prog, _ := ssautil.AllPackages(pkgs, mode)
	prog.Build()
	fns := ssautil.AllFunctions(prog)
	return vta.CallGraph(fns, nil), prog, fns
"""))
keep("clo-program-helper", (U, "	ssaProg, _ := ssautil.AllPackages(pkgs, ssaBuilderMode)\n	ssaProg.Build()\n", "	ssaProg := buildProgram(pkgs, ssaBuilderMode)\n"),
     (U, "func buildGraph(", """func buildProgram(pkgs []*packages.Package, mode ssa.BuilderMode) *ssa.Program {
	prog, _ := ssautil.AllPackages(pkgs, mode)
	prog.Build()
	return prog
}

func buildGraph("""))
keep("clo-rewrite-order", (U, "	rewriteCallsToSort(pkgs)\n	rewriteCallsToOnceDoEtc(pkgs)\n", "	rewriteCallsToOnceDoEtc(pkgs)\n	rewriteCallsToSort(pkgs)\n"))
keep("clo-one-walk", (R, "func rewriteCallsToSort(pkgs []*packages.Package) {\n	forEachPackageIncludingDependencies(pkgs, func(p *packages.Package) {\n		for _, file := range p.Syntax {\n			for _, node := range file.Decls {\n", "func rewriteCallsToSort(pkgs []*packages.Package) {\n	forEachPackageIncludingDependencies(pkgs, func(p *packages.Package) {\n		for i := range p.Syntax {\n			for _, node := range p.Syntax[i].Decls {\n"))
keep("clo-mode-literal", (L, MODE, """	cfg := new(packages.Config)
	cfg.Mode = PackagesLoadModeNeeded
"""))
keep("clo-mode-more", (L, MODE, "	cfg := &packages.Config{Mode: PackagesLoadModeNeeded | packages.NeedEmbedFiles}\n"))

brk("clo-skip-std", "C09", (U, EACH, EACH.replace("			visit(p2)\n", "			if !isStdLib(p2.PkgPath) {\n				visit(p2)\n			}\n")))
brk("clo-roots-only", "C09", (U, EACH, "	for _, p := range pkgs {\n		fn(p)\n	}\n"))
brk("clo-direct-imports", "C09", (U, EACH, """	visitedPackages := make(map[*packages.Package]struct{})
	visit := func(p *packages.Package) {
		if _, ok := visitedPackages[p]; ok {
			return
		}
		visitedPackages[p] = struct{}{}
		fn(p)
	}
	for _, p := range pkgs {
		visit(p)
		for _, p2 := range p.Imports {
			visit(p2)
		}
	}
"""))
brk("clo-by-name", "C09", (U, EACH, EACH.replace("map[*packages.Package]struct{}", "map[string]bool").replace("if _, ok := visitedPackages[p]; ok {", "if visitedPackages[p.Name] {").replace("visitedPackages[p] = struct{}{}", "visitedPackages[p.Name] = true")))
brk("clo-visit-pre", "C09", (U, EACH, """	packages.Visit(pkgs, func(p *packages.Package) bool { return p.Module != nil }, fn)
"""))
brk("clo-no-seen", "C09", (U, EACH, EACH.replace("		visitedPackages[p] = struct{}{}\n		for", "		for").replace("		fn(p)\n", "		fn(p)\n		if len(p.Imports) > 0 {\n			visitedPackages[p] = struct{}{}\n		}\n")))
brk("clo-skip-errors", "C09", (U, EACH, EACH.replace("		fn(p)\n", "		if p.IllTyped {\n			return\n		}\n		fn(p)\n")))
brk("clo-rewrite-late", "C09", (U, "	rewriteCallsToSort(pkgs)\n	rewriteCallsToOnceDoEtc(pkgs)\n", "	rewriteCallsToSort(pkgs)\n"),
    (U, "	ssaProg.Build()\n", "	rewriteCallsToOnceDoEtc(pkgs)\n	ssaProg.Build()\n"))
brk("clo-packages", "C09", (U, "ssautil.AllPackages(pkgs, ssaBuilderMode)", "ssautil.Packages(pkgs, ssaBuilderMode)"))
brk("clo-no-generics", "C09", (U, "	ssaBuilderMode := ssa.InstantiateGenerics\n", "	ssaBuilderMode := ssa.BuilderMode(0)\n"))
brk("clo-generics-debug", "C09", (U, "		ssaBuilderMode |= ssa.GlobalDebug\n", "		ssaBuilderMode = ssa.GlobalDebug\n"))
brk("clo-some-functions", "C09", (U, "	graph := vta.CallGraph(allFunctions, nil)\n", """	reachable := make(map[*ssa.Function]bool)
	for f := range allFunctions {
		if f.Pkg != nil || f.Origin() != nil {
			reachable[f] = true
		}
	}
	graph := vta.CallGraph(reachable, nil)
"""))
brk("clo-drop-functions", "C09", (U, "	graph := vta.CallGraph(allFunctions, nil)\n", """	for f := range allFunctions {
		if f.Synthetic == "package initializer" {
			delete(allFunctions, f)
		}
	}
	graph := vta.CallGraph(allFunctions, nil)
"""))
brk("clo-delete-synthetic", "C09", (U, "	graph := vta.CallGraph(allFunctions, nil)\n", "	graph := vta.CallGraph(allFunctions, nil)\n	graph.DeleteSyntheticNodes()\n"))
brk("clo-first-package", "C09", (U, "ssautil.AllPackages(pkgs, ssaBuilderMode)", "ssautil.AllPackages(pkgs[:1], ssaBuilderMode)"))
brk("clo-no-deps", "C09", (L, MODE, "	cfg := &packages.Config{Mode: PackagesLoadModeNeeded &^ packages.NeedDeps}\n"))
brk("clo-parse-file", "C09", (L, MODE, """	cfg := &packages.Config{Mode: PackagesLoadModeNeeded, ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
		return parser.ParseFile(fset, filename, src, parser.SkipObjectResolution|parser.ImportsOnly)
	}}
"""), (L, '	"go/types"\n', '	"go/ast"\n	"go/parser"\n	"go/token"\n	"go/types"\n'))
brk("clo-skip-generated", "C09", (R, "func rewriteCallsToSort(pkgs []*packages.Package) {\n	forEachPackageIncludingDependencies(pkgs, func(p *packages.Package) {\n		for _, file := range p.Syntax {\n", "func rewriteCallsToSort(pkgs []*packages.Package) {\n	forEachPackageIncludingDependencies(pkgs, func(p *packages.Package) {\n		for _, file := range p.Syntax {\n			if ast.IsGenerated(file) {\n				continue\n			}\n"))
brk("clo-decl-break", "C09", (R, "func rewriteCallsToOnceDoEtc(pkgs []*packages.Package) {\n	forEachPackageIncludingDependencies(pkgs, func(p *packages.Package) {\n		for _, file := range p.Syntax {\n			for _, node := range file.Decls {\n", "func rewriteCallsToOnceDoEtc(pkgs []*packages.Package) {\n	forEachPackageIncludingDependencies(pkgs, func(p *packages.Package) {\n		for _, file := range p.Syntax {\n			for _, node := range file.Decls {\n				if _, ok := node.(*ast.FuncDecl); !ok {\n					break\n				}\n"))
brk("clo-unsafe-roots", "C09 C05", (A, "	forEachPackageIncludingDependencies(pkgs, func(pkg *packages.Package) {\n		seenUnsafe", "	func(fn func(*packages.Package)) {\n		for _, p := range pkgs {\n			fn(p)\n		}\n	}(func(pkg *packages.Package) {\n		seenUnsafe"))
