# Rewrites of whole functions in other styles. None changes behaviour.
A = "analyzer/analyzer.go"
U = "analyzer/util.go"
L = "analyzer/load.go"
G = "analyzer/graph.go"
M = "analyzer/compare.go"
S = "analyzer/scan.go"
I = "interesting/interesting.go"
K = "cmd/capslock/capslock.go"
D = "cmd/capslock-git-diff/main.go"

keep("sty-graph-method", (A, """		canBeReachedFromQuery := make(nodeset)
		for v := range bfsFromCapabilities {
			if v.Func.Package() == nil {
				continue
			}
			if _, ok := queriedPackages[v.Func.Package().Pkg]; ok {
				canBeReachedFromQuery[v] = struct{}{}
			}
		}

		searchForwardsFromQueriedFunctions(
			canBeReachedFromQuery,
""", """		searchForwardsFromQueriedFunctions(
			bfsFromCapabilities.inPackages(queriedPackages),
"""), (A, "// getPackageNodesWithCapability analyzes", """// inPackages returns the nodes in m that belong to one of pkgs.
func (m bfsStateMap) inPackages(pkgs map[*types.Package]struct{}) nodeset {
	ns := nodeset{}
	for v := range m {
		p := v.Func.Package()
		if p == nil {
			continue
		}
		if _, found := pkgs[p.Pkg]; !found {
			continue
		}
		ns[v] = struct{}{}
	}
	return ns
}

// getPackageNodesWithCapability analyzes"""))
keep("sty-graph-filter-first", (A, """	if filter != nil {
		// Consider each capability individually.
		for _, c := range sortedCapabilities(nodesByCapability) {
			if filter(c) {
				search(nodesetPerCapability{c: nodesByCapability[c]})
			}
		}
	} else {
		// Generate a single graph.
		search(nodesByCapability)
	}
""", """	if filter == nil {
		// Generate a single graph.
		search(nodesByCapability)
		return
	}
	// Consider each capability individually.
	for _, c := range sortedCapabilities(nodesByCapability) {
		if !filter(c) {
			continue
		}
		one := make(nodesetPerCapability)
		one[c] = nodesByCapability[c]
		search(one)
	}
"""))
keep("sty-graph-top-level-search", (A, """	search := func(nodesByCapability nodesetPerCapability) {
		bfsFromCapabilities :=""", """	search := func(some nodesetPerCapability) {
		searchOnce(some, safe, allNodesWithExplicitCapability, queriedPackages, config.Classifier, outputNode, outputCall, outputCapability)
	}
	if filter != nil {
		// Consider each capability individually.
		for _, c := range sortedCapabilities(nodesByCapability) {
			if filter(c) {
				search(nodesetPerCapability{c: nodesByCapability[c]})
			}
		}
	} else {
		// Generate a single graph.
		search(nodesByCapability)
	}
}

func searchOnce(nodesByCapability nodesetPerCapability, safe, allNodesWithExplicitCapability nodeset,
	queriedPackages map[*types.Package]struct{}, classifier Classifier,
	outputNode GraphOutputNodeFn, outputCall GraphOutputCallFn, outputCapability GraphOutputCapabilityFn,
) {
		bfsFromCapabilities :="""), (A, """safe, allNodesWithExplicitCapability, config.Classifier)

		canBe""", """safe, allNodesWithExplicitCapability, classifier)

		canBe"""), (A, """			bfsFromCapabilities,
			config.Classifier,
			outputNode,
			outputCall,
			outputCapability)
	}
	if filter != nil {
		// Consider each capability individually.
		for _, c := range sortedCapabilities(nodesByCapability) {
			if filter(c) {
				search(nodesetPerCapability{c: nodesByCapability[c]})
			}
		}
	} else {
		// Generate a single graph.
		search(nodesByCapability)
	}
}
""", """			bfsFromCapabilities,
			classifier,
			outputNode,
			outputCall,
			outputCapability)
}
"""))
keep("sty-categorize-helper", (A, """		var c cpb.Capability
		if v.Func.Package() != nil && v.Func.Package().Pkg != nil {
			// Categorize v.Func.
			pkg := v.Func.Package().Pkg.Path()
			name := v.Func.String()
			c = classifier.FunctionCategory(pkg, name)
		} else {
			origin := v.Func.Origin()
			if origin == nil || origin.Package() == nil || origin.Package().Pkg == nil {
				continue
			}
			// v.Func is an instantiation of a generic function.  Get the package
			// name and function name of the generic function, and categorize that
			// instead.
			pkg := origin.Package().Pkg.Path()
			name := origin.String()
			c = classifier.FunctionCategory(pkg, name)
		}
		if c == cpb.Capability_CAPABILITY_SAFE {
			safe[v] = struct{}{}
		} else if c != cpb.Capability_CAPABILITY_UNSPECIFIED {
			nodesByCapability.add(c, v)
		}
""", """		switch c := categorize(v.Func, classifier); c {
		case cpb.Capability_CAPABILITY_UNSPECIFIED:
		case cpb.Capability_CAPABILITY_SAFE:
			safe[v] = struct{}{}
		default:
			nodesByCapability.add(c, v)
		}
"""), (A, "func mergeCapabilities(", """// categorize returns the category of fn, or of the generic function it is an
// instantiation of.
func categorize(fn *ssa.Function, classifier Classifier) cpb.Capability {
	hasPackage := func(f *ssa.Function) bool {
		return f.Package() != nil && f.Package().Pkg != nil
	}
	if !hasPackage(fn) {
		fn = fn.Origin()
		if fn == nil || !hasPackage(fn) {
			return cpb.Capability_CAPABILITY_UNSPECIFIED
		}
	}
	return classifier.FunctionCategory(fn.Package().Pkg.Path(), fn.String())
}

func mergeCapabilities("""))
keep("sty-merge-union", (A, """	for _, nodes := range nodesByCapability {
		for v := range nodes {
			allNodesWithExplicitCapability[v] = struct{}{}
		}
	}
""", """	for _, nodes := range nodesByCapability {
		maps.Copy(allNodesWithExplicitCapability, nodes)
	}
"""))
keep("sty-merge-new-map", (A, """			if _, ok := allNodesWithExplicitCapability[node]; ok {
				// This function already has an explicit category; don't add this
				// extra capability.
				continue
			}
			nodesByCapability.add(cap, node)
""", """			if _, explicit := allNodesWithExplicitCapability[node]; !explicit {
				nodesByCapability.add(cap, node)
			}
"""))
keep("sty-extra-split", (A, """		// Find the function variables that do not escape.
		locals := map[ssa.Value]struct{}{}
		for _, l := range f.Locals {
			if !l.Heap {
				locals[l] = struct{}{}
			}
		}
""", """		locals := nonEscaping(f)
"""), (A, "func getExtraNodesByCapability(", """// nonEscaping finds the function variables that do not escape.
func nonEscaping(f *ssa.Function) map[ssa.Value]struct{} {
	locals := make(map[ssa.Value]struct{}, len(f.Locals))
	for _, l := range f.Locals {
		if l.Heap {
			continue
		}
		locals[l] = struct{}{}
	}
	return locals
}

func getExtraNodesByCapability("""))
keep("sty-builtin-off-early", (A, """	if !config.DisableBuiltin {
		extraNodesByCapability = getExtraNodesByCapability(graph, allFunctions, unsafePointerFunctions)
	}
	return safe, nodesByCapability, extraNodesByCapability
""", """	if config.DisableBuiltin {
		return safe, nodesByCapability, nil
	}
	return safe, nodesByCapability, getExtraNodesByCapability(graph, allFunctions, unsafePointerFunctions)
"""))
keep("sty-init-functions", (A, """			if f := pkg.Func("init"); f != nil {
				unsafePointerFunctions[f] = struct{}{}
			}
""", """			f := pkg.Func("init")
			if f == nil {
				continue
			}
			unsafePointerFunctions[f] = struct{}{}
"""))
keep("sty-set-has", (G, """	if cs == nil {
		return true
	}
	_, ok := cs.capabilities[c]
	return ok != cs.negated
""", """	if cs == nil {
		return true
	}
	_, listed := cs.capabilities[c]
	if cs.negated {
		return !listed
	}
	return listed
"""))
keep("sty-set-parse-item", (G, """		c, ok := cpb.Capability_value[s]
		if !ok {
			c, ok = cpb.Capability_value["CAPABILITY_"+s]
		}
		if !ok {
			return nil, fmt.Errorf("unknown capability %q", s)
		}
		out[cpb.Capability(c)] = struct{}{}
""", """		c, err := capabilityByName(s)
		if err != nil {
			return nil, err
		}
		out[c] = struct{}{}
"""), (G, "func graphOutput(", """// capabilityByName looks up a capability by its name, with or without the
// CAPABILITY_ prefix.
func capabilityByName(s string) (cpb.Capability, error) {
	for _, name := range []string{s, "CAPABILITY_" + s} {
		if c, ok := cpb.Capability_value[name]; ok {
			return cpb.Capability(c), nil
		}
	}
	return 0, fmt.Errorf("unknown capability %q", s)
}

func graphOutput("""))
keep("sty-set-cut-prefix", (G, """		neg := s[0] == '-'
		if neg {
			s = s[1:]
		}
""", """		s, neg := strings.CutPrefix(s, "-")
"""))
keep("sty-set-first-sign", (G, """	negated := false
	for i, s := range strings.Split(cs, ",") {
""", """	negated := strings.HasPrefix(cs, "-")
	for _, s := range strings.Split(cs, ",") {
"""), (G, """		if i > 0 && neg != negated {
			return nil, fmt.Errorf("mix of negated and unnegated capabilities specified: %q", cs)
		}
		negated = neg
""", """		if neg != negated {
			return nil, fmt.Errorf("mix of negated and unnegated capabilities specified: %q", cs)
		}
"""))
keep("sty-graph-namer", (G, """	gb := newGraphBuilder(w, func(v interface{}) string {
		switch v := v.(type) {
		case *callgraph.Node:
			if v.Func != nil {
				return v.Func.String()
			}
			return strconv.Itoa(v.ID)
		case cpb.Capability:
			return v.String()
		default:
			panic("unexpected node type")
		}
	})
""", """	gb := newGraphBuilder(w, nodeName)
"""), (G, "type graphBuilder struct {", """func nodeName(v any) string {
	switch v := v.(type) {
	case cpb.Capability:
		return v.String()
	case *callgraph.Node:
		if v.Func == nil {
			return strconv.Itoa(v.ID)
		}
		return v.Func.String()
	}
	panic("unexpected node type")
}

type graphBuilder struct {"""))
keep("sty-graph-fprintf", (G, """	gb.Write([]byte("\\t"))
	gb.Write([]byte(`"`))
	gb.Write([]byte(quoteReplacer.Replace(gb.nodeNamer(from))))
	gb.Write([]byte(`" -> "`))
	gb.Write([]byte(quoteReplacer.Replace(gb.nodeNamer(to))))
	gb.Write([]byte("\\"\\n"))
""", """	quote := func(v any) string { return quoteReplacer.Replace(gb.nodeNamer(v)) }
	fmt.Fprintf(gb, "\\t\\"%s\\" -> \\"%s\\"\\n", quote(from), quote(to))
"""))
keep("sty-graph-write-string", (G, """	gb.Write([]byte("}\\n"))
	gb.done = true
""", """	gb.done = true
	io.WriteString(gb, "}\\n")
"""))
keep("sty-queried-make", (L, """	queriedPackages := map[*types.Package]struct{}{}
	for _, p := range pkgs {
		queriedPackages[p.Types] = struct{}{}
	}
	return queriedPackages
""", """	set := make(map[*types.Package]struct{}, len(pkgs))
	for i := range pkgs {
		set[pkgs[i].Types] = struct{}{}
	}
	return set
"""))
keep("sty-load-env-helper", (L, """	if lcfg.GOOS != "" || lcfg.GOARCH != "" {
		env := append([]string(nil), os.Environ()...) // go1.21 has slices.Clone for this
		if lcfg.GOOS != "" {
			env = append(env, "GOOS="+lcfg.GOOS)
		}
		if lcfg.GOARCH != "" {
			env = append(env, "GOARCH="+lcfg.GOARCH)
		}
		cfg.Env = env
	}
	return packages.Load(cfg, packageNames...)
}
""", """	cfg.Env = lcfg.environ()
	return packages.Load(cfg, packageNames...)
}

// environ returns the environment to load packages in, or nil to use the
// current one.
func (lcfg LoadConfig) environ() []string {
	var extra []string
	if lcfg.GOOS != "" {
		extra = append(extra, "GOOS="+lcfg.GOOS)
	}
	if lcfg.GOARCH != "" {
		extra = append(extra, "GOARCH="+lcfg.GOARCH)
	}
	if len(extra) == 0 {
		return nil
	}
	return append(os.Environ(), extra...)
}
"""))
keep("sty-granularity-switch", (K, """	g, err := analyzer.GranularityFromString(*granularity)
	if err != nil {
		return fmt.Errorf("parsing flag -granularity: %w", err)
	}
	cs, err := analyzer.NewCapabilitySet(*capabilities)
	if err != nil {
		return fmt.Errorf("parsing flag -capabilities: %w", err)
	}
""", """	cs, err := analyzer.NewCapabilitySet(*capabilities)
	if err != nil {
		return fmt.Errorf("parsing flag -capabilities: %w", err)
	}
	g, err := analyzer.GranularityFromString(*granularity)
	if err != nil {
		return fmt.Errorf("parsing flag -granularity: %w", err)
	}
"""))
keep("sty-classifier-helper", (K, """	var classifier *interesting.Classifier
	if *customMap != "" {
		f, err := os.Open(*customMap)
		if err != nil {
			return err
		}
		classifier, err = interesting.LoadClassifier(*customMap, f, *disableBuiltin)
		if err != nil {
			return err
		}
		if *noiseFlag {
			classifier = interesting.ClassifierExcludingUnanalyzed(classifier)
		}
		log.Printf("Using custom capability map %q", *customMap)
	} else {
		classifier = analyzer.GetClassifier(*noiseFlag)
	}
""", """	classifier, err := chooseClassifier()
	if err != nil {
		return err
	}
"""), (K, "// loadPackages calls", """// chooseClassifier returns the classifier that the flags ask for.
func chooseClassifier() (*interesting.Classifier, error) {
	if *customMap == "" {
		return analyzer.GetClassifier(*noiseFlag), nil
	}
	f, err := os.Open(*customMap)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	c, err := interesting.LoadClassifier(*customMap, f, *disableBuiltin)
	if err != nil {
		return nil, err
	}
	log.Printf("Using custom capability map %q", *customMap)
	if *noiseFlag {
		return interesting.ClassifierExcludingUnanalyzed(c), nil
	}
	return c, nil
}

// loadPackages calls"""))
keep("sty-retry-helper", (K, """		// Save current working directory.
		var wd string
		wd, err = os.Getwd()
		if err != nil {
			return err
		}

		// Create a temporary module, switch to it, and `go get` the requested packages.
		var remove func()
		remove, err = makeTemporaryModule(packageNames)
		if remove != nil {
			defer remove()
		}
		if err != nil {
			return err
		}

		// Try loading the packages again.
		pkgs, _, _, err = loadPackages(packageNames, loadConfig)

		// Switch back to the original working directory.
		err1 := os.Chdir(wd)
		if err == nil && err1 != nil {
			return fmt.Errorf("returning to working directory: %w", err1)
		}
	}
""", """		wd, err1 := os.Getwd()
		if err1 != nil {
			return err1
		}

		// Create a temporary module, switch to it, and `go get` the requested packages.
		remove, err2 := makeTemporaryModule(packageNames)
		if remove != nil {
			defer remove()
		}
		if err2 != nil {
			return err2
		}

		// Try loading the packages again.
		pkgs, _, _, err = loadPackages(packageNames, loadConfig)

		// Switch back to the original working directory.
		if err1 := os.Chdir(wd); err1 != nil && err == nil {
			return fmt.Errorf("returning to working directory: %w", err1)
		}
	}
"""))
keep("sty-main-errors-as", (K, """	err := run()
	switch err.(type) {
	case nil:
	case analyzer.DifferenceFoundError:
		os.Exit(1)
	default:
		log.Print(err)
		os.Exit(2)
	}
""", """	if err := run(); err != nil {
		if _, ok := err.(analyzer.DifferenceFoundError); ok {
			os.Exit(1)
		}
		log.Print(err)
		os.Exit(2)
	}
"""))
keep("sty-list-error-func", (K, """	for _, p := range pkgs {
		for _, e := range p.Errors {
			if e.Kind == packages.ListError {
				return pkgs, true, p.ID, err
			}
		}
	}
	return pkgs, false, "", err
""", """	for _, p := range pkgs {
		isListError := func(e packages.Error) bool { return e.Kind == packages.ListError }
		if slices.ContainsFunc(p.Errors, isListError) {
			return pkgs, true, p.ID, err
		}
	}
	return pkgs, false, "", err
"""), (K, '	"runtime/pprof"\n', '	"runtime/pprof"\n	"slices"\n'))
keep("sty-temp-run-helper", (K, """	run := func(command string, args ...string) error {
		if *verbose >= 2 {
			log.Printf("running %q with args %q", command, args)
		}
		cmd := exec.Command(command, args...)
		var stderr bytes.Buffer
		cmd.Stderr = &stderr
		err := cmd.Run()
		if err != nil || *verbose >= 2 {
			os.Stderr.Write(stderr.Bytes())
		}
		return err
	}
	if err = run(""", """	if err = runCommand("""), (K, """		if err := run("go", "get", p); err != nil {
			return remove""", """		if err := runCommand("go", "get", p); err != nil {
			return remove"""), (K, "func printErrors(", """func runCommand(command string, args ...string) error {
	if *verbose >= 2 {
		log.Printf("running %q with args %q", command, args)
	}
	var stderr bytes.Buffer
	cmd := exec.Command(command, args...)
	cmd.Stderr = &stderr
	err := cmd.Run()
	if *verbose >= 2 || err != nil {
		os.Stderr.Write(stderr.Bytes())
	}
	return err
}

func printErrors("""))
keep("sty-errors-collect", (K, """	// Print module errors.
	seen := make(map[*packages.Module]bool)
	packages.Visit(pkgs, func(p *packages.Package) bool {
		if mod := p.Module; mod != nil && seen[mod] == false {
			seen[mod] = true
			if err := mod.Error; err != nil {
				add(errors.New(err.Err))
			}
		}
		return true
	}, nil)
""", """	// Print module errors.
	seen := make(map[*packages.Module]struct{})
	packages.Visit(pkgs, func(p *packages.Package) bool {
		mod := p.Module
		if mod == nil {
			return true
		}
		if _, ok := seen[mod]; ok {
			return true
		}
		seen[mod] = struct{}{}
		if mod.Error != nil {
			add(errors.New(mod.Error.Err))
		}
		return true
	}, nil)
"""))
keep("sty-diff-args-switch", (D, """	var pkgname string
	if len(a) == 2 {
		// By default, use the current directory and its subdirectories.
		pkgname = "./..."
	} else if len(a) == 3 {
		pkgname = a[2]
	} else {
		fmt.Fprintf(os.Stderr, "wrong number of arguments: %q\\n\\n", a)
		usage()
	}
""", """	if len(a) != 2 && len(a) != 3 {
		fmt.Fprintf(os.Stderr, "wrong number of arguments: %q\\n\\n", a)
		usage()
	}
	// By default, use the current directory and its subdirectories.
	pkgname := "./..."
	if len(a) == 3 {
		pkgname = a[2]
	}
"""))
keep("sty-diff-main-loop", (D, """	cil1, err := AnalyzeAtRevision(revisions[0], pkgname)
	if err != nil {
		log.Print(err)
		os.Exit(2)
	}
	cil2, err := AnalyzeAtRevision(revisions[1], pkgname)
	if err != nil {
		log.Print(err)
		os.Exit(2)
	}
	different := diffCapabilityInfoLists(cil1, cil2, revisions, pkgname)
	if different {
		os.Exit(1)
	}
""", """	analyze := func(rev string) *cpb.CapabilityInfoList {
		cil, err := AnalyzeAtRevision(rev, pkgname)
		if err != nil {
			log.Print(err)
			os.Exit(2)
		}
		return cil
	}
	before := analyze(revisions[0])
	after := analyze(revisions[1])
	if diffCapabilityInfoLists(before, after, revisions, pkgname) {
		os.Exit(1)
	}
"""))
keep("sty-diff-git-output", (D, """	var b bytes.Buffer
	if err = run(&b, "git", "rev-parse", "--git-dir"); err != nil {
		return nil, err
	}
	gitdir := strings.TrimSuffix(b.String(), "\\n")
	vlog("git directory: %q", gitdir)
	b.Reset()
	// Get the relative directory within the git repository.
	if err = run(&b, "git", "rev-parse", "--show-prefix"); err != nil {
		return nil, err
	}
	prefix := strings.TrimSuffix(b.String(), "\\n")
	vlog("current path in repository: %q", prefix)
	b.Reset()
""", """	gitdir, err := revParse("--git-dir")
	if err != nil {
		return nil, err
	}
	vlog("git directory: %q", gitdir)
	// Get the relative directory within the git repository.
	prefix, err := revParse("--show-prefix")
	if err != nil {
		return nil, err
	}
	vlog("current path in repository: %q", prefix)
"""), (D, "func callCapslock(", """func revParse(option string) (string, error) {
	var b bytes.Buffer
	if err := run(&b, "git", "rev-parse", option); err != nil {
		return "", err
	}
	return strings.TrimSuffix(b.String(), "\\n"), nil
}

func callCapslock("""))
keep("sty-diff-new-key", (D, """	hasAnyOldUse := make(map[cpb.Capability]bool)
	newUses := make(map[cpb.Capability]int)
	for _, key := range keys {
		_, inBaseline := baselineMap[key]
		_, inCurrent := currentMap[key]
		if inBaseline {
			hasAnyOldUse[key.capability] = true
		}
		if !inBaseline && inCurrent {
			newUses[key.capability]++
		}
	}
""", """	hasAnyOldUse := make(map[cpb.Capability]bool)
	newUses := make(map[cpb.Capability]int)
	for _, key := range keys {
		if _, ok := baselineMap[key]; ok {
			hasAnyOldUse[key.capability] = true
		} else if _, ok := currentMap[key]; ok {
			newUses[key.capability] += 1
		}
	}
"""))
keep("sty-diff-keys-map", (D, """			pending := make(map[string]bool)
			for _, key := range keys {
				if key.capability != c {
					continue
				}
				_, inBaseline := baselineMap[key]
				_, inCurrent := currentMap[key]
				if !inBaseline && inCurrent {
					pending[key.key] = true
					different = true
				}
			}
""", """			pending := newKeys(keys, c, baselineMap, currentMap)
			if len(pending) > 0 {
				different = true
			}
"""), (D, "func printCallPath(", """func newKeys(keys []mapKey, c cpb.Capability, before, after capabilitiesMap) map[string]bool {
	added := make(map[string]bool)
	for _, key := range keys {
		if key.capability != c {
			continue
		}
		if _, old := before[key]; old {
			continue
		}
		if _, now := after[key]; now {
			added[key.key] = true
		}
	}
	return added
}

func printCallPath("""))
keep("sty-diff-cover-key", (D, """	for _, p := range ci.Path {
		var key string
		switch *granularity {
		case "package", "intermediate":
			key = p.GetPackage()
		case "function", "":
			key = p.GetName()
		}
		if key == "" {
			continue
		}
		if pending[key] {
			covered = append(covered, key)
			pending[key] = false
		}
	}
""", """	byPackage := *granularity == "package" || *granularity == "intermediate"
	byFunction := *granularity == "function" || *granularity == ""
	for _, p := range ci.Path {
		key := ""
		if byPackage {
			key = p.GetPackage()
		} else if byFunction {
			key = p.GetName()
		}
		if key != "" && pending[key] {
			pending[key] = false
			covered = append(covered, key)
		}
	}
"""))
keep("sty-compare-keys", (M, """		case GranularityFunction:
			if len(ci.Path) == 0 {
				break
			}
			mk.key = ci.Path[0].GetName()
			if mk.key != "" {
				m[mk] = ci
			}
""", """		case GranularityFunction:
			if len(ci.Path) > 0 {
				if name := ci.Path[0].GetName(); name != "" {
					mk.key = name
					m[mk] = ci
				}
			}
"""))

# Breaking edits that earlier versions of the checks let through.
brk("opt-no-parse", "C15 C16 C17 C18 C21 C23 C28", (K, "	flag.Parse()\n", "	flag.NArg()\n"))
brk("opt-parse-late", "C17", (K, "	flag.Parse()\n", ""), (K, "	loadConfig := analyzer.LoadConfig{\n", "	flag.Parse()\n	loadConfig := analyzer.LoadConfig{\n"))
brk("opt-parse-late-2", "C14 C15 C21", (D, "	flag.Usage = usage\n	flag.Parse()\n", "	flag.Usage = usage\n	gran := *granularity\n	flag.Parse()\n	*granularity = gran\n"))
keep("opt-command-line", (K, "	flag.Parse()\n", "	flag.CommandLine.Parse(os.Args[1:])\n"))
brk("diff-newline-kept", "C14", (D, """	gitdir := strings.TrimSuffix(b.String(), "\\n")
""", """	gitdir := b.String()
"""))
brk("diff-newline-kept-2", "C14", (D, """	prefix := strings.TrimSuffix(b.String(), "\\n")
""", """	prefix := strings.TrimSuffix(b.String(), "/")
"""))
keep("diff-trim-space", (D, """	gitdir := strings.TrimSuffix(b.String(), "\\n")
""", """	gitdir := strings.TrimSpace(b.String())
"""))
keep("diff-cut-line", (D, """	gitdir := strings.TrimSuffix(b.String(), "\\n")
""", """	gitdir, _, _ := strings.Cut(b.String(), "\\n")
"""))
brk("none-matching-ok", "C15 C16", (K, """		return fmt.Errorf("No packages matching %v", packageNames)
""", """		log.Printf("No packages matching %v", packageNames)
		return nil
"""))
brk("disable-only-ok", "C15", (K, """		return fmt.Errorf("Error: --disable_builtin only makes sense with a --capability_map file specified")
""", """		log.Printf("Error: --disable_builtin only makes sense with a --capability_map file specified")
		return nil
"""))
brk("retry-empty-only", "C16", (K, "	if (listFailed || len(pkgs) == 0) && !*forceLocalModule {\n", "	if len(pkgs) == 0 && !*forceLocalModule {\n"))
brk("retry-listed-only", "C16", (K, "	if (listFailed || len(pkgs) == 0) && !*forceLocalModule {\n", "	if listFailed && !*forceLocalModule {\n"))
brk("retry-one-package", "C16", (K, "	if (listFailed || len(pkgs) == 0) && !*forceLocalModule {\n", "	if (listFailed || len(pkgs) == 0) && !*forceLocalModule && len(packageNames) == 1 {\n"))
brk("diff-old-printed", "C14", (D, """				if !pending[key.key] {
					// already done
					continue
				}
				ci := currentMap[key]
""", """				ci := currentMap[key]
				if ci == nil {
					// no longer there
					continue
				}
"""))
brk("diff-old-found", "C14", (D, """				_, inBaseline := baselineMap[key]
				_, inCurrent := currentMap[key]
				if !inBaseline && inCurrent {
					pending[key.key] = true
					different = true
				}
""", """				_, inCurrent := currentMap[key]
				if inCurrent {
					pending[key.key] = true
					different = true
				}
"""))
