# Still more rewrites of whole functions. None changes behaviour.
A = "analyzer/analyzer.go"
U = "analyzer/util.go"
L = "analyzer/load.go"
G = "analyzer/graph.go"
K = "cmd/capslock/capslock.go"
D = "cmd/capslock-git-diff/main.go"

keep("st3-inter-path-helper", (A, """			for v := node; v != nil; {
				e := queryBFS[v].edge
				addFunction(&ci.Path, v, e)
				if e == nil {
					break
				}
				v = e.Caller
			}
			// Reverse the path we have so far, since we visited its nodes in reverse
			// order.
			slices.Reverse(ci.Path)
			// Add ci.Path entries for the part of the path leading from node to a
			// function with a capability.
			for v := node; v != nil; {
				e := capabilityBFS[v].edge
				if e == nil {
					break
				}
				v = e.Callee
				addFunction(&ci.Path, v, e)
			}
""", """			ci.Path = pathThrough(node, queryBFS, capabilityBFS)
"""), (A, """// intermediatePackages returns""", """// pathThrough returns a path from a queried function to a capability which
// includes node.
func pathThrough(node *callgraph.Node, queryBFS, capabilityBFS bfsStateMap) []*cpb.Function {
	var path []*cpb.Function
	for v := node; ; {
		e := queryBFS[v].edge
		addFunction(&path, v, e)
		if e == nil {
			break
		}
		v = e.Caller
	}
	// Reverse the path we have so far, since we visited its nodes in reverse
	// order.
	slices.Reverse(path)
	for e := capabilityBFS[node].edge; e != nil; e = capabilityBFS[e.Callee].edge {
		addFunction(&path, e.Callee, e)
	}
	return path
}

// intermediatePackages returns"""))
keep("st3-inter-collect", (A, """	cis := make([]*cpb.CapabilityInfo, 0, len(seen))
	for _, ci := range seen {
		cis = append(cis, ci)
	}
	slices.SortFunc(cis, func(a, b *cpb.CapabilityInfo) int {
		if x, y := a.GetCapability(), b.GetCapability(); x != y {
			return int(x) - int(y)
		}
		return strings.Compare(a.GetPackageDir(), b.GetPackageDir())
	})
""", """	cis := slices.Collect(maps.Values(seen))
	sort.Slice(cis, func(i, j int) bool {
		a, b := cis[i], cis[j]
		if a.GetCapability() == b.GetCapability() {
			return a.GetPackageDir() < b.GetPackageDir()
		}
		return a.GetCapability() < b.GetCapability()
	})
"""))
keep("st3-inter-named-compare", (A, """	slices.SortFunc(cis, func(a, b *cpb.CapabilityInfo) int {
		if x, y := a.GetCapability(), b.GetCapability(); x != y {
			return int(x) - int(y)
		}
		return strings.Compare(a.GetPackageDir(), b.GetPackageDir())
	})
""", """	slices.SortFunc(cis, compareInfo)
"""), (A, """// intermediatePackages returns""", """// compareInfo orders by capability, then by package.
func compareInfo(a, b *cpb.CapabilityInfo) int {
	if c := int(a.GetCapability()) - int(b.GetCapability()); c != 0 {
		return c
	}
	return strings.Compare(a.GetPackageDir(), b.GetPackageDir())
}

// intermediatePackages returns"""))
keep("st3-inter-list", (A, """		seen[pc] = &ci
	}
	CapabilityGraph(pkgs, queriedPackages, config, nodeCallback, nil, nil, filter)
	cis := make([]*cpb.CapabilityInfo, 0, len(seen))
	for _, ci := range seen {
		cis = append(cis, ci)
	}
""", """		seen[pc] = struct{}{}
		cis = append(cis, &ci)
	}
	CapabilityGraph(pkgs, queriedPackages, config, nodeCallback, nil, nil, filter)
"""), (A, """	seen := make(map[packageAndCapability]*cpb.CapabilityInfo)
""", """	seen := make(map[packageAndCapability]struct{})
	var cis []*cpb.CapabilityInfo
"""))
keep("st3-info-walk", (A, """			i := 0
			c := cpb.CapabilityInfo{}
			fn := v.Func
			var n string
			var ctype cpb.CapabilityType
			var incomingEdge *callgraph.Edge
			for v != nil {
				if !config.OmitPaths || (i == 0 && config.Granularity == GranularityFunction) {
					addFunction(&c.Path, v, incomingEdge)
				}
				if i == 0 {
					n = v.Func.Package().Pkg.Path()
					ctype = cpb.CapabilityType_CAPABILITY_TYPE_DIRECT
					c.Capability = cap.Enum()
					c.PackageDir = proto.String(v.Func.Package().Pkg.Path())
					c.PackageName = proto.String(v.Func.Package().Pkg.Name())
				}
				i++
				if pName := packagePath(v.Func); n != pName && !isStdLib(pName) {
					ctype = cpb.CapabilityType_CAPABILITY_TYPE_TRANSITIVE
				}
				incomingEdge, v = nodes[v].edge, nodes[v].next()
			}
			c.CapabilityType = &ctype
""", """			fn := v.Func
			pkg := fn.Package().Pkg
			c := cpb.CapabilityInfo{
				Capability:     cap.Enum(),
				CapabilityType: cpb.CapabilityType_CAPABILITY_TYPE_DIRECT.Enum(),
				PackageDir:     proto.String(pkg.Path()),
				PackageName:    proto.String(pkg.Name()),
			}
			first := true
			var incomingEdge *callgraph.Edge
			for v != nil {
				if !config.OmitPaths || (first && config.Granularity == GranularityFunction) {
					addFunction(&c.Path, v, incomingEdge)
				}
				first = false
				if pName := packagePath(v.Func); pkg.Path() != pName && !isStdLib(pName) {
					c.CapabilityType = cpb.CapabilityType_CAPABILITY_TYPE_TRANSITIVE.Enum()
				}
				incomingEdge, v = nodes[v].edge, nodes[v].next()
			}
"""))
keep("st3-info-direct", (A, """			var ctype cpb.CapabilityType
			var incomingEdge""", """			direct := true
			var incomingEdge"""), (A, """					ctype = cpb.CapabilityType_CAPABILITY_TYPE_DIRECT
					c.Capability""", """					c.Capability"""), (A, """					ctype = cpb.CapabilityType_CAPABILITY_TYPE_TRANSITIVE
				}
""", """					direct = false
				}
"""), (A, """			c.CapabilityType = &ctype
""", """			if direct {
				c.CapabilityType = cpb.CapabilityType_CAPABILITY_TYPE_DIRECT.Enum()
			} else {
				c.CapabilityType = cpb.CapabilityType_CAPABILITY_TYPE_TRANSITIVE.Enum()
			}
"""))
keep("st3-info-dep-join", (A, """				var b strings.Builder
				for i, p := range c.Path {
					if i != 0 {
						b.WriteByte(' ')
					}
					b.WriteString(p.GetName())
				}
				c.DepPath = proto.String(b.String())
""", """				var names []string
				for _, p := range c.Path {
					names = append(names, p.GetName())
				}
				c.DepPath = proto.String(strings.Join(names, " "))
"""))
keep("st3-info-dep-helper", (A, """				var b strings.Builder
				for i, p := range c.Path {
					if i != 0 {
						b.WriteByte(' ')
					}
					b.WriteString(p.GetName())
				}
				c.DepPath = proto.String(b.String())
""", """				c.DepPath = proto.String(depPath(c.Path))
"""), (A, """type CapabilityCounter struct""", """func depPath(fns []*cpb.Function) string {
	var s string
	for i, f := range fns {
		if i > 0 {
			s += " "
		}
		s += f.GetName()
	}
	return s
}

type CapabilityCounter struct"""))
keep("st3-info-dedup-loop", (A, """		caps = slices.DeleteFunc(caps, del)
""", """		var kept []output
		for _, o := range caps {
			if !del(o) {
				kept = append(kept, o)
			}
		}
		caps = kept
"""))
keep("st3-info-dedup-helper", (A, """		// Keep only the first entry in the sorted list for each (capability, package) pair.
		type cp struct {
			cpb.Capability
			*ssa.Package
		}
		seen := make(map[cp]struct{})
		// del returns true if the capability and package of o have been seen before.
		del := func(o output) bool {
			var pkg *ssa.Package
			if o.Function != nil {
				pkg = o.Function.Package()
			}
			cp := cp{o.CapabilityInfo.GetCapability(), pkg}
			if _, ok := seen[cp]; ok {
				return true
			}
			seen[cp] = struct{}{}
			return false
		}
		caps = slices.DeleteFunc(caps, del)
""", """		// Keep only the first entry in the sorted list for each (capability, package) pair.
		type cp struct {
			cpb.Capability
			*ssa.Package
		}
		seen := make(map[cp]bool)
		var first []output
		for _, o := range caps {
			k := cp{o.CapabilityInfo.GetCapability(), o.Function.Package()}
			if seen[k] {
				continue
			}
			seen[k] = true
			first = append(first, o)
		}
		caps = first
"""))
keep("st3-info-out-append", (A, """		CapabilityInfo: make([]*cpb.CapabilityInfo, len(caps)),
		ModuleInfo:     collectModuleInfo(pkgs),
		PackageInfo:    collectPackageInfo(pkgs),
	}
	for i := range caps {
		cil.CapabilityInfo[i] = caps[i].CapabilityInfo
	}
	return cil
""", """		ModuleInfo:  collectModuleInfo(pkgs),
		PackageInfo: collectPackageInfo(pkgs),
	}
	for _, o := range caps {
		cil.CapabilityInfo = append(cil.CapabilityInfo, o.CapabilityInfo)
	}
	return cil
"""))
keep("st3-merge-one", (A, """	for cap, ns := range extraNodesByCapability {
		for node := range ns {
			if _, ok := allNodesWithExplicitCapability[node]; ok {
				// This function already has an explicit category; don't add this
				// extra capability.
				continue
			}
			nodesByCapability.add(cap, node)
		}
	}
""", """	isExplicit := func(v *callgraph.Node) bool {
		_, ok := allNodesWithExplicitCapability[v]
		return ok
	}
	for cap, ns := range extraNodesByCapability {
		for node := range ns {
			// Skip functions which already have an explicit category.
			if !isExplicit(node) {
				nodesByCapability.add(cap, node)
			}
		}
	}
"""))
keep("st3-foreach-report", (A, """			// Skipping cases where v.Func.Package() doesn't exist.
			if v.Func.Package() == nil {
				continue
			}
			if _, ok := queriedPackages[v.Func.Package().Pkg]; ok {
				// v itself is in one of the queried packages.  Call fn here because
				// the BFS below will only call fn for functions that call v
				// directly or transitively.
				fn(cap, visited, v)
			}
""", """			// v itself may be in one of the queried packages.  Call fn here because
			// the BFS below will only call fn for functions that call v
			// directly or transitively.
			report(cap, visited, v)
"""), (A, """				if w.Func.Package() != nil {
					if _, ok := queriedPackages[w.Func.Package().Pkg]; ok {
						fn(cap, visited, w)
					}
				}
""", """				report(cap, visited, w)
"""), (A, """	extraNodesByCapability = nil // we don't use extraNodesByCapability again.
""", """	extraNodesByCapability = nil // we don't use extraNodesByCapability again.
	// report calls fn if v is in one of the queried packages.
	report := func(cap cpb.Capability, visited bfsStateMap, v *callgraph.Node) {
		p := v.Func.Package()
		if p == nil {
			return
		}
		if _, ok := queriedPackages[p.Pkg]; ok {
			fn(cap, visited, v)
		}
	}
"""))
keep("st3-foreach-search", (A, """	for _, cap := range caps {
		nodes := nodesByCapability[cap]
		var (
			visited = make(bfsStateMap)
			q       []*callgraph.Node // queue for the BFS
		)
		// Initialize the queue to contain the nodes with the capability.
		for v := range nodes {
			if _, ok := safe[v]; ok {
				continue
			}
			q = append(q, v)
			visited[v] = bfsState{}
		}
""", """	for _, cap := range caps {
		q, visited := startNodes(nodesByCapability[cap], safe)
"""), (A, """// forEachPath analyzes""", """// startNodes returns the nodes to start a search at, and its initial state.
func startNodes(nodes, safe nodeset) (q []*callgraph.Node, visited bfsStateMap) {
	visited = bfsStateMap{}
	for v := range nodes {
		if _, ok := safe[v]; !ok {
			q = append(q, v)
			visited[v] = bfsState{}
		}
	}
	return q, visited
}

// forEachPath analyzes"""))
keep("st3-foreach-skip", (A, """				if w.Func == nil {
					// Synthetic nodes may not have this information.
					continue
				}
				if _, ok := safe[w]; ok {
					continue
				}
				if _, ok := visited[w]; ok {
					// We have already visited w.
					continue
				}
				if _, ok := allNodesWithExplicitCapability[w]; ok {
					// w already has an explicit categorization.
					continue
				}
""", """				_, isSafe := safe[w]
				_, isExplicit := allNodesWithExplicitCapability[w]
				_, seen := visited[w]
				if w.Func == nil || isSafe || isExplicit || seen {
					continue
				}
"""))
keep("st3-reflect-switch", (U, """		// Check fields of structs.
		if s, ok := t.(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if rec(s.Field(i).Type()) {
					return true
				}
			}
		}
		// Check elements of arrays.
		if a, ok := t.(*types.Array); ok {
			return rec(a.Elem())
		}
		return false
""", """		switch t := t.(type) {
		case *types.Struct:
			for i := range t.NumFields() {
				if rec(t.Field(i).Type()) {
					return true
				}
			}
		case *types.Array:
			return rec(t.Elem())
		}
		return false
"""))
keep("st3-reflect-method", (U, """	seen := map[types.Type]struct{}{}
	var rec func(t types.Type) bool
	rec = func(t types.Type) bool {
		if t == nil {
			return false
		}
		if t.String() == "reflect.Value" {
			return true
		}
		// avoid an infinite loop if the type is recursive somehow.
		if _, ok := seen[t]; ok {
			return false
		}
		seen[t] = struct{}{}
		// If the unaliased type is different, use that.
		if u := types.Unalias(t); u != t {
			return rec(u)
		}
		// If the underlying type is different, use that.
		if u := t.Underlying(); !types.Identical(t, u) {
			return rec(u)
		}
		// Check fields of structs.
		if s, ok := t.(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if rec(s.Field(i).Type()) {
					return true
				}
			}
		}
		// Check elements of arrays.
		if a, ok := t.(*types.Array); ok {
			return rec(a.Elem())
		}
		return false
	}
	return rec(t)
}
""", """	return findReflectValue(t, map[types.Type]bool{})
}

// findReflectValue implements containsReflectValue.  The types in seen have
// been looked at already.
func findReflectValue(t types.Type, seen map[types.Type]bool) bool {
	if t == nil || seen[t] {
		return false
	}
	if t.String() == "reflect.Value" {
		return true
	}
	seen[t] = true
	// If the unaliased type is different, use that.
	if u := types.Unalias(t); u != t {
		return findReflectValue(u, seen)
	}
	// If the underlying type is different, use that.
	if u := t.Underlying(); !types.Identical(t, u) {
		return findReflectValue(u, seen)
	}
	switch t := t.(type) {
	case *types.Array:
		return findReflectValue(t.Elem(), seen)
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if findReflectValue(t.Field(i).Type(), seen) {
				return true
			}
		}
	}
	return false
}
"""))
keep("st3-visit-if", (U, """		funType := v.pkg.TypesInfo.Types[node.Fun]
		if !funType.IsType() {
			// The callee is not a type; it's probably a function or method.
			break
		}
		if b, ok := funType.Type.Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
			// The conversion is to a uintptr, not a pointer.  On its own, this is
			// safe.
			break
		}
		var args []ast.Expr = node.Args
		if len(args) != 1 {
			// There wasn't the right number of arguments.
			break
		}
		argType := v.pkg.TypesInfo.Types[args[0]].Type
		if argType == nil {
			// The argument has no type information.
			break
		}
		if b, ok := argType.Underlying().(*types.Basic); !ok || b.Kind() != types.UnsafePointer {
			// The argument's type is not equivalent to unsafe.Pointer.
			break
		}
		if v.currentFunction == nil {
			*v.seenUnsafePointerUseInInitialization = true
		} else {
			v.unsafeFunctionNodes[v.currentFunction] = struct{}{}
		}
	}
	return v
}
""", """		if v.convertsUnsafePointer(node) {
			v.found()
		}
	}
	return v
}

// found records a conversion in the current function.
func (v *visitor) found() {
	if v.currentFunction != nil {
		v.unsafeFunctionNodes[v.currentFunction] = struct{}{}
		return
	}
	*v.seenUnsafePointerUseInInitialization = true
}

// convertsUnsafePointer returns whether call converts an unsafe.Pointer to a
// type other than uintptr.
func (v *visitor) convertsUnsafePointer(call *ast.CallExpr) bool {
	isKind := func(t types.Type, kind types.BasicKind) bool {
		if t == nil {
			return false
		}
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Kind() == kind
	}
	info := v.pkg.TypesInfo
	fun := info.Types[call.Fun]
	return fun.IsType() && !isKind(fun.Type, types.Uintptr) &&
		len(call.Args) == 1 && isKind(info.Types[call.Args[0]].Type, types.UnsafePointer)
}
"""))
keep("st3-packages-stack", (U, """	visitedPackages := make(map[*packages.Package]struct{})
	var visit func(p *packages.Package)
	visit = func(p *packages.Package) {
		if _, ok := visitedPackages[p]; ok {
			return
		}
		visitedPackages[p] = struct{}{}
		for _, p2 := range p.Imports {
			visit(p2)
		}
		fn(p)
	}
	for _, p := range pkgs {
		visit(p)
	}
""", """	packages.Visit(pkgs, nil, fn)
"""))
keep("st3-packages-bool", (U, """	visitedPackages := make(map[*packages.Package]struct{})
	var visit func(p *packages.Package)
	visit = func(p *packages.Package) {
		if _, ok := visitedPackages[p]; ok {
			return
		}
		visitedPackages[p] = struct{}{}
		for _, p2 := range p.Imports {
			visit(p2)
		}
		fn(p)
	}
	for _, p := range pkgs {
		visit(p)
	}
""", """	seen := make(map[*packages.Package]bool)
	var visit func(*packages.Package)
	visit = func(p *packages.Package) {
		if !seen[p] {
			seen[p] = true
			for _, dep := range p.Imports {
				visit(dep)
			}
			fn(p)
		}
	}
	for i := range pkgs {
		visit(pkgs[i])
	}
"""))
keep("st3-add-function-site", (U, """	if position := callsitePosition(incomingEdge); position.IsValid() {
		fn.Site = &cpb.Function_Site{
			Filename: proto.String(path.Base(position.Filename)),
			Line:     proto.Int64(int64(position.Line)),
			Column:   proto.Int64(int64(position.Column)),
		}
	}
	*fns = append(*fns, fn)
}
""", """	fn.Site = site(incomingEdge)
	*fns = append(*fns, fn)
}

// site returns the position of the call that edge represents, or nil.
func site(edge *callgraph.Edge) *cpb.Function_Site {
	position := callsitePosition(edge)
	if !position.IsValid() {
		return nil
	}
	s := new(cpb.Function_Site)
	s.Filename = proto.String(path.Base(position.Filename))
	s.Line = proto.Int64(int64(position.Line))
	s.Column = proto.Int64(int64(position.Column))
	return s
}
"""))
keep("st3-node-package", (U, """	if pkg := fn.Package(); pkg != nil {
		return pkg.Pkg
	}
	// Generic functions and methods.
	if o := fn.Origin(); o != nil {
		if pkg := o.Package(); pkg != nil {
			return pkg.Pkg
		}
	}
	// Method expressions.
	if strings.HasSuffix(fn.Name(), "$thunk") {
		if len(fn.Params) > 0 {
			return receiverTypePackage(fn.Params[0].Object().Type())
		}
	}
	// Method values.
	if strings.HasSuffix(fn.Name(), "$bound") {
		if len(fn.FreeVars) >= 1 {
			return receiverTypePackage(fn.FreeVars[0].Type())
		}
	}
	// Other wrappers.
	if sig := fn.Signature; sig != nil {
		if recv := sig.Recv(); recv != nil {
			if pkg := recv.Pkg(); pkg != nil {
				return pkg
			}
		}
	}
	return nil
""", """	if pkg := fn.Package(); pkg != nil {
		return pkg.Pkg
	}
	// Generic functions and methods.
	if o := fn.Origin(); o != nil && o.Package() != nil {
		return o.Package().Pkg
	}
	switch name := fn.Name(); {
	case strings.HasSuffix(name, "$thunk") && len(fn.Params) > 0:
		// Method expressions.
		return receiverTypePackage(fn.Params[0].Object().Type())
	case strings.HasSuffix(name, "$bound") && len(fn.FreeVars) > 0:
		// Method values.
		return receiverTypePackage(fn.FreeVars[0].Type())
	}
	// Other wrappers.
	if fn.Signature == nil || fn.Signature.Recv() == nil {
		return nil
	}
	return fn.Signature.Recv().Pkg()
"""))
keep("st3-modules-values", (L, """	// Sort by path.
	var modulePaths []string
	for path := range pathToModule {
		modulePaths = append(modulePaths, path)
	}
	sort.Strings(modulePaths)
	// Construct the output slice.
	var modules []*cpb.ModuleInfo
	for _, path := range modulePaths {
		modules = append(modules, pathToModule[path])
	}
	return modules
""", """	var modules []*cpb.ModuleInfo
	for _, m := range pathToModule {
		modules = append(modules, m)
	}
	// Sort by path.
	sort.Slice(modules, func(i, j int) bool {
		return modules[i].GetPath() < modules[j].GetPath()
	})
	return modules
"""))
keep("st3-modules-list", (L, """	pathToModule := make(map[string]*cpb.ModuleInfo)
	forEachPackageIncludingDependencies(pkgs, func(pkg *packages.Package) {
		m := pkg.Module
		if m == nil || m.Path == "" || m.Version == "" {
			// No module information.
			return
		}
		if _, ok := pathToModule[m.Path]; ok {
			// We've seen this module.
			return
		}
		pm := new(cpb.ModuleInfo)
		pm.Path = proto.String(m.Path)
		pm.Version = proto.String(m.Version)
		pathToModule[m.Path] = pm
	})
	// Sort by path.
	var modulePaths []string
	for path := range pathToModule {
		modulePaths = append(modulePaths, path)
	}
	sort.Strings(modulePaths)
	// Construct the output slice.
	var modules []*cpb.ModuleInfo
	for _, path := range modulePaths {
		modules = append(modules, pathToModule[path])
	}
	return modules
""", """	seen := make(map[string]bool)
	var modules []*cpb.ModuleInfo
	forEachPackageIncludingDependencies(pkgs, func(pkg *packages.Package) {
		m := pkg.Module
		if m == nil || m.Path == "" || m.Version == "" || seen[m.Path] {
			return
		}
		seen[m.Path] = true
		modules = append(modules, &cpb.ModuleInfo{
			Path:    proto.String(m.Path),
			Version: proto.String(m.Version),
		})
	})
	sort.Slice(modules, func(i, j int) bool { return modules[i].GetPath() < modules[j].GetPath() })
	return modules
"""))
keep("st3-package-info", (L, """		if _, ok := std[pkg.PkgPath]; ok {
			// Skip this package since it is part of the Go standard library.
			return
		}
		pi := new(cpb.PackageInfo)
		pi.Path = proto.String(pkg.PkgPath)
		for _, i := range pkg.IgnoredFiles {
			pi.IgnoredFiles = append(pi.IgnoredFiles, path.Base(i))
		}
		out = append(out, pi)
""", """		if _, ok := std[pkg.PkgPath]; !ok {
			// The package is not part of the Go standard library.
			out = append(out, packageInfo(pkg))
		}
"""), (L, """func collectPackageInfo(""", """func packageInfo(pkg *packages.Package) *cpb.PackageInfo {
	var ignored []string
	for _, f := range pkg.IgnoredFiles {
		ignored = append(ignored, path.Base(f))
	}
	return &cpb.PackageInfo{Path: proto.String(pkg.PkgPath), IgnoredFiles: ignored}
}

func collectPackageInfo("""))
keep("st3-std-oncevalue", (L, """var (
	standardLibraryPackagesOnce sync.Once
	standardLibraryPackagesMap  map[string]struct{}
)
""", """var standardLibraryPackages = sync.OnceValue(loadStandardLibraryPackages)
"""), (L, """func standardLibraryPackages() map[string]struct{} {
	standardLibraryPackagesOnce.Do(func() {
		pkgs, err := packages.Load(nil, "std")
		if err != nil {
			panic(err.Error())
		}
		standardLibraryPackagesMap = make(map[string]struct{})
		for _, p := range pkgs {
			standardLibraryPackagesMap[p.PkgPath] = struct{}{}
		}
	})
	return standardLibraryPackagesMap
}
""", """func loadStandardLibraryPackages() map[string]struct{} {
	pkgs, err := packages.Load(nil, "std")
	if err != nil {
		panic(err.Error())
	}
	m := make(map[string]struct{})
	for _, p := range pkgs {
		m[p.PkgPath] = struct{}{}
	}
	return m
}
"""))
keep("st3-std-once-func", (L, """	standardLibraryPackagesOnce.Do(func() {
		pkgs, err := packages.Load(nil, "std")
		if err != nil {
			panic(err.Error())
		}
		standardLibraryPackagesMap = make(map[string]struct{})
		for _, p := range pkgs {
			standardLibraryPackagesMap[p.PkgPath] = struct{}{}
		}
	})
	return standardLibraryPackagesMap
}
""", """	standardLibraryPackagesOnce.Do(loadStandardLibraryPackages)
	return standardLibraryPackagesMap
}

func loadStandardLibraryPackages() {
	pkgs, err := packages.Load(nil, "std")
	if err != nil {
		panic(err.Error())
	}
	m := make(map[string]struct{}, len(pkgs))
	for _, p := range pkgs {
		m[p.PkgPath] = struct{}{}
	}
	standardLibraryPackagesMap = m
}
"""))
keep("st3-errors-state", (K, """	add := func(err error) {
		anyErrors = true
		if stop {
			skippedErrors++
			return
		}
		fmt.Fprintln(&buf, err)
		if buf.Len() > limit {
			stop = true
			buf.Truncate(limit)
			buf.WriteString("(...truncated)\\n")
		}
	}
""", """	add := func(err error) {
		anyErrors = true
		switch {
		case stop:
			skippedErrors++
		default:
			buf.WriteString(err.Error() + "\\n")
			if buf.Len() > limit {
				stop = true
				buf.Truncate(limit)
				buf.WriteString("(...truncated)\\n")
			}
		}
	}
"""))
keep("st3-errors-one-visit", (K, """	// Print module errors.
	seen := make(map[*packages.Module]bool)
	packages.Visit(pkgs, func(p *packages.Package) bool {
		if mod := p.Module; mod != nil && seen[mod] == false {
			seen[mod] = true
			if err := mod.Error; err != nil {
				add(errors.New(err.Err))
			}
		}
		return true
	}, nil)

	// Print package errors.
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, err := range p.Errors {
			add(err)
		}
	})
""", """	// Print module errors.
	seen := make(map[*packages.Module]struct{})
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		mod := p.Module
		if mod == nil || mod.Error == nil {
			return
		}
		if _, ok := seen[mod]; ok {
			return
		}
		seen[mod] = struct{}{}
		add(errors.New(mod.Error.Err))
	})

	// Print package errors.
	packages.Visit(pkgs, func(p *packages.Package) bool {
		for i := range p.Errors {
			add(p.Errors[i])
		}
		return true
	}, nil)
"""))
keep("st3-profile-helper", (K, """	if *memprofile != "" {
		f, err := os.Create(*memprofile)
		if err != nil {
			return fmt.Errorf("could not create memory profile file: %w", err)
		}
		runtime.GC()
		if err := pprof.WriteHeapProfile(f); err != nil {
			return fmt.Errorf("could not write memory profile: %w", err)
		}
		if err := f.Close(); err != nil {
			return fmt.Errorf("could not close memory profile file: %w", err)
		}
	}
	return err
}
""", """	if *memprofile != "" {
		if perr := writeMemoryProfile(*memprofile); perr != nil {
			return perr
		}
	}
	return err
}

func writeMemoryProfile(name string) error {
	f, err := os.Create(name)
	if err != nil {
		return fmt.Errorf("could not create memory profile file: %w", err)
	}
	runtime.GC()
	if err := pprof.WriteHeapProfile(f); err != nil {
		return fmt.Errorf("could not write memory profile: %w", err)
	}
	if err := f.Close(); err != nil {
		return fmt.Errorf("could not close memory profile file: %w", err)
	}
	return nil
}
"""))
keep("st3-options-struct", (K, """	loadConfig := analyzer.LoadConfig{
		BuildTags: *buildTags,
		GOOS:      *goos,
		GOARCH:    *goarch,
	}
""", """	var loadConfig analyzer.LoadConfig
	loadConfig.BuildTags = *buildTags
	loadConfig.GOARCH = *goarch
	loadConfig.GOOS = *goos
"""), (K, """	err = analyzer.RunCapslock(flag.Args(), *output, pkgs, queriedPackages, &analyzer.Config{
		Classifier:     classifier,
		DisableBuiltin: *disableBuiltin,
		Granularity:    g,
		CapabilitySet:  cs,
		OmitPaths:      *omitPaths,
	})
""", """	config := analyzer.Config{
		Granularity:   g,
		CapabilitySet: cs,
		OmitPaths:     *omitPaths,
	}
	config.Classifier = classifier
	config.DisableBuiltin = *disableBuiltin
	err = analyzer.RunCapslock(flag.Args(), *output, pkgs, queriedPackages, &config)
"""))
keep("st3-load-wrap", (K, """	pkgs, err = analyzer.LoadPackages(packageNames, loadConfig)
	for _, p := range pkgs {
		for _, e := range p.Errors {
			if e.Kind == packages.ListError {
				return pkgs, true, p.ID, err
			}
		}
	}
	return pkgs, false, "", err
}
""", """	pkgs, err = analyzer.LoadPackages(packageNames, loadConfig)
	for _, p := range pkgs {
		if hasListError(p) {
			listFailed, failedPackage = true, p.ID
			break
		}
	}
	return pkgs, listFailed, failedPackage, err
}

func hasListError(p *packages.Package) bool {
	for _, e := range p.Errors {
		if e.Kind == packages.ListError {
			return true
		}
	}
	return false
}
"""))
keep("st3-set-once", (G, """		c, ok := cpb.Capability_value[s]
		if !ok {
			c, ok = cpb.Capability_value["CAPABILITY_"+s]
		}
		if !ok {
			return nil, fmt.Errorf("unknown capability %q", s)
		}
		out[cpb.Capability(c)] = struct{}{}
""", """		if c, ok := cpb.Capability_value[s]; ok {
			out[cpb.Capability(c)] = struct{}{}
		} else if c, ok := cpb.Capability_value["CAPABILITY_"+s]; ok {
			out[cpb.Capability(c)] = struct{}{}
		} else {
			return nil, fmt.Errorf("unknown capability %q", s)
		}
"""))
keep("st3-graph-funcs", (G, """	callEdge := func(edge *callgraph.Edge) {
		gb.Edge(edge.Caller, edge.Callee)
	}
	capabilityEdge := func(fn *callgraph.Node, c cpb.Capability) {
		gb.Edge(fn, c)
	}
	var filter func(c cpb.Capability) bool
	if config.CapabilitySet != nil {
		filter = config.CapabilitySet.Has
	}
	CapabilityGraph(pkgs, queriedPackages, config, nil, callEdge, capabilityEdge, filter)
	gb.Done()
	return w.Flush()
}
""", """	var filter func(c cpb.Capability) bool
	if set := config.CapabilitySet; set != nil {
		filter = func(c cpb.Capability) bool { return set.Has(c) }
	}
	CapabilityGraph(pkgs, queriedPackages, config, nil, gb.call, gb.capability, filter)
	gb.Done()
	return w.Flush()
}

func (gb *graphBuilder) call(edge *callgraph.Edge) {
	gb.Edge(edge.Caller, edge.Callee)
}

func (gb *graphBuilder) capability(fn *callgraph.Node, c cpb.Capability) {
	gb.Edge(fn, c)
}
"""))
keep("st3-graph-line", (G, """	gb.Write([]byte("\\t"))
	gb.Write([]byte(`"`))
	gb.Write([]byte(quoteReplacer.Replace(gb.nodeNamer(from))))
	gb.Write([]byte(`" -> "`))
	gb.Write([]byte(quoteReplacer.Replace(gb.nodeNamer(to))))
	gb.Write([]byte("\\"\\n"))
}
""", """	io.WriteString(gb.Writer, "\\t"+gb.quote(from)+" -> "+gb.quote(to)+"\\n")
}

// quote returns the name of a node as a quoted string.
func (gb *graphBuilder) quote(node any) string {
	return `"` + quoteReplacer.Replace(gb.nodeNamer(node)) + `"`
}
"""))
