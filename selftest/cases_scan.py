A = "analyzer/analyzer.go"
U = "analyzer/util.go"

# ---- behaviour-preserving ----
keep("scan-locals-helper", (A, """		locals := map[ssa.Value]struct{}{}
		for _, l := range f.Locals {
			if !l.Heap {
				locals[l] = struct{}{}
			}
		}
""", """		locals := nonEscaping(f)
"""), (A, "// findUnsafePointerConversions uses", """func nonEscaping(f *ssa.Function) map[ssa.Value]struct{} {
	locals := map[ssa.Value]struct{}{}
	for _, l := range f.Locals {
		if l.Heap {
			continue
		}
		locals[l] = struct{}{}
	}
	return locals
}

// findUnsafePointerConversions uses"""))
keep("scan-instr-switch", (A, """				if ia, ok := i.(*ssa.IndexAddr); ok {
					if _, islocal := locals[ia.X]; islocal {
						locals[ia] = struct{}{}
					}
				}
				// A FieldAddr instruction creates an SSA value which refers to a
				// field of a struct.  A field of a local struct is also local.
				if f, ok := i.(*ssa.FieldAddr); ok {
					if _, islocal := locals[f.X]; islocal {
						locals[f] = struct{}{}
					}
				}
				// Check the destination of store instructions.
				if s, ok := i.(*ssa.Store); ok {
					dest := s.Addr
""", """				switch s := i.(type) {
				case *ssa.IndexAddr:
					if _, islocal := locals[s.X]; islocal {
						locals[s] = struct{}{}
					}
				case *ssa.FieldAddr:
					if _, islocal := locals[s.X]; islocal {
						locals[s] = struct{}{}
					}
				case *ssa.Store:
					dest := s.Addr
"""))
keep("scan-store-helper", (A, """		locals := map[ssa.Value]struct{}{}
		for _, l := range f.Locals {
			if !l.Heap {
				locals[l] = struct{}{}
			}
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				// An IndexAddr instruction creates an SSA value which refers to an
				// element of an array.  An element of a local array is also local.
				if ia, ok := i.(*ssa.IndexAddr); ok {
					if _, islocal := locals[ia.X]; islocal {
						locals[ia] = struct{}{}
					}
				}
				// A FieldAddr instruction creates an SSA value which refers to a
				// field of a struct.  A field of a local struct is also local.
				if f, ok := i.(*ssa.FieldAddr); ok {
					if _, islocal := locals[f.X]; islocal {
						locals[f] = struct{}{}
					}
				}
				// Check the destination of store instructions.
				if s, ok := i.(*ssa.Store); ok {
					dest := s.Addr
					if _, islocal := locals[dest]; islocal {
						continue
					}
					// dest.Type should be a types.Pointer, or a type defined as one,
					// pointing to the type of the value that is copied by this
					// instruction.
					typ, ok := dest.Type().Underlying().(*types.Pointer)
					if !ok {
						continue
					}
					if !containsReflectValue(typ.Elem()) {
						continue
					}
					if node, ok := graph.Nodes[f]; ok {
						// This is a store to a non-local reflect.Value, or to a non-local
						// object that contains a reflect.Value.
						extraNodesByCapability.add(cpb.Capability_CAPABILITY_REFLECT, node)
					}
				}
			}
		}
	}
""", """		if !storesReflectValue(f) {
			continue
		}
		if node, ok := graph.Nodes[f]; ok {
			extraNodesByCapability.add(cpb.Capability_CAPABILITY_REFLECT, node)
		}
	}
"""), (A, "// findUnsafePointerConversions uses", """func storesReflectValue(f *ssa.Function) bool {
	locals := map[ssa.Value]struct{}{}
	for _, l := range f.Locals {
		if !l.Heap {
			locals[l] = struct{}{}
		}
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.IndexAddr:
				if _, islocal := locals[i.X]; islocal {
					locals[i] = struct{}{}
				}
			case *ssa.FieldAddr:
				if _, islocal := locals[i.X]; islocal {
					locals[i] = struct{}{}
				}
			case *ssa.Store:
				if _, islocal := locals[i.Addr]; islocal {
					continue
				}
				if typ, ok := i.Addr.Type().Underlying().(*types.Pointer); ok && containsReflectValue(typ.Elem()) {
					return true
				}
			}
		}
	}
	return false
}

// findUnsafePointerConversions uses"""))
keep("scan-islocal-closure", (A, """		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				// An IndexAddr""", """		isLocal := func(v ssa.Value) bool {
			_, ok := locals[v]
			return ok
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				// An IndexAddr"""), (A, """					if _, islocal := locals[ia.X]; islocal {""", """					if isLocal(ia.X) {"""),
     (A, """					if _, islocal := locals[dest]; islocal {""", """					if isLocal(dest) {"""))
keep("scan-index-loops", (A, """		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				// An IndexAddr""", """		for bi := 0; bi < len(f.Blocks); bi++ {
			b := f.Blocks[bi]
			for ii := range b.Instrs {
				i := b.Instrs[ii]
				// An IndexAddr"""))
keep("scan-break-after-found", (A, """						extraNodesByCapability.add(cpb.Capability_CAPABILITY_REFLECT, node)
""", """						extraNodesByCapability.add(cpb.Capability_CAPABILITY_REFLECT, node)
						break
"""))
keep("scan-node-first", (A, """		// Find the function variables that do not escape.
""", """		node, ok := graph.Nodes[f]
		if !ok {
			continue
		}
		// Find the function variables that do not escape.
"""), (A, """					if node, ok := graph.Nodes[f]; ok {
						// This is a store to a non-local reflect.Value, or to a non-local
						// object that contains a reflect.Value.
						extraNodesByCapability.add(cpb.Capability_CAPABILITY_REFLECT, node)
					}
""", """					extraNodesByCapability.add(cpb.Capability_CAPABILITY_REFLECT, node)
"""))
keep("scan-val-type", (A, """					typ, ok := dest.Type().Underlying().(*types.Pointer)
					if !ok {
						continue
					}
					if !containsReflectValue(typ.Elem()) {
						continue
					}
""", """					if !containsReflectValue(s.Val.Type()) {
						continue
					}
"""))
keep("scan-asm-switch", (A, """		if f.Blocks == nil {
			// No source code for this function.
			if f.Synthetic != "" {
				// Exclude synthetic functions, such as those loaded from object files.
				continue
			}
			extraNodesByCapability.add(cpb.Capability_CAPABILITY_ARBITRARY_EXECUTION, node)
		}
""", """		if len(f.Blocks) == 0 && f.Synthetic == "" {
			extraNodesByCapability.add(cpb.Capability_CAPABILITY_ARBITRARY_EXECUTION, node)
		}
"""))
keep("scan-asm-helper", (A, """		if f.Blocks == nil {
			// No source code for this function.
			if f.Synthetic != "" {
				// Exclude synthetic functions, such as those loaded from object files.
				continue
			}
			extraNodesByCapability""", """		if isAsm(f) {
			extraNodesByCapability"""), (A, "// findUnsafePointerConversions uses", """func isAsm(f *ssa.Function) bool {
	switch {
	case f.Blocks != nil:
		return false
	case f.Synthetic != "":
		return false
	}
	return true
}

// findUnsafePointerConversions uses"""))
keep("scan-three-helpers", (A, """	for f := range unsafePointerFunctions {
		if node, ok := graph.Nodes[f]; ok {
			extraNodesByCapability.add(cpb.Capability_CAPABILITY_UNSAFE_POINTER, node)
		}
	}
	// Add the arbitrary-execution capability to asm function nodes.
""", """	addUnsafe(extraNodesByCapability, graph, unsafePointerFunctions)
"""), (A, "// findUnsafePointerConversions uses", """func addUnsafe(nc nodesetPerCapability, graph *callgraph.Graph, fns map[*ssa.Function]struct{}) {
	for f := range fns {
		node := graph.Nodes[f]
		if node == nil {
			continue
		}
		nc.add(cpb.Capability_CAPABILITY_UNSAFE_POINTER, node)
	}
}

// findUnsafePointerConversions uses"""))
keep("scan-reorder", (A, """	for f := range unsafePointerFunctions {
		if node, ok := graph.Nodes[f]; ok {
			extraNodesByCapability.add(cpb.Capability_CAPABILITY_UNSAFE_POINTER, node)
		}
	}
	// Add the arbitrary-execution capability to asm function nodes.
	for f, node := range graph.Nodes {
		if f.Blocks == nil {
			// No source code for this function.
			if f.Synthetic != "" {
				// Exclude synthetic functions, such as those loaded from object files.
				continue
			}
			extraNodesByCapability.add(cpb.Capability_CAPABILITY_ARBITRARY_EXECUTION, node)
		}
	}
	return""", """	for f, node := range graph.Nodes {
		if f.Blocks == nil && f.Synthetic == "" {
			extraNodesByCapability.add(cpb.Capability_CAPABILITY_ARBITRARY_EXECUTION, node)
		}
	}
	for f := range unsafePointerFunctions {
		if node, ok := graph.Nodes[f]; ok {
			extraNodesByCapability.add(cpb.Capability_CAPABILITY_UNSAFE_POINTER, node)
		}
	}
	return"""))
keep("scan-one-loop", (A, """	for f, node := range graph.Nodes {
		if f.Blocks == nil {
			// No source""", """	for f, node := range graph.Nodes {
		if _, ok := unsafePointerFunctions[f]; ok {
			extraNodesByCapability.add(cpb.Capability_CAPABILITY_UNSAFE_POINTER, node)
		}
		if f.Blocks == nil {
			// No source"""), (A, """	for f := range unsafePointerFunctions {
		if node, ok := graph.Nodes[f]; ok {
			extraNodesByCapability.add(cpb.Capability_CAPABILITY_UNSAFE_POINTER, node)
		}
	}
""", ""))
keep("scan-builtin-early", (A, """	if !config.DisableBuiltin {
		extraNodesByCapability = getExtraNodesByCapability(graph, allFunctions, unsafePointerFunctions)
	}
	return safe, nodesByCapability, extraNodesByCapability
""", """	if config.DisableBuiltin {
		return safe, nodesByCapability, nil
	}
	return safe, nodesByCapability, getExtraNodesByCapability(graph, allFunctions, unsafePointerFunctions)
"""))
keep("scan-unsafe-lazily", (A, """	unsafePointerFunctions := findUnsafePointerConversions(pkgs, ssaProg, allFunctions)
	ssaProg = nil // possibly save memory; we don't use ssaProg again
	safe,""", """	safe,"""), (A, """		extraNodesByCapability = getExtraNodesByCapability(graph, allFunctions, unsafePointerFunctions)
	}
	return safe""", """		unsafePointerFunctions := findUnsafePointerConversions(pkgs, ssaProg, allFunctions)
		extraNodesByCapability = getExtraNodesByCapability(graph, allFunctions, unsafePointerFunctions)
	}
	return safe"""))
keep("scan-visit-helper", (U, """		funType := v.pkg.TypesInfo.Types[node.Fun]
		if !funType.IsType() {
			// The callee is not a type; it's probably a function or method.
			break
		}
		if b, ok := funType.Type.Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
			// The conversion is to a uintptr, not a pointer.  On its own, this is
			// safe.
			break
		}
		var args []ast.Expr = node.Args
		if len(args) != 1 {
			// There wasn't the right number of arguments.
			break
		}
		argType := v.pkg.TypesInfo.Types[args[0]].Type
		if argType == nil {
			// The argument has no type information.
			break
		}
		if b, ok := argType.Underlying().(*types.Basic); !ok || b.Kind() != types.UnsafePointer {
			// The argument's type is not equivalent to unsafe.Pointer.
			break
		}
""", """		if !convertsUnsafePointer(v.pkg.TypesInfo, node) {
			break
		}
"""), (U, "// forEachPackageIncludingDependencies calls fn exactly", """func hasKind(t types.Type, k types.BasicKind) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == k
}

func convertsUnsafePointer(info *types.Info, call *ast.CallExpr) bool {
	fun := info.Types[call.Fun]
	if !fun.IsType() || hasKind(fun.Type, types.Uintptr) || len(call.Args) != 1 {
		return false
	}
	arg := info.TypeOf(call.Args[0])
	return arg != nil && hasKind(arg, types.UnsafePointer)
}

// forEachPackageIncludingDependencies calls fn exactly"""))
keep("scan-visit-two-cases", (U, """	case *ast.FuncDecl, *ast.FuncLit:
		// The subtree at this node is a function definition or function literal.
		// The visitor returned here is used to visit this node's children, so we
		// return a visitor with the current function set to this node.
		v2 := *v
		v2.currentFunction = node
		return &v2
""", """	case *ast.FuncDecl:
		return v.inside(node)
	case *ast.FuncLit:
		return v.inside(node)
"""), (U, "func (v *visitor) Visit(", """func (v *visitor) inside(node ast.Node) *visitor {
	return &visitor{
		unsafeFunctionNodes:                  v.unsafeFunctionNodes,
		seenUnsafePointerUseInInitialization: v.seenUnsafePointerUseInInitialization,
		pkg:                                  v.pkg,
		currentFunction:                      node,
	}
}

func (v *visitor) Visit("""))
keep("scan-visit-record-helper", (U, """		if v.currentFunction == nil {
			*v.seenUnsafePointerUseInInitialization = true
		} else {
			v.unsafeFunctionNodes[v.currentFunction] = struct{}{}
		}
	}
	return v
}
""", """		v.record()
	}
	return v
}

func (v *visitor) record() {
	if v.currentFunction != nil {
		v.unsafeFunctionNodes[v.currentFunction] = struct{}{}
		return
	}
	*v.seenUnsafePointerUseInInitialization = true
}
"""))
keep("scan-visit-packages-visit", (A, """	forEachPackageIncludingDependencies(pkgs, func(pkg *packages.Package) {
		seenUnsafe""", """	packages.Visit(pkgs, nil, func(pkg *packages.Package) {
		seenUnsafe"""))
keep("scan-foreach-visit", (U, """	visitedPackages := make(map[*packages.Package]struct{})
	var visit func(p *packages.Package)
	visit = func(p *packages.Package) {
		if _, ok := visitedPackages[p]; ok {
			return
		}
		visitedPackages[p] = struct{}{}
		for _, p2 := range p.Imports {
			visit(p2)
		}
		fn(p)
	}
	for _, p := range pkgs {
		visit(p)
	}
""", """	packages.Visit(pkgs, nil, fn)
"""))
keep("scan-foreach-bool-set", (U, """	visitedPackages := make(map[*packages.Package]struct{})
	var visit func(p *packages.Package)
	visit = func(p *packages.Package) {
		if _, ok := visitedPackages[p]; ok {
			return
		}
		visitedPackages[p] = struct{}{}
		for _, p2 := range p.Imports {
			visit(p2)
		}
		fn(p)
	}
""", """	visitedPackages := make(map[*packages.Package]bool)
	var visit func(p *packages.Package)
	visit = func(p *packages.Package) {
		if !visitedPackages[p] {
			visitedPackages[p] = true
			for _, p2 := range p.Imports {
				visit(p2)
			}
			fn(p)
		}
	}
"""))
keep("scan-foreach-func", (U, """	visitedPackages := make(map[*packages.Package]struct{})
	var visit func(p *packages.Package)
	visit = func(p *packages.Package) {
		if _, ok := visitedPackages[p]; ok {
			return
		}
		visitedPackages[p] = struct{}{}
		for _, p2 := range p.Imports {
			visit(p2)
		}
		fn(p)
	}
	for _, p := range pkgs {
		visit(p)
	}
}
""", """	visited := make(map[*packages.Package]struct{})
	for _, p := range pkgs {
		visitPackage(p, visited, fn)
	}
}

func visitPackage(p *packages.Package, visited map[*packages.Package]struct{}, fn func(*packages.Package)) {
	if _, ok := visited[p]; ok {
		return
	}
	visited[p] = struct{}{}
	for _, p2 := range p.Imports {
		visitPackage(p2, visited, fn)
	}
	fn(p)
}
"""))
keep("scan-foreach-stack", (U, """	visitedPackages := make(map[*packages.Package]struct{})
	var visit func(p *packages.Package)
	visit = func(p *packages.Package) {
		if _, ok := visitedPackages[p]; ok {
			return
		}
		visitedPackages[p] = struct{}{}
		for _, p2 := range p.Imports {
			visit(p2)
		}
		fn(p)
	}
	for _, p := range pkgs {
		visit(p)
	}
""", """	visitedPackages := make(map[*packages.Package]struct{})
	stack := append([]*packages.Package(nil), pkgs...)
	for len(stack) > 0 {
		p := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if _, ok := visitedPackages[p]; ok {
			continue
		}
		visitedPackages[p] = struct{}{}
		for _, p2 := range p.Imports {
			stack = append(stack, p2)
		}
		fn(p)
	}
"""))
keep("scan-crv-switch", (U, """		if s, ok := t.(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if rec(s.Field(i).Type()) {
					return true
				}
			}
		}
		// Check elements of arrays.
		if a, ok := t.(*types.Array); ok {
			return rec(a.Elem())
		}
		return false
""", """		switch t := t.(type) {
		case *types.Struct:
			for i := range t.NumFields() {
				if rec(t.Field(i).Type()) {
					return true
				}
			}
		case *types.Array:
			return rec(t.Elem())
		}
		return false
"""))
keep("scan-crv-underlying", (U, """		// If the unaliased type is different, use that.
		if u := types.Unalias(t); u != t {
			return rec(u)
		}
		// If the underlying type is different, use that.
		if u := t.Underlying(); !types.Identical(t, u) {
			return rec(u)
		}
		// Check fields of structs.
		if s, ok := t.(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if rec(s.Field(i).Type()) {
					return true
				}
			}
		}
		// Check elements of arrays.
		if a, ok := t.(*types.Array); ok {
			return rec(a.Elem())
		}
		return false
""", """		if u := types.Unalias(t); u != t {
			return rec(u)
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			found := false
			for i := 0; i < u.NumFields() && !found; i++ {
				found = rec(u.Field(i).Type())
			}
			return found
		case *types.Array:
			return rec(u.Elem())
		default:
			return false
		}
"""))
keep("scan-crv-func", (U, """	seen := map[types.Type]struct{}{}
	var rec func(t types.Type) bool
	rec = func(t types.Type) bool {
		if t == nil {
			return false
		}
		if t.String() == "reflect.Value" {
			return true
		}
		// avoid an infinite loop if the type is recursive somehow.
		if _, ok := seen[t]; ok {
			return false
		}
		seen[t] = struct{}{}
		// If the unaliased type is different, use that.
		if u := types.Unalias(t); u != t {
			return rec(u)
		}
		// If the underlying type is different, use that.
		if u := t.Underlying(); !types.Identical(t, u) {
			return rec(u)
		}
		// Check fields of structs.
		if s, ok := t.(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if rec(s.Field(i).Type()) {
					return true
				}
			}
		}
		// Check elements of arrays.
		if a, ok := t.(*types.Array); ok {
			return rec(a.Elem())
		}
		return false
	}
	return rec(t)
}
""", """	return containsValue(t, map[types.Type]bool{})
}

func containsValue(t types.Type, seen map[types.Type]bool) bool {
	if t == nil || seen[t] {
		return false
	}
	if t.String() == "reflect.Value" {
		return true
	}
	seen[t] = true
	if u := types.Unalias(t); u != t {
		return containsValue(u, seen)
	}
	if u := t.Underlying(); !types.Identical(t, u) {
		return containsValue(u, seen)
	}
	if s, ok := t.(*types.Struct); ok {
		return anyField(s, func(f types.Type) bool { return containsValue(f, seen) })
	}
	if a, ok := t.(*types.Array); ok {
		return containsValue(a.Elem(), seen)
	}
	return false
}

func anyField(s *types.Struct, pred func(types.Type) bool) bool {
	for i := 0; i < s.NumFields(); i++ {
		if pred(s.Field(i).Type()) {
			return true
		}
	}
	return false
}
"""))
keep("scan-merge-maps", (A, """	for f := range allFunctions {
		if _, ok := unsafeFunctionNodes[f.Syntax()]; ok {
			unsafePointerFunctions[f] = struct{}{}
""", """	for f := range allFunctions {
		syntax := f.Syntax()
		if _, found := unsafeFunctionNodes[syntax]; found {
			unsafePointerFunctions[f] = struct{}{}
"""))
keep("scan-add-helper", (U, """	m := nc[cap]
	if m == nil {
		m = make(nodeset)
		nc[cap] = m
	}
	m[node] = struct{}{}
""", """	if nc[cap] == nil {
		nc[cap] = make(nodeset)
	}
	nc[cap][node] = struct{}{}
"""))

# ---- breaking ----
brk("c07-only-internal", "C07", (A, """			if f.Synthetic != "" {
				// Exclude""", """			if f.Synthetic != "" || f.Pkg == nil {
				// Exclude"""))
brk("c07-synthetic", "C07", (A, """			if f.Synthetic != "" {
				// Exclude synthetic functions, such as those loaded from object files.
				continue
			}
""", ""))
brk("c06-no-fieldaddr", "C06", (A, """				if f, ok := i.(*ssa.FieldAddr); ok {
					if _, islocal := locals[f.X]; islocal {
						locals[f] = struct{}{}
					}
				}
""", ""))
brk("c06-all-indexaddr", "C06", (A, """					if _, islocal := locals[ia.X]; islocal {
						locals[ia] = struct{}{}
					}
""", """					locals[ia] = struct{}{}
"""))
brk("c06-heap", "C06", (A, """			if !l.Heap {
				locals[l] = struct{}{}
			}
""", """			locals[l] = struct{}{}
"""))
brk("c06-shared-locals", "C06", (A, """	for f := range allFunctions {
		// Find the function variables that do not escape.
		locals := map[ssa.Value]struct{}{}
""", """	locals := map[ssa.Value]struct{}{}
	for f := range allFunctions {
		// Find the function variables that do not escape.
		if len(f.Locals) > 1000 {
			continue
		}
"""))
brk("c06-first-block", "C06", (A, "		for _, b := range f.Blocks {\n			for _, i := range b.Instrs {\n				// An", "		for n, b := range f.Blocks {\n			if n > 1000 {\n				break\n			}\n			for _, i := range b.Instrs {\n				// An"))
brk("c06-array", "C06", (U, """		if a, ok := t.(*types.Array); ok {
			return rec(a.Elem())
		}
""", """		if a, ok := t.(*types.Array); ok && a.Len() > 0 {
			return a.Elem().String() == "reflect.Value"
		}
"""))
brk("c06-last-field", "C06", (U, "i < s.NumFields(); i++", "i < s.NumFields()-1; i++"))
brk("c06-first-field", "C06", (U, """				if rec(s.Field(i).Type()) {
					return true
				}
""", """				return rec(s.Field(i).Type())
"""))
brk("c06-embedded-only", "C06", (U, "				if rec(s.Field(i).Type()) {", "				if !s.Field(i).Embedded() && rec(s.Field(i).Type()) {"))
brk("c06-global-seen", "C06", (U, """	seen := map[types.Type]struct{}{}
	var rec func""", """	seen := seenTypes
	var rec func"""), (U, "// containsReflectValue returns", "var seenTypes = map[types.Type]struct{}{}\n\n// containsReflectValue returns"))
brk("c06-pointer-too", "C06", (U, """		// Check elements of arrays.
""", """		if a, ok := t.(*types.Pointer); ok {
			return rec(a.Elem())
		}
		// Check elements of arrays.
"""))
brk("c06-no-underlying", "C06", (U, """		if u := t.Underlying(); !types.Identical(t, u) {
			return rec(u)
		}
""", ""))
brk("c06-root-only", "C06", (A, """	for f := range allFunctions {
		// Find the function variables that do not escape.
""", """	for f := range allFunctions {
		if f.Parent() != nil {
			continue
		}
		// Find the function variables that do not escape.
"""))
brk("c05-roots", "C05", (A, """	forEachPackageIncludingDependencies(pkgs, func(pkg *packages.Package) {
		seenUnsafe""", """	for _, pkg := range pkgs {
		seenUnsafe"""), (A, """			packagesWithUnsafePointerUseInInitialization[pkg.Types] = struct{}{}
		}
	})
""", """			packagesWithUnsafePointerUseInInitialization[pkg.Types] = struct{}{}
		}
	}
"""))
brk("c05-outer-function", "C05", (U, """		v2 := *v
		v2.currentFunction = node
		return &v2
""", """		if v.currentFunction != nil {
			return v
		}
		v2 := *v
		v2.currentFunction = node
		return &v2
"""))
brk("c05-mutate", "C05", (U, """		v2 := *v
		v2.currentFunction = node
		return &v2
""", """		v.currentFunction = node
		return v
"""))
brk("c05-prune", "C05", (U, """	case *ast.CallExpr:
		// A type conv""", """	case *ast.DeferStmt:
		return nil
	case *ast.CallExpr:
		// A type conv"""))
brk("c05-prune-conv", "C05", (U, """			// The conversion is to a uintptr, not a pointer.  On its own, this is
			// safe.
			break
""", """			return nil
"""))
brk("c05-flag-last", "C05", (A, """		for _, file := range pkg.Syntax {
			vis :=""", """		for _, file := range pkg.Syntax {
			seenUnsafePointerUseInInitialization = false
			vis :="""))
brk("c05-flag-shared", "C05", (A, """	forEachPackageIncludingDependencies(pkgs, func(pkg *packages.Package) {
		seenUnsafePointerUseInInitialization := false
""", """	seenUnsafePointerUseInInitialization := false
	forEachPackageIncludingDependencies(pkgs, func(pkg *packages.Package) {
"""))
brk("c05-alias", "C05", (U, "argType.Underlying().(*types.Basic)", "argType.(*types.Basic)"))
brk("c05-generic-instances", "C05", (A, """		if _, ok := unsafeFunctionNodes[f.Syntax()]; ok {
""", """		if _, ok := unsafeFunctionNodes[f.Syntax()]; ok && f.Origin() == nil {
"""))
brk("c05-init-main", "C05", (A, """		if _, ok := packagesWithUnsafePointerUseInInitialization[pkg.Pkg]; ok {
""", """		if _, ok := packagesWithUnsafePointerUseInInitialization[pkg.Pkg]; ok && pkg.Pkg.Name() != "main" {
"""))
brk("c05-first-file", "C05", (A, """			ast.Walk(&vis, file)
""", """			ast.Walk(&vis, file)
			if seenUnsafePointerUseInInitialization {
				break
			}
"""))
brk("c04-explicit-merge", "C04", (A, """	if !config.DisableBuiltin {
		extra""", """	if !config.DisableBuiltin && len(nodesByCapability) > 0 {
		extra"""))
