# More rewrites of whole functions in other styles. None changes behaviour.
A = "analyzer/analyzer.go"
U = "analyzer/util.go"
R = "analyzer/rewrite.go"
M = "analyzer/compare.go"
S = "analyzer/scan.go"
I = "interesting/interesting.go"

keep("st2-classifier-switch", (A, """	classifier := interesting.DefaultClassifier()
	if excludeUnanalyzed {
		return interesting.ClassifierExcludingUnanalyzed(classifier)
	}
	return classifier
""", """	switch {
	case excludeUnanalyzed:
		return interesting.ClassifierExcludingUnanalyzed(interesting.DefaultClassifier())
	default:
		return interesting.DefaultClassifier()
	}
"""))
keep("st2-classifier-named", (A, """	classifier := interesting.DefaultClassifier()
	if excludeUnanalyzed {
		return interesting.ClassifierExcludingUnanalyzed(classifier)
	}
	return classifier
""", """	c := interesting.DefaultClassifier()
	if !excludeUnanalyzed {
		return c
	}
	return withoutUnanalyzed(c)
}

func withoutUnanalyzed(c *interesting.Classifier) *interesting.Classifier {
	return interesting.ClassifierExcludingUnanalyzed(c)
"""))
keep("st2-counts-inc", (A, """			if _, ok := cm[cap.String()]; !ok {
				cm[cap.String()] = 1
			} else {
				cm[cap.String()] += 1
			}
""", """			cm[cap.String()]++
"""))
keep("st2-counts-name", (A, """			if _, ok := cm[cap.String()]; !ok {
				cm[cap.String()] = 1
			} else {
				cm[cap.String()] += 1
			}
""", """			name := cap.String()
			n := cm[name]
			cm[name] = n + 1
"""))
keep("st2-counts-by-cap", (A, """	cm := make(map[string]int64)
	forEachPath(pkgs, queriedPackages,
		func(cap cpb.Capability, nodes bfsStateMap, v *callgraph.Node) {
			if _, ok := cm[cap.String()]; !ok {
				cm[cap.String()] = 1
			} else {
				cm[cap.String()] += 1
			}
		}, config)
	return &cpb.CapabilityCountList{
""", """	perCapability := make(map[cpb.Capability]int64)
	forEachPath(pkgs, queriedPackages,
		func(cap cpb.Capability, _ bfsStateMap, _ *callgraph.Node) {
			perCapability[cap]++
		}, config)
	cm := make(map[string]int64, len(perCapability))
	for c, n := range perCapability {
		cm[c.String()] = n
	}
	return &cpb.CapabilityCountList{
"""))
keep("st2-stats-counter", (A, """			if _, ok := cm[cap.String()]; !ok {
				cm[cap.String()] = &CapabilityCounter{count: 1, capability: cap}
			} else {
				cm[cap.String()].count += 1
			}
""", """			counter, ok := cm[cap.String()]
			if !ok {
				counter = &CapabilityCounter{capability: cap}
				cm[cap.String()] = counter
			}
			counter.count++
"""), (A, """			if isDirect {
				if _, ok := cm[cap.String()]; !ok {
					cm[cap.String()] = &CapabilityCounter{count: 1, direct_count: 1}
				} else {
					cm[cap.String()].direct_count += 1
				}
			} else {
				if _, ok := cm[cap.String()]; !ok {
					cm[cap.String()] = &CapabilityCounter{count: 1, transitive_count: 1}
				} else {
					cm[cap.String()].transitive_count += 1
				}
			}
			if _, ok := cm[cap.String()]; !ok {
				cm[cap.String()] = &CapabilityCounter{example: e}
			} else {
				cm[cap.String()].example = e
			}
""", """			if isDirect {
				counter.direct_count++
			} else {
				counter.transitive_count++
			}
			counter.example = e
"""))
keep("st2-stats-sorted-keys", (A, """	for _, counts := range cm {
		cs = append(cs, &cpb.CapabilityStats{
			Capability:      &counts.capability,
			Count:           &counts.count,
			DirectCount:     &counts.direct_count,
			TransitiveCount: &counts.transitive_count,
			ExampleCallpath: counts.example,
		})
	}
""", """	for _, name := range slices.Sorted(maps.Keys(cm)) {
		cs = append(cs, cm[name].stats())
	}
"""), (A, """// GetCapabilityStats analyzes""", """// stats returns the counter's values as a protocol buffer.
func (c *CapabilityCounter) stats() *cpb.CapabilityStats {
	return &cpb.CapabilityStats{
		Capability:      &c.capability,
		Count:           &c.count,
		DirectCount:     &c.direct_count,
		TransitiveCount: &c.transitive_count,
		ExampleCallpath: c.example,
	}
}

// GetCapabilityStats analyzes"""))
keep("st2-stats-proto", (A, """			Capability:      &counts.capability,
			Count:           &counts.count,
			DirectCount:     &counts.direct_count,
			TransitiveCount: &counts.transitive_count,
""", """			Capability:      counts.capability.Enum(),
			Count:           proto.Int64(counts.count),
			DirectCount:     proto.Int64(counts.direct_count),
			TransitiveCount: proto.Int64(counts.transitive_count),
"""))
keep("st2-stats-slices-sort", (A, """	sort.Slice(cs, func(i, j int) bool {
		return cs[i].GetCapability() < cs[j].GetCapability()
	})
	return &cpb.CapabilityStatList{
""", """	slices.SortFunc(cs, func(a, b *cpb.CapabilityStats) int {
		return int(a.GetCapability()) - int(b.GetCapability())
	})
	return &cpb.CapabilityStatList{
"""))
keep("st2-forward-queue-helper", (A, """	for v := range nodes {
		if _, ok := bfsFromCapabilities[v]; !ok {
			// This node cannot reach a capability.
			continue
		}
		q = append(q, v)
		bfsFromQueries[v] = bfsState{}
	}
	sort.Sort(byFunction(q)) // make the search order deterministic
	for len(q) > 0 {
		v := q[0]
		q = q[1:]
		if outputNode != nil {
			outputNode(bfsFromQueries, v, bfsFromCapabilities)
		}
		if outputCapability != nil {
			for _, c := range sortedCapabilities(nodesByCapability) {
				if _, ok := nodesByCapability[c][v]; ok {
					outputCapability(v, c)
				}
			}
		}
		if _, ok := allNodesWithExplicitCapability[v]; ok {
			continue
		}
""", """	for v := range nodes {
		if _, ok := bfsFromCapabilities[v]; ok {
			q = append(q, v)
			bfsFromQueries[v] = bfsState{}
		}
	}
	sort.Sort(byFunction(q)) // make the search order deterministic
	for i := 0; i < len(q); i++ {
		v := q[i]
		if outputNode != nil {
			outputNode(bfsFromQueries, v, bfsFromCapabilities)
		}
		if outputCapability != nil {
			for _, c := range sortedCapabilities(nodesByCapability) {
				if _, ok := nodesByCapability[c][v]; !ok {
					continue
				}
				outputCapability(v, c)
			}
		}
		if _, ok := allNodesWithExplicitCapability[v]; ok {
			continue
		}
"""))
keep("st2-forward-last", (A, """		for i, edge := range outgoingEdges {
			if i > 0 && edge.Callee == outgoingEdges[i-1].Callee {
				// We just saw an edge to the same callee, so this edge is redundant.
				continue
			}
			if outputCall != nil {
""", """		var last *callgraph.Node
		for _, edge := range outgoingEdges {
			if edge.Callee == last {
				// We just saw an edge to the same callee, so this edge is redundant.
				continue
			}
			last = edge.Callee
			if outputCall != nil {
"""))
keep("st2-forward-edges-helper", (A, """		var outgoingEdges []*callgraph.Edge
		for _, edge := range v.Out {
			if !classifier.IncludeCall(edge) {
				continue
			}
			if _, ok := bfsFromCapabilities[edge.Callee]; !ok {
				continue
			}
			outgoingEdges = append(outgoingEdges, edge)
		}
		sort.Sort(byCallee(outgoingEdges)) // make the search order deterministic
""", """		outgoingEdges := callsTowards(v, bfsFromCapabilities, classifier)
"""), (A, """// sortedCapabilities returns the""", """// callsTowards returns the calls v makes to the nodes in dst.
func callsTowards(v *callgraph.Node, dst bfsStateMap, classifier Classifier) (edges []*callgraph.Edge) {
	for _, edge := range v.Out {
		_, ok := dst[edge.Callee]
		if ok && classifier.IncludeCall(edge) {
			edges = append(edges, edge)
		}
	}
	sort.Sort(byCallee(edges)) // make the search order deterministic
	return edges
}

// sortedCapabilities returns the"""))
keep("st2-sorted-caps-loop", (A, """	return slices.Sorted(maps.Keys(nodesByCapability))
""", """	caps := make([]cpb.Capability, 0, len(nodesByCapability))
	for c := range nodesByCapability {
		caps = append(caps, c)
	}
	slices.Sort(caps)
	return caps
"""), (A, '	"maps"\n', ""))
keep("st2-foreach-uses-sorted", (A, """	var caps []cpb.Capability
	for cap := range nodesByCapability {
		caps = append(caps, cap)
	}
	sort.Slice(caps, func(i, j int) bool { return caps[i] < caps[j] })
	for _, cap := range caps {
		nodes := nodesByCapability[cap]
""", """	for _, cap := range sortedCapabilities(nodesByCapability) {
		nodes := nodesByCapability[cap]
"""))
keep("st2-less-cmp", (U, """	if c := nodeCompare(s[i].Caller, s[j].Caller); c != 0 {
		return c < 0
	}
	return positionLess(callsitePosition(s[i]), callsitePosition(s[j]))
""", """	a, b := s[i], s[j]
	switch c := nodeCompare(a.Caller, b.Caller); {
	case c < 0:
		return true
	case c > 0:
		return false
	}
	return positionLess(callsitePosition(a), callsitePosition(b))
"""))
keep("st2-less-shared", (U, """	if c := nodeCompare(s[i].Callee, s[j].Callee); c != 0 {
		return c < 0
	}
	return positionLess(callsitePosition(s[i]), callsitePosition(s[j]))
""", """	return edgeLess(s[i], s[j], nodeCompare(s[i].Callee, s[j].Callee))
"""), (U, """	if c := nodeCompare(s[i].Caller, s[j].Caller); c != 0 {
		return c < 0
	}
	return positionLess(callsitePosition(s[i]), callsitePosition(s[j]))
""", """	return edgeLess(s[i], s[j], nodeCompare(s[i].Caller, s[j].Caller))
"""), (U, """func nodeCompare(""", """// edgeLess orders two edges by c, and by position if c is zero.
func edgeLess(a, b *callgraph.Edge, c int) bool {
	if c == 0 {
		return positionLess(callsitePosition(a), callsitePosition(b))
	}
	return c < 0
}

func nodeCompare("""))
keep("st2-funccompare-switch", (U, """	if a == nil && b == nil {
		return 0
	} else if b == nil {
		return -1
	} else if a == nil {
		return +1
	}
	if c := strings.Compare(packagePath(a), packagePath(b)); c != 0 {
		return c
	}
	hasReceiver := func(f *ssa.Function) bool {
		sig := f.Signature
		return sig != nil && sig.Recv() != nil
	}
	if ar, br := hasReceiver(a), hasReceiver(b); !ar && br {
		return -1
	} else if ar && !br {
		return +1
	}
	return strings.Compare(a.String(), b.String())
}
""", """	switch {
	case a == b:
		return 0
	case a == nil:
		return +1
	case b == nil:
		return -1
	}
	if c := strings.Compare(packagePath(a), packagePath(b)); c != 0 {
		return c
	}
	if ar, br := isMethod(a), isMethod(b); ar != br {
		if br {
			return -1
		}
		return +1
	}
	return strings.Compare(a.String(), b.String())
}

func isMethod(f *ssa.Function) bool {
	return f.Signature != nil && f.Signature.Recv() != nil
}
"""))
keep("st2-position-switch", (U, """	if p2.Line == 0 {
		// A token.Position with Line == 0 is invalid.
		return p1.Line != 0
	}
	if p1.Line == 0 {
		return false
	}
	if p1.Filename != p2.Filename {
		// Note that two positions from the same function can have different
		// filenames because the ssa.Function for "init" can include
		// initialization code for package-level variables in multiple files.
		return p1.Filename < p2.Filename
	}
	return p1.Offset < p2.Offset
""", """	switch {
	case !p1.IsValid():
		return false
	case !p2.IsValid():
		return true
	case p1.Filename == p2.Filename:
		return p1.Offset < p2.Offset
	default:
		return p1.Filename < p2.Filename
	}
"""))
keep("st2-package-path", (U, """	if f.Origin() != nil {
		f = f.Origin()
	}
	if ssaPackage := f.Package(); ssaPackage != nil {
		if typesPackage := ssaPackage.Pkg; typesPackage != nil {
			return typesPackage.Path()
		}
	}
""", """	if o := f.Origin(); o != nil {
		f = o
	}
	if p := f.Package(); p != nil && p.Pkg != nil {
		return p.Pkg.Path()
	}
"""))
keep("st2-callsite-flat", (U, """	if edge == nil {
		return token.Position{}
	} else if f := edge.Caller.Func; f == nil {
		return token.Position{}
	} else if prog := f.Prog; prog == nil {
		return token.Position{}
	} else if fset := prog.Fset; fset == nil {
		return token.Position{}
	} else {
		return fset.Position(edge.Pos())
	}
""", """	var none token.Position
	if edge == nil {
		return none
	}
	f := edge.Caller.Func
	if f == nil || f.Prog == nil || f.Prog.Fset == nil {
		return none
	}
	return f.Prog.Fset.Position(edge.Pos())
"""))
keep("st2-stdlib-not", (U, """	if strings.Contains(p, ".") {
		return false
	}
	return true
""", """	return !strings.ContainsRune(p, '.')
"""))
keep("st2-stdlib-index", (U, """	if strings.Contains(p, ".") {
		return false
	}
	return true
""", """	return strings.IndexByte(p, '.') < 0
"""))
keep("st2-next", (U, """	if b.edge == nil {
		return nil
	}
	return b.edge.Callee
""", """	if e := b.edge; e != nil {
		return e.Callee
	}
	return nil
"""))
keep("st2-add-set", (U, """	m := nc[cap]
	if m == nil {
		m = make(nodeset)
		nc[cap] = m
	}
	m[node] = struct{}{}
""", """	if _, ok := nc[cap]; !ok {
		nc[cap] = nodeset{}
	}
	nc[cap][node] = struct{}{}
"""))
keep("st2-extra-typeswitch", (A, """				if ia, ok := i.(*ssa.IndexAddr); ok {
					if _, islocal := locals[ia.X]; islocal {
						locals[ia] = struct{}{}
					}
				}
				// A FieldAddr instruction creates an SSA value which refers to a
				// field of a struct.  A field of a local struct is also local.
				if f, ok := i.(*ssa.FieldAddr); ok {
					if _, islocal := locals[f.X]; islocal {
						locals[f] = struct{}{}
					}
				}
				// Check the destination of store instructions.
				if s, ok := i.(*ssa.Store); ok {
					dest := s.Addr
					if _, islocal := locals[dest]; islocal {
						continue
					}
					// dest.Type should be a types.Pointer, or a type defined as one,
					// pointing to the type of the value that is copied by this
					// instruction.
					typ, ok := dest.Type().Underlying().(*types.Pointer)
					if !ok {
						continue
					}
					if !containsReflectValue(typ.Elem()) {
						continue
					}
					if node, ok := graph.Nodes[f]; ok {
						// This is a store to a non-local reflect.Value, or to a non-local
						// object that contains a reflect.Value.
						extraNodesByCapability.add(cpb.Capability_CAPABILITY_REFLECT, node)
					}
				}
""", """				switch i := i.(type) {
				case *ssa.IndexAddr:
					if _, islocal := locals[i.X]; islocal {
						locals[i] = struct{}{}
					}
				case *ssa.FieldAddr:
					if _, islocal := locals[i.X]; islocal {
						locals[i] = struct{}{}
					}
				case *ssa.Store:
					_, islocal := locals[i.Addr]
					if islocal || !storesReflectValue(i) {
						continue
					}
					if node, ok := graph.Nodes[f]; ok {
						extraNodesByCapability.add(cpb.Capability_CAPABILITY_REFLECT, node)
					}
				}
"""), (A, """// findUnsafePointerConversions uses""", """// storesReflectValue returns whether s copies something containing a
// reflect.Value.
func storesReflectValue(s *ssa.Store) bool {
	typ, ok := s.Addr.Type().Underlying().(*types.Pointer)
	return ok && containsReflectValue(typ.Elem())
}

// findUnsafePointerConversions uses"""))
keep("st2-extra-node-once", (A, """		// Find the function variables that do not escape.
		locals := map[ssa.Value]struct{}{}
""", """		node, ok := graph.Nodes[f]
		if !ok {
			continue
		}
		// Find the function variables that do not escape.
		locals := map[ssa.Value]struct{}{}
"""), (A, """					if node, ok := graph.Nodes[f]; ok {
						// This is a store to a non-local reflect.Value, or to a non-local
						// object that contains a reflect.Value.
						extraNodesByCapability.add(cpb.Capability_CAPABILITY_REFLECT, node)
					}
""", """					// This is a store to a non-local reflect.Value, or to a non-local
					// object that contains a reflect.Value.
					extraNodesByCapability.add(cpb.Capability_CAPABILITY_REFLECT, node)
"""))
keep("st2-extra-three-helpers", (A, """	// Add nodes for the functions in unsafePointerFunctions to
	// extraNodesByCapability[Capability_CAPABILITY_UNSAFE_POINTER].
	for f := range unsafePointerFunctions {
		if node, ok := graph.Nodes[f]; ok {
			extraNodesByCapability.add(cpb.Capability_CAPABILITY_UNSAFE_POINTER, node)
		}
	}
	// Add the arbitrary-execution capability to asm function nodes.
	for f, node := range graph.Nodes {
		if f.Blocks == nil {
			// No source code for this function.
			if f.Synthetic != "" {
				// Exclude synthetic functions, such as those loaded from object files.
				continue
			}
			extraNodesByCapability.add(cpb.Capability_CAPABILITY_ARBITRARY_EXECUTION, node)
		}
	}
	return extraNodesByCapability
}
""", """	addUnsafe(extraNodesByCapability, graph, unsafePointerFunctions)
	addAssembly(extraNodesByCapability, graph)
	return extraNodesByCapability
}

// addUnsafe adds nodes for functions which use unsafe.Pointer.
func addUnsafe(dst nodesetPerCapability, graph *callgraph.Graph, fns map[*ssa.Function]struct{}) {
	for f := range fns {
		node := graph.Nodes[f]
		if node == nil {
			continue
		}
		dst.add(cpb.Capability_CAPABILITY_UNSAFE_POINTER, node)
	}
}

// addAssembly adds nodes for functions without Go code.
func addAssembly(dst nodesetPerCapability, graph *callgraph.Graph) {
	for f, node := range graph.Nodes {
		if f.Blocks == nil && f.Synthetic == "" {
			dst.add(cpb.Capability_CAPABILITY_ARBITRARY_EXECUTION, node)
		}
	}
}
"""))
keep("st2-node-caps-func", (A, """		var c cpb.Capability
		if v.Func.Package() != nil && v.Func.Package().Pkg != nil {
			// Categorize v.Func.
			pkg := v.Func.Package().Pkg.Path()
			name := v.Func.String()
			c = classifier.FunctionCategory(pkg, name)
		} else {
			origin := v.Func.Origin()
			if origin == nil || origin.Package() == nil || origin.Package().Pkg == nil {
				continue
			}
			// v.Func is an instantiation of a generic function.  Get the package
			// name and function name of the generic function, and categorize that
			// instead.
			pkg := origin.Package().Pkg.Path()
			name := origin.String()
			c = classifier.FunctionCategory(pkg, name)
		}
		if c == cpb.Capability_CAPABILITY_SAFE {
			safe[v] = struct{}{}
		} else if c != cpb.Capability_CAPABILITY_UNSPECIFIED {
			nodesByCapability.add(c, v)
		}
""", """		f := v.Func
		if !inPackage(f) {
			// f may be an instantiation of a generic function.  Categorize the
			// generic function instead.
			if f = f.Origin(); f == nil || !inPackage(f) {
				continue
			}
		}
		switch c := classifier.FunctionCategory(f.Package().Pkg.Path(), f.String()); c {
		case cpb.Capability_CAPABILITY_UNSPECIFIED:
		case cpb.Capability_CAPABILITY_SAFE:
			safe[v] = struct{}{}
		default:
			nodesByCapability.add(c, v)
		}
"""), (A, """func getNodeCapabilities(""", """func inPackage(f *ssa.Function) bool {
	return f.Package() != nil && f.Package().Pkg != nil
}

func getNodeCapabilities("""))
keep("st2-search-back-index", (A, """	for len(q) > 0 {
		v := q[0]
		q = q[1:]
		var incomingEdges []*callgraph.Edge
		for _, edge := range v.In {
			if !classifier.IncludeCall(edge) {
				continue
			}
			if _, ok := safe[edge.Caller]; ok {
				continue
			}
			if _, ok := allNodesWithExplicitCapability[edge.Caller]; ok {
				// If edge.Caller is already categorized, we don't want to consider
				// paths that lead from there to another capability.
				continue
			}
			incomingEdges = append(incomingEdges, edge)
		}
""", """	skip := func(edge *callgraph.Edge) bool {
		if _, ok := safe[edge.Caller]; ok {
			return true
		}
		if _, ok := allNodesWithExplicitCapability[edge.Caller]; ok {
			// If edge.Caller is already categorized, we don't want to consider
			// paths that lead from there to another capability.
			return true
		}
		return !classifier.IncludeCall(edge)
	}
	for len(q) > 0 {
		v := q[0]
		q = q[1:]
		incomingEdges := slices.DeleteFunc(slices.Clone(v.In), skip)
"""))
keep("st2-rewrite-one-walk", (R, """	if results == nil {
		// Case 1: the function has no return values.
		return constructTypeAndValue(noValueMode, results, nil)
	}
	if results.Len() == 1 {
		// Case 2: the function has a single return value.
		return constructTypeAndValue(valueMode, results.At(0).Type(), nil)
	}
	// Case 3: the function returns a tuple of more than one value.
	return constructTypeAndValue(valueMode, results, nil)
""", """	mode := valueMode
	var t types.Type = results
	switch {
	case results == nil:
		mode = noValueMode
	case results.Len() == 1:
		t = results.At(0).Type()
	}
	return constructTypeAndValue(mode, t, nil)
"""))
keep("st2-rewrite-can", (R, """					canRewrite := false
					switch c.Parent().(type) {
					case *ast.BlockStmt, *ast.CaseClause, *ast.LabeledStmt:
						canRewrite = true
					case *ast.CommClause:
						canRewrite = c.Index() >= 0
					}
					if !canRewrite {
""", """					if !canReplace(c) {
"""), (R, """// rewriteCallsToOnceDoEtc is similar""", """// canReplace returns whether the statement at c can be replaced by a block.
func canReplace(c *astutil.Cursor) bool {
	switch c.Parent().(type) {
	case *ast.BlockStmt, *ast.CaseClause, *ast.LabeledStmt:
		return true
	case *ast.CommClause:
		return c.Index() >= 0
	default:
		return false
	}
}

// rewriteCallsToOnceDoEtc is similar"""))
keep("st2-rewrite-methods-loop", (R, """					args1 := []ast.Expr{zeroLiteral(p.TypesInfo), zeroLiteral(p.TypesInfo)}
					args2 := []ast.Expr{zeroLiteral(p.TypesInfo), zeroLiteral(p.TypesInfo)}
					// Create a block with three statements which call Less, Swap,
					// and Len.  Replace the current node with this block.
					s1 := statementCallingMethod(p.TypesInfo, obj, "Less", args1)
					s2 := statementCallingMethod(p.TypesInfo, obj, "Swap", args2)
					s3 := statementCallingMethod(p.TypesInfo, obj, "Len", nil)
					if s1 == nil || s2 == nil || s3 == nil {
						// We did not succeed in creating these statements.
						return true
					}
					c.Replace(&ast.BlockStmt{List: []ast.Stmt{s1, s2, s3}})
					return true
""", """					if block := sortMethodCalls(p.TypesInfo, obj); block != nil {
						c.Replace(block)
					}
					return true
"""), (R, """// rewriteCallsToOnceDoEtc is similar""", """// sortMethodCalls returns a block calling the methods of obj, or nil.
func sortMethodCalls(info *types.Info, obj ast.Expr) *ast.BlockStmt {
	zeros := func() []ast.Expr {
		return []ast.Expr{zeroLiteral(info), zeroLiteral(info)}
	}
	less := statementCallingMethod(info, obj, "Less", zeros())
	swap := statementCallingMethod(info, obj, "Swap", zeros())
	length := statementCallingMethod(info, obj, "Len", nil)
	if less == nil || swap == nil || length == nil {
		return nil
	}
	return &ast.BlockStmt{List: []ast.Stmt{length, less, swap}}
}

// rewriteCallsToOnceDoEtc is similar"""))
keep("st2-rewrite-walk-helper", (R, """func rewriteCallsToOnceDoEtc(pkgs []*packages.Package) {
	forEachPackageIncludingDependencies(pkgs, func(p *packages.Package) {
		for _, file := range p.Syntax {
			for _, node := range file.Decls {
				var pre astutil.ApplyFunc
				pre = func(c *astutil.Cursor) bool {
					obj := isCallToOnceDoEtc(p.TypesInfo, c.Node())
					if obj == nil {
						// This was not a call to a relevant function or method.
						return true
					}
					fnType, ok := types.Unalias(p.TypesInfo.TypeOf(obj)).(*types.Signature)
					if !ok {
						// The argument does not appear to be a function.
						return true
					}
					// Create some arguments to pass to the function.  The parameters
					// must all be integers.
					params := fnType.Params()
					args := make([]ast.Expr, params.Len())
					for i := range args {
						args[i] = zeroLiteral(p.TypesInfo)
					}
					c.Replace(
						statementCallingFunctionObject(p.TypesInfo, obj, args))
					return true
				}
				astutil.Apply(node, pre, nil)
			}
		}
	})
}
""", """func rewriteCallsToOnceDoEtc(pkgs []*packages.Package) {
	applyToAll(pkgs, func(info *types.Info, c *astutil.Cursor) {
		obj := isCallToOnceDoEtc(info, c.Node())
		if obj == nil {
			// This was not a call to a relevant function or method.
			return
		}
		if fnType, ok := types.Unalias(info.TypeOf(obj)).(*types.Signature); ok {
			// Create some arguments to pass to the function.  The parameters
			// must all be integers.
			var args []ast.Expr
			for i := 0; i < fnType.Params().Len(); i++ {
				args = append(args, zeroLiteral(info))
			}
			c.Replace(statementCallingFunctionObject(info, obj, args))
		}
	})
}

// applyToAll calls fn for every node in the syntax of pkgs and their
// dependencies.
func applyToAll(pkgs []*packages.Package, fn func(*types.Info, *astutil.Cursor)) {
	forEachPackageIncludingDependencies(pkgs, func(p *packages.Package) {
		for _, file := range p.Syntax {
			for _, node := range file.Decls {
				astutil.Apply(node, func(c *astutil.Cursor) bool {
					fn(p.TypesInfo, c)
					return true
				}, nil)
			}
		}
	})
}
"""))
keep("st2-is-sort-switch", (R, """	if name := callee.Sel.Name; name != "Sort" && name != "Stable" && name != "IsSorted" {
		// This isn't one of the functions we're looking for.
		return nil
	}
	if len(call.Args) != 1 {
		// The function call doesn't have one argument.
		return nil
	}
	return call.Args[0]
""", """	if len(call.Args) != 1 {
		// The function call doesn't have one argument.
		return nil
	}
	switch callee.Sel.Name {
	case "Sort", "Stable", "IsSorted":
		return call.Args[0]
	}
	// This isn't one of the functions we're looking for.
	return nil
"""))
keep("st2-is-sort-callee", (R, """	callee, ok := call.Fun.(*ast.SelectorExpr)
	if !ok {
		// The function to be called is not a selection, so it can't be a call to
		// the sort package.  (Unless the user has dot-imported "sort", but we
		// don't need to worry much about false negatives in unusual cases here.)
		return nil
	}
	pkgIdent, ok := callee.X.(*ast.Ident)
	if !ok {
		// The left-hand-side of the selection is not a plain identifier.
		return nil
	}
	pkgName, ok := typeInfo.Uses[pkgIdent].(*types.PkgName)
	if !ok {
		// The identifier does not refer to a package.
		return nil
	}
	if pkgName.Imported().Path() != "sort" {
		// The package isn't "sort".  (We use Imported().Path() because the import
		// name could be misleading, e.g.:
		// import (
		//   sort "os"
		// )
		return nil
	}
	if name := callee.Sel.Name; name""", """	pkg, fn := packageFunction(typeInfo, call)
	if pkg != "sort" {
		return nil
	}
	if name := fn; name"""), (R, """// isCallToOnceDoEtc checks""", """// packageFunction returns the package path and name of the function called by
// call, if it is a selection from a package.
func packageFunction(typeInfo *types.Info, call *ast.CallExpr) (pkg, name string) {
	callee, ok := call.Fun.(*ast.SelectorExpr)
	if !ok {
		return "", ""
	}
	ident, ok := callee.X.(*ast.Ident)
	if !ok {
		return "", ""
	}
	pkgName, ok := typeInfo.Uses[ident].(*types.PkgName)
	if !ok {
		return "", ""
	}
	return pkgName.Imported().Path(), callee.Sel.Name
}

// isCallToOnceDoEtc checks"""))
keep("st2-method-stmt-order", (R, """	methodIdent := ast.NewIdent(methodName)
	var selection *types.Selection = selectionForMethod(typeInfo.TypeOf(recv), methodName)
	if selection == nil {
		// We did not find the desired method for this type.  recv might be an
		// untyped nil.
		return nil
	}
	typeInfo.Uses[methodIdent] = selection.Obj()
""", """	selection := selectionForMethod(typeInfo.TypeOf(recv), methodName)
	if selection == nil {
		// We did not find the desired method for this type.  recv might be an
		// untyped nil.
		return nil
	}
	methodIdent := &ast.Ident{Name: methodName}
	typeInfo.Uses[methodIdent] = selection.Obj()
"""))
keep("st2-selection-inline", (R, """	var ms *types.MethodSet = types.NewMethodSet(typ)
	// The package is not needed for exported methods, so we can pass nil for the
	// package parameter of Lookup.
	sel := ms.Lookup(nil, name)
	return sel
""", """	// The package is not needed for exported methods, so we can pass nil for the
	// package parameter of Lookup.
	return types.NewMethodSet(typ).Lookup(nil, name)
"""))
keep("st2-side-effects-any", (U, """	case *ast.CompositeLit:
		for _, elt := range e.Elts {
			if mayHaveSideEffects(elt) {
				return true
			}
		}
		return false
""", """	case *ast.CompositeLit:
		return slices.ContainsFunc(e.Elts, mayHaveSideEffects)
"""), (U, '	"path"\n', '	"path"\n	"slices"\n'))
keep("st2-map-line-split", (I, """		t := strings.Split(scanner.Text(), "#")
		if len(t) == 0 {
			continue
		}
		args := strings.Fields(t[0])
""", """		text, _, _ := strings.Cut(scanner.Text(), "#")
		args := strings.Fields(text)
"""))
keep("st2-map-parse-entry", (I, """			if _, ok := ret.functionCategory[args[1]]; ok {
				return nil, fmt.Errorf("%v:%v: duplicate %v key", source, line, args[0])
			}
			c, ok := cpb.Capability_value[args[2]]
			if !ok {
				return nil, fmt.Errorf("%v:%v: unsupported capability %q", source, line, args[2])
			}
			ret.functionCategory[args[1]] = cpb.Capability(c)
""", """			if err := addEntry(ret.functionCategory, args); err != nil {
				return nil, fmt.Errorf("%v:%v: %w", source, line, err)
			}
"""), (I, """			if _, ok := ret.packageCategory[args[1]]; ok {
				return nil, fmt.Errorf("%v:%v: duplicate %v key", source, line, args[0])
			}
			c, ok := cpb.Capability_value[args[2]]
			if !ok {
				return nil, fmt.Errorf("%v:%v: unsupported capability %q", source, line, args[2])
			}
			ret.packageCategory[args[1]] = cpb.Capability(c)
""", """			if err := addEntry(ret.packageCategory, args); err != nil {
				return nil, fmt.Errorf("%v:%v: %w", source, line, err)
			}
"""), (I, """// parseInternalMapOrDie parses""", """// addEntry adds the entry for a line with the given words to m.
func addEntry(m map[string]cpb.Capability, args []string) error {
	keyword, name, capability := args[0], args[1], args[2]
	if _, ok := m[name]; ok {
		return fmt.Errorf("duplicate %v key", keyword)
	}
	c, ok := cpb.Capability_value[capability]
	if !ok {
		return fmt.Errorf("unsupported capability %q", capability)
	}
	m[name] = cpb.Capability(c)
	return nil
}

// parseInternalMapOrDie parses"""))
keep("st2-map-internal", (I, """	classifier, err := parseCapabilityMap("internal", strings.NewReader(interestingData))
	if err != nil {
		panic("internal error: " + err.Error())
	}
	if len(classifier.functionCategory) == 0 {
		panic("internal error: no capabilities loaded")
	}
	return classifier
""", """	r := strings.NewReader(interestingData)
	switch c, err := parseCapabilityMap("internal", r); {
	case err != nil:
		panic(fmt.Sprintf("internal error: %v", err))
	case len(c.functionCategory) == 0:
		panic("internal error: no capabilities loaded")
	default:
		return c
	}
"""))
keep("st2-map-reader", (I, """strings.NewReader(interestingData))
""", """bytes.NewReader([]byte(interestingData)))
"""), (I, '	"bufio"\n', '	"bufio"\n	"bytes"\n'))
keep("st2-include-key", (I, """	caller := edge.Caller.Func.String()
	callee := edge.Callee.Func.String()
	_, ok := c.ignoredEdges[[2]string{caller, callee}]
	return !ok
""", """	key := [2]string{
		0: edge.Caller.Func.String(),
		1: edge.Callee.Func.String(),
	}
	if _, ignored := c.ignoredEdges[key]; ignored {
		return false
	}
	return true
"""))
keep("st2-category-cgo", (I, """	for _, s := range c.cgoSuffixes {
		// Calls to C functions produce a call to a function
		// named "_cgo_runtime_cgocall" in the current package.
		// Calls to the various type conversion functions in the
		// "C" pseudo-package (see See https://pkg.go.dev/cmd/cgo)
		// produce calls to other functions listed in cgoSuffixes.
		if strings.HasSuffix(name, s) {
			return cpb.Capability_CAPABILITY_CGO
		}
	}
	if cat, ok := c.functionCategory[name]; ok {
		// If the function has a category, that takes precedence over its
		// package's category.  This includes the possibility that the function
		// is categorized as "unspecified", which indicates that the analyzer
		// should analyze the function's code as normal.
		return cat
	}
	if cat, ok := c.unanalyzedCategory[name]; ok {
		return cat
	}
	return c.packageCategory[pkg]
}
""", """	if c.isCgo(name) {
		return cpb.Capability_CAPABILITY_CGO
	}
	cat, ok := c.functionCategory[name]
	if !ok {
		cat, ok = c.unanalyzedCategory[name]
	}
	if !ok {
		cat = c.packageCategory[pkg]
	}
	return cat
}

// isCgo returns whether name is a function which cgo generates.
func (c *Classifier) isCgo(name string) bool {
	return slices.ContainsFunc(c.cgoSuffixes, func(suffix string) bool {
		return strings.HasSuffix(name, suffix)
	})
}
"""))
keep("st2-excluding-loop", (I, """	withoutUnanalyzed.functionCategory = maps.Clone(classifier.functionCategory)
	maps.DeleteFunc(withoutUnanalyzed.functionCategory, isUnanalyzed)
	withoutUnanalyzed.packageCategory = maps.Clone(classifier.packageCategory)
	maps.DeleteFunc(withoutUnanalyzed.packageCategory, isUnanalyzed)
	return &withoutUnanalyzed
""", """	without := func(m map[string]cpb.Capability) map[string]cpb.Capability {
		m = maps.Clone(m)
		maps.DeleteFunc(m, isUnanalyzed)
		return m
	}
	withoutUnanalyzed.functionCategory = without(classifier.functionCategory)
	withoutUnanalyzed.packageCategory = without(classifier.packageCategory)
	return &withoutUnanalyzed
"""))
keep("st2-excluding-fresh", (I, """	withoutUnanalyzed := *classifier
	withoutUnanalyzed.unanalyzedCategory = nil
	isUnanalyzed := func(_ string, c cpb.Capability) bool {
		return c == cpb.Capability_CAPABILITY_UNANALYZED
	}
	withoutUnanalyzed.functionCategory = maps.Clone(classifier.functionCategory)
	maps.DeleteFunc(withoutUnanalyzed.functionCategory, isUnanalyzed)
	withoutUnanalyzed.packageCategory = maps.Clone(classifier.packageCategory)
	maps.DeleteFunc(withoutUnanalyzed.packageCategory, isUnanalyzed)
	return &withoutUnanalyzed
""", """	ret := newClassifier()
	for name, c := range classifier.functionCategory {
		if c != cpb.Capability_CAPABILITY_UNANALYZED {
			ret.functionCategory[name] = c
		}
	}
	for name, c := range classifier.packageCategory {
		if c != cpb.Capability_CAPABILITY_UNANALYZED {
			ret.packageCategory[name] = c
		}
	}
	ret.ignoredEdges = classifier.ignoredEdges
	ret.cgoSuffixes = classifier.cgoSuffixes
	return ret
"""))
keep("st2-load-merge-loop", (I, """	cc(ret, internalMap)
	cc(ret, userClassifier)
	sort.Strings(ret.cgoSuffixes)
	ret.cgoSuffixes = slices.Compact(ret.cgoSuffixes) // remove duplicates
""", """	for _, src := range []*Classifier{internalMap, userClassifier} {
		cc(ret, src)
	}
	slices.Sort(ret.cgoSuffixes)
	ret.cgoSuffixes = slices.Compact(ret.cgoSuffixes) // remove duplicates
"""), (I, '	"sort"\n', ""))
keep("st2-load-merge-method", (I, """	ret := newClassifier()
	// Merge.
	cc := func(dst, src *Classifier) {
		for name := range src.unanalyzedCategory {
			// A function entry takes precedence over an unanalyzed entry, so remove
			// the one that src overrides.
			delete(dst.functionCategory, name)
		}
		maps.Copy(dst.functionCategory, src.functionCategory)
		maps.Copy(dst.unanalyzedCategory, src.unanalyzedCategory)
		maps.Copy(dst.packageCategory, src.packageCategory)
		maps.Copy(dst.ignoredEdges, src.ignoredEdges)
		dst.cgoSuffixes = append(dst.cgoSuffixes, src.cgoSuffixes...)
	}
	cc(ret, internalMap)
	cc(ret, userClassifier)
	sort.Strings(ret.cgoSuffixes)
	ret.cgoSuffixes = slices.Compact(ret.cgoSuffixes) // remove duplicates
	return ret, nil
}
""", """	ret := newClassifier()
	ret.merge(internalMap)
	ret.merge(userClassifier)
	sort.Strings(ret.cgoSuffixes)
	ret.cgoSuffixes = slices.Compact(ret.cgoSuffixes) // remove duplicates
	return ret, nil
}

// merge adds the entries of src to c, replacing any that c already has.
func (c *Classifier) merge(src *Classifier) {
	for name := range src.unanalyzedCategory {
		// A function entry takes precedence over an unanalyzed entry, so remove
		// the one that src overrides.
		delete(c.functionCategory, name)
	}
	for name, category := range src.functionCategory {
		c.functionCategory[name] = category
	}
	for name, category := range src.unanalyzedCategory {
		c.unanalyzedCategory[name] = category
	}
	for name, category := range src.packageCategory {
		c.packageCategory[name] = category
	}
	for edge := range src.ignoredEdges {
		c.ignoredEdges[edge] = struct{}{}
	}
	c.cgoSuffixes = append(c.cgoSuffixes, src.cgoSuffixes...)
}
"""))
keep("st2-granularity-map", (M, """	switch g {
	case "":
		return GranularityUnset, nil
	case "package":
		return GranularityPackage, nil
	case "function":
		return GranularityFunction, nil
	case "intermediate":
		return GranularityIntermediate, nil
	default:
		return 0, fmt.Errorf("unknown granularity: %q", g)
	}
}
""", """	if v, ok := granularities[g]; ok {
		return v, nil
	}
	return 0, fmt.Errorf("unknown granularity: %q", g)
}

var granularities = map[string]Granularity{
	"":             GranularityUnset,
	"package":      GranularityPackage,
	"function":     GranularityFunction,
	"intermediate": GranularityIntermediate,
}
"""))
keep("st2-compare-two-loops", (M, """	for _, key := range keys {
		ciBaseline, inBaseline := baselineMap[key]
		ciCurrent, inCurrent := currentMap[key]
		if !inBaseline && inCurrent {
			if different {
				fmt.Println()
			}
			different = true
			fmt.Printf("Package %s has new capability %s compared to the baseline.\\n",
				key.key, key.capability)
			printCallPath(ciCurrent.Path)
		}
		if inBaseline && !inCurrent {
			if different {
				fmt.Println()
			}
			different = true
			fmt.Printf("Package %s no longer has capability %s which was in the baseline.\\n",
				key.key, key.capability)
			printCallPath(ciBaseline.Path)
		}
	}
	return different
}
""", """	for _, key := range keys {
		old, inBaseline := baselineMap[key]
		cur, inCurrent := currentMap[key]
		if inBaseline == inCurrent {
			continue
		}
		if different {
			fmt.Println()
		}
		different = true
		if inCurrent {
			report("Package %s has new capability %s compared to the baseline.\\n", key, cur)
		} else {
			report("Package %s no longer has capability %s which was in the baseline.\\n", key, old)
		}
	}
	return different
}

// report prints a difference and the path which shows it.
func report(format string, key mapKey, ci *cpb.CapabilityInfo) {
	fmt.Printf(format, key.key, key.capability)
	printCallPath(ci.Path)
}
"""))
keep("st2-compare-sortfunc", (M, """	sort.Slice(keys, func(i, j int) bool {
		if a, b := keys[i].capability, keys[j].capability; a != b {
			return a < b
		}
		return keys[i].key < keys[j].key
	})
""", """	slices.SortFunc(keys, func(a, b mapKey) int {
		return cmp.Or(cmp.Compare(a.capability, b.capability), strings.Compare(a.key, b.key))
	})
"""), (M, '	"sort"\n', '	"slices"\n	"strings"\n'), (M, '	"fmt"\n', '	"cmp"\n	"fmt"\n'))
keep("st2-populate-add", (M, """		mk := mapKey{capability: ci.GetCapability()}
		// The calculation of mk.key depends on the desired granularity.
		switch g {
		case GranularityPackage:
			mk.key = ci.GetPackageDir()
			m[mk] = ci
		case GranularityFunction:
			if len(ci.Path) == 0 {
				break
			}
			mk.key = ci.Path[0].GetName()
			if mk.key != "" {
				m[mk] = ci
			}
		case GranularityIntermediate:
			// The entry's own package is on its path, but the path may have been
			// omitted.
			mk.key = ci.GetPackageDir()
			if mk.key != "" {
				m[mk] = ci
			}
			for _, f := range ci.Path {
				mk.key = f.GetPackage()
				if mk.key != "" {
					m[mk] = ci
				}
			}
		}
	}
	return m
}
""", """		// The calculation of the key depends on the desired granularity.
		switch g {
		case GranularityPackage:
			m[mapKey{ci.GetPackageDir(), ci.GetCapability()}] = ci
		case GranularityFunction:
			if len(ci.Path) > 0 {
				m.add(ci.Path[0].GetName(), ci)
			}
		case GranularityIntermediate:
			// The entry's own package is on its path, but the path may have been
			// omitted.
			m.add(ci.GetPackageDir(), ci)
			for _, f := range ci.Path {
				m.add(f.GetPackage(), ci)
			}
		}
	}
	return m
}

// add adds ci to m unless its key is empty.
func (m capabilitiesMap) add(key string, ci *cpb.CapabilityInfo) {
	if key == "" {
		return
	}
	m[mapKey{key: key, capability: ci.GetCapability()}] = ci
}
"""))
keep("st2-compare-read-helper", (M, """	compareData, err := os.ReadFile(baselineFilename)
	if err != nil {
		return false, fmt.Errorf("Comparison file should include output from running `%s -output=j`. Error from reading comparison file: %v", programName(), err.Error())
	}
	baseline := new(cpb.CapabilityInfoList)
	err = protojson.Unmarshal(compareData, baseline)
	if err != nil {
		return false, fmt.Errorf("Comparison file should include output from running `%s -output=j`. Error from parsing comparison file: %v", programName(), err.Error())
	}
	cil := GetCapabilityInfo(pkgs, queriedPackages, config)
	return diffCapabilityInfoLists(baseline, cil, config.Granularity), nil
}
""", """	baseline, err := readBaseline(baselineFilename)
	if err != nil {
		return false, fmt.Errorf("Comparison file should include output from running `%s -output=j`. Error from %w", programName(), err)
	}
	cil := GetCapabilityInfo(pkgs, queriedPackages, config)
	return diffCapabilityInfoLists(baseline, cil, config.Granularity), nil
}

func readBaseline(name string) (*cpb.CapabilityInfoList, error) {
	b, err := os.ReadFile(name)
	if err != nil {
		return nil, fmt.Errorf("reading comparison file: %w", err)
	}
	var list cpb.CapabilityInfoList
	if err := protojson.Unmarshal(b, &list); err != nil {
		return nil, fmt.Errorf("parsing comparison file: %w", err)
	}
	return &list, nil
}
"""))
keep("st2-run-switch", (S, """	if output == "json" || output == "j" {
		cil := GetCapabilityInfo(pkgs, queriedPackages, config)
		b, err := protojson.MarshalOptions{Multiline: true, Indent: "\\t"}.Marshal(cil)
		if err != nil {
			return fmt.Errorf("internal error: couldn't marshal protocol buffer: %s", err.Error())
		}
		_, err = fmt.Println(string(b))
		return err
	} else if output == "m" || output == "machine" {
		var cs []string
		cil := GetCapabilityCounts(pkgs, queriedPackages, config)
		for c := range cil.CapabilityCounts {
			cs = append(cs, c)
		}
		sort.Strings(cs)
		for _, c := range cs {
			if _, err := fmt.Println(c); err != nil {
				return err
			}
		}
		return nil
	} else if output == "v" || output == "verbose" {
		cil := GetCapabilityStats(pkgs, queriedPackages, config)
		ctm := template.Must(template.New("verbose.tmpl").Funcs(templateFuncMap).ParseFS(staticContent, "static/verbose.tmpl"))
		return ctm.Execute(os.Stdout, cil)
	} else if output == "g" || output == "graph" {
		return graphOutput(pkgs, queriedPackages, config)
	}
	cil := GetCapabilityCounts(pkgs, queriedPackages, config)
	ctm := template.Must(template.New("default.tmpl").Funcs(templateFuncMap).ParseFS(staticContent, "static/default.tmpl"))
	return ctm.Execute(os.Stdout, cil)
}
""", """	execute := func(name string, data any) error {
		t, err := template.New(name).Funcs(templateFuncMap).ParseFS(staticContent, "static/"+name)
		if err != nil {
			panic(err)
		}
		return t.Execute(os.Stdout, data)
	}
	switch output {
	case "json", "j":
		return printJSON(GetCapabilityInfo(pkgs, queriedPackages, config))
	case "m", "machine":
		counts := GetCapabilityCounts(pkgs, queriedPackages, config).GetCapabilityCounts()
		names := make([]string, 0, len(counts))
		for name := range counts {
			names = append(names, name)
		}
		sort.Strings(names)
		for _, name := range names {
			if _, err := fmt.Fprintln(os.Stdout, name); err != nil {
				return err
			}
		}
		return nil
	case "v", "verbose":
		return execute("verbose.tmpl", GetCapabilityStats(pkgs, queriedPackages, config))
	case "g", "graph":
		return graphOutput(pkgs, queriedPackages, config)
	default:
		return execute("default.tmpl", GetCapabilityCounts(pkgs, queriedPackages, config))
	}
}

// printJSON writes m to standard output.
func printJSON(m proto.Message) error {
	opts := protojson.MarshalOptions{Multiline: true, Indent: "\\t"}
	b, err := opts.Marshal(m)
	if err != nil {
		return fmt.Errorf("internal error: couldn't marshal protocol buffer: %w", err)
	}
	b = append(b, '\\n')
	_, err = os.Stdout.Write(b)
	return err
}
"""), (S, '	"google.golang.org/protobuf/encoding/protojson"\n', '	"google.golang.org/protobuf/encoding/protojson"\n	"google.golang.org/protobuf/proto"\n'))
keep("st2-run-compare-func", (S, """		different, err := compare(args[0], pkgs, queriedPackages, config)
		if err != nil {
			return err
		}
		if different {
			return DifferenceFoundError{}
		}
		return nil
	} else if len(args) >= 1 {
		return fmt.Errorf("%s: unknown command", args)
	}
""", """		switch different, err := compare(args[0], pkgs, queriedPackages, config); {
		case err != nil:
			return err
		case different:
			return DifferenceFoundError{}
		default:
			return nil
		}
	}
	if len(args) > 0 {
		return fmt.Errorf("%s: unknown command", args)
	}
"""))
keep("st2-template-color", (S, """	case "capability":
		var capability string
		if s, ok := args[1].(fmt.Stringer); ok {
			capability = s.String()
		} else {
			capability, ok = args[1].(string)
		}
		switch capability {
		case "CAPABILITY_SAFE":
			color.New(color.FgHiGreen).SetWriter(&w)
		case "CAPABILITY_ARBITRARY_EXECUTION", "CAPABILITY_CGO", "CAPABILITY_UNSAFE_POINTER", "CAPABILITY_EXEC":
			color.New(color.FgHiRed).SetWriter(&w)
		default:
			color.New(color.FgHiYellow).SetWriter(&w)
		}
	}
	return w.String()
}
""", """	case "capability":
		color.New(capabilityColor(args[1])).SetWriter(&w)
	}
	return w.String()
}

// capabilityColor returns the color for a capability.
func capabilityColor(capability any) color.Attribute {
	var name string
	switch c := capability.(type) {
	case fmt.Stringer:
		name = c.String()
	case string:
		name = c
	}
	switch name {
	case "CAPABILITY_SAFE":
		return color.FgHiGreen
	case "CAPABILITY_ARBITRARY_EXECUTION", "CAPABILITY_CGO", "CAPABILITY_UNSAFE_POINTER", "CAPABILITY_EXEC":
		return color.FgHiRed
	}
	return color.FgHiYellow
}
"""))
brk("st2-counts-by-cap-new", "C11", (A, """	cm := make(map[string]int64)
	forEachPath(pkgs, queriedPackages,
		func(cap cpb.Capability, nodes bfsStateMap, v *callgraph.Node) {
			if _, ok := cm[cap.String()]; !ok {
				cm[cap.String()] = 1
			} else {
				cm[cap.String()] += 1
			}
		}, config)
	return &cpb.CapabilityCountList{
""", """	perCapability := make(map[cpb.Capability]int64)
	forEachPath(pkgs, queriedPackages,
		func(cap cpb.Capability, _ bfsStateMap, _ *callgraph.Node) {
			perCapability[cap]++
		}, config)
	cm := make(map[string]int64, len(perCapability))
	for c, n := range perCapability {
		if n > 1 {
			cm[c.String()] = n
		}
	}
	return &cpb.CapabilityCountList{
"""))
brk("st2-counts-inc-two", "C11", (A, """			if _, ok := cm[cap.String()]; !ok {
				cm[cap.String()] = 1
			} else {
				cm[cap.String()] += 1
			}
""", """			n := cm[cap.String()]
			if n == 0 {
				n = 1
			}
			cm[cap.String()] = n + 1
"""))
