A = "analyzer/analyzer.go"
U = "analyzer/util.go"
WALK = """			i := 0
			c := cpb.CapabilityInfo{}
			fn := v.Func
			var n string
			var ctype cpb.CapabilityType
			var incomingEdge *callgraph.Edge
			for v != nil {
				if !config.OmitPaths || (i == 0 && config.Granularity == GranularityFunction) {
					addFunction(&c.Path, v, incomingEdge)
				}
				if i == 0 {
					n = v.Func.Package().Pkg.Path()
					ctype = cpb.CapabilityType_CAPABILITY_TYPE_DIRECT
					c.Capability = cap.Enum()
					c.PackageDir = proto.String(v.Func.Package().Pkg.Path())
					c.PackageName = proto.String(v.Func.Package().Pkg.Name())
				}
				i++
				if pName := packagePath(v.Func); n != pName && !isStdLib(pName) {
					ctype = cpb.CapabilityType_CAPABILITY_TYPE_TRANSITIVE
				}
				incomingEdge, v = nodes[v].edge, nodes[v].next()
			}
			c.CapabilityType = &ctype
"""
DEP = """				var b strings.Builder
				for i, p := range c.Path {
					if i != 0 {
						b.WriteByte(' ')
					}
					b.WriteString(p.GetName())
				}
				c.DepPath = proto.String(b.String())
"""
DEDUPE = """		type cp struct {
			cpb.Capability
			*ssa.Package
		}
		seen := make(map[cp]struct{})
		// del returns true if the capability and package of o have been seen before.
		del := func(o output) bool {
			var pkg *ssa.Package
			if o.Function != nil {
				pkg = o.Function.Package()
			}
			cp := cp{o.CapabilityInfo.GetCapability(), pkg}
			if _, ok := seen[cp]; ok {
				return true
			}
			seen[cp] = struct{}{}
			return false
		}
		caps = slices.DeleteFunc(caps, del)
"""
FILL = """		CapabilityInfo: make([]*cpb.CapabilityInfo, len(caps)),
		ModuleInfo:     collectModuleInfo(pkgs),
		PackageInfo:    collectPackageInfo(pkgs),
	}
	for i := range caps {
		cil.CapabilityInfo[i] = caps[i].CapabilityInfo
	}
"""
TO = """			for v := node; v != nil; {
				e := queryBFS[v].edge
				addFunction(&ci.Path, v, e)
				if e == nil {
					break
				}
				v = e.Caller
			}
			// Reverse the path we have so far, since we visited its nodes in reverse
			// order.
			slices.Reverse(ci.Path)
"""
FROM = """			for v := node; v != nil; {
				e := capabilityBFS[v].edge
				if e == nil {
					break
				}
				v = e.Callee
				addFunction(&ci.Path, v, e)
			}
"""
STATS = """			if isDirect {
				if _, ok := cm[cap.String()]; !ok {
					cm[cap.String()] = &CapabilityCounter{count: 1, direct_count: 1}
				} else {
					cm[cap.String()].direct_count += 1
				}
			} else {
				if _, ok := cm[cap.String()]; !ok {
					cm[cap.String()] = &CapabilityCounter{count: 1, transitive_count: 1}
				} else {
					cm[cap.String()].transitive_count += 1
				}
			}
			if _, ok := cm[cap.String()]; !ok {
				cm[cap.String()] = &CapabilityCounter{example: e}
			} else {
				cm[cap.String()].example = e
			}
"""
NODE = """	if pkg := fn.Package(); pkg != nil {
		return pkg.Pkg
	}
	// Generic functions and methods.
	if o := fn.Origin(); o != nil {
		if pkg := o.Package(); pkg != nil {
			return pkg.Pkg
		}
	}
"""
SEENI = """		pc := packageAndCapability{pkg, capability}
		if _, ok := seen[pc]; ok {
			// We have already seen this (package, capability) pair.
			return
		}
"""
ADD = """	fn := &cpb.Function{Name: proto.String(v.Func.String())}
	if pkg := nodeToPackage(v); pkg != nil {
		fn.Package = proto.String(pkg.Path())
	}
	if position := callsitePosition(incomingEdge); position.IsValid() {
		fn.Site = &cpb.Function_Site{
			Filename: proto.String(path.Base(position.Filename)),
			Line:     proto.Int64(int64(position.Line)),
			Column:   proto.Int64(int64(position.Column)),
		}
	}
	*fns = append(*fns, fn)
"""
PP = """	if f.Origin() != nil {
		f = f.Origin()
	}
	if ssaPackage := f.Package(); ssaPackage != nil {
		if typesPackage := ssaPackage.Pkg; typesPackage != nil {
			return typesPackage.Path()
		}
	}
"""

# ---- ways of writing the same thing
keep("rep-split-walk", (A, WALK, """			c := cpb.CapabilityInfo{
				Capability:  cap.Enum(),
				PackageDir:  proto.String(v.Func.Package().Pkg.Path()),
				PackageName: proto.String(v.Func.Package().Pkg.Name()),
			}
			fn := v.Func
			home := v.Func.Package().Pkg.Path()
			ctype := cpb.CapabilityType_CAPABILITY_TYPE_DIRECT
			for w := v; w != nil; w = nodes[w].next() {
				if p := packagePath(w.Func); p != home && !isStdLib(p) {
					ctype = cpb.CapabilityType_CAPABILITY_TYPE_TRANSITIVE
					break
				}
			}
			if config.OmitPaths {
				if config.Granularity == GranularityFunction {
					addFunction(&c.Path, v, nil)
				}
			} else {
				var in *callgraph.Edge
				for w := v; w != nil; w = nodes[w].next() {
					addFunction(&c.Path, w, in)
					in = nodes[w].edge
				}
			}
			c.CapabilityType = &ctype
"""))
keep("rep-direct-helper", (A, WALK, """			c := cpb.CapabilityInfo{}
			fn := v.Func
			c.Capability = cap.Enum()
			c.PackageDir = proto.String(fn.Package().Pkg.Path())
			c.PackageName = proto.String(fn.Package().Pkg.Name())
			ctype := cpb.CapabilityType_CAPABILITY_TYPE_TRANSITIVE
			if staysHome(nodes, v) {
				ctype = cpb.CapabilityType_CAPABILITY_TYPE_DIRECT
			}
			if !config.OmitPaths {
				c.Path = pathFrom(nodes, v)
			} else if config.Granularity == GranularityFunction {
				c.Path = pathFrom(nil, v)
			}
			c.CapabilityType = ctype.Enum()
"""), (A, "type CapabilityCounter struct {", """func staysHome(nodes bfsStateMap, v *callgraph.Node) bool {
	home := v.Func.Package().Pkg.Path()
	for ; v != nil; v = nodes[v].next() {
		if p := packagePath(v.Func); p != home && !isStdLib(p) {
			return false
		}
	}
	return true
}

func pathFrom(nodes bfsStateMap, v *callgraph.Node) []*cpb.Function {
	var out []*cpb.Function
	addFunction(&out, v, nil)
	for e := nodes[v].edge; e != nil; e = nodes[e.Callee].edge {
		addFunction(&out, e.Callee, e)
	}
	return out
}

type CapabilityCounter struct {"""))
keep("rep-collect-nodes", (A, WALK, """			c := cpb.CapabilityInfo{}
			fn := v.Func
			var steps []*callgraph.Node
			for w := v; w != nil; w = nodes[w].next() {
				steps = append(steps, w)
			}
			home := fn.Package().Pkg.Path()
			c.Capability = cap.Enum()
			c.PackageDir = &home
			c.PackageName = proto.String(fn.Package().Pkg.Name())
			ctype := cpb.CapabilityType_CAPABILITY_TYPE_DIRECT
			for i, w := range steps {
				if !config.OmitPaths || (i == 0 && config.Granularity == GranularityFunction) {
					var in *callgraph.Edge
					if i > 0 {
						in = nodes[steps[i-1]].edge
					}
					addFunction(&c.Path, w, in)
				}
				if p := packagePath(w.Func); p != home && !isStdLib(p) {
					ctype = cpb.CapabilityType_CAPABILITY_TYPE_TRANSITIVE
				}
			}
			c.CapabilityType = &ctype
"""))
keep("rep-walk-forever", (A, WALK, WALK.replace("for v != nil {", "for {").replace("incomingEdge, v = nodes[v].edge, nodes[v].next()", """incomingEdge = nodes[v].edge
				if incomingEdge == nil {
					break
				}
				v = incomingEdge.Callee"""))) 
keep("rep-first-flag", (A, WALK, WALK.replace("i := 0\n", "first := true\n").replace("(i == 0 &&", "(first &&").replace("if i == 0 {", "if first {").replace("i++", "first = false")))
keep("rep-label-home-first", (A, WALK, WALK.replace("n != pName && !isStdLib(pName)", "!(n == pName || isStdLib(pName))")))
keep("rep-label-switch", (A, WALK, WALK.replace("""				if pName := packagePath(v.Func); n != pName && !isStdLib(pName) {
					ctype = cpb.CapabilityType_CAPABILITY_TYPE_TRANSITIVE
				}
""", """				switch pName := packagePath(v.Func); {
				case pName == n:
				case isStdLib(pName):
				default:
					ctype = cpb.CapabilityType_CAPABILITY_TYPE_TRANSITIVE
				}
""")))
keep("rep-deppath-join", (A, DEP, """				var names []string
				for _, p := range c.Path {
					names = append(names, p.GetName())
				}
				c.DepPath = proto.String(strings.Join(names, " "))
"""))
keep("rep-deppath-concat", (A, DEP, """				s := ""
				for i, p := range c.GetPath() {
					if i > 0 {
						s += " "
					}
					s += p.GetName()
				}
				c.DepPath = &s
"""))
keep("rep-deppath-helper", (A, DEP, """				c.DepPath = proto.String(depPath(c.Path))
"""), (A, "type CapabilityCounter struct {", """func depPath(fns []*cpb.Function) string {
	var b strings.Builder
	for i, f := range fns {
		if i > 0 {
			b.WriteString(" ")
		}
		b.WriteString(*f.Name)
	}
	return b.String()
}

type CapabilityCounter struct {"""))
keep("rep-dedupe-loop", (A, DEDUPE, """		type key struct {
			c   cpb.Capability
			pkg *ssa.Package
		}
		seen := make(map[key]bool)
		var kept []output
		for _, o := range caps {
			k := key{o.CapabilityInfo.GetCapability(), o.Function.Package()}
			if seen[k] {
				continue
			}
			seen[k] = true
			kept = append(kept, o)
		}
		caps = kept
"""))
keep("rep-dedupe-nested", (A, DEDUPE, """		seen := make(map[cpb.Capability]map[string]struct{})
		caps = slices.DeleteFunc(caps, func(o output) bool {
			c := o.CapabilityInfo.GetCapability()
			m := seen[c]
			if m == nil {
				m = make(map[string]struct{})
				seen[c] = m
			}
			if _, ok := m[o.CapabilityInfo.GetPackageDir()]; ok {
				return true
			}
			m[o.CapabilityInfo.GetPackageDir()] = struct{}{}
			return false
		})
"""))
keep("rep-dedupe-inplace", (A, DEDUPE, """		type cp struct {
			cpb.Capability
			*types.Package
		}
		seen := make(map[cp]struct{})
		kept := caps[:0]
		for _, o := range caps {
			k := cp{o.CapabilityInfo.GetCapability(), o.Function.Package().Pkg}
			if _, ok := seen[k]; !ok {
				seen[k] = struct{}{}
				kept = append(kept, o)
			}
		}
		caps = kept
"""))
keep("rep-append-results", (A, FILL, """		ModuleInfo:  collectModuleInfo(pkgs),
		PackageInfo: collectPackageInfo(pkgs),
	}
	for _, o := range caps {
		cil.CapabilityInfo = append(cil.CapabilityInfo, o.CapabilityInfo)
	}
"""))
keep("rep-mid-prepend", (A, TO, """			for v := node; v != nil; {
				e := queryBFS[v].edge
				var one []*cpb.Function
				addFunction(&one, v, e)
				ci.Path = append(one, ci.Path...)
				if e == nil {
					break
				}
				v = e.Caller
			}
"""))
keep("rep-mid-edges", (A, TO, """			e := queryBFS[node].edge
			addFunction(&ci.Path, node, e)
			for e != nil {
				v := e.Caller
				e = queryBFS[v].edge
				addFunction(&ci.Path, v, e)
			}
			slices.Reverse(ci.Path)
"""), (A, FROM, """			for e := capabilityBFS[node].edge; e != nil; e = capabilityBFS[e.Callee].edge {
				addFunction(&ci.Path, e.Callee, e)
			}
"""))
keep("rep-mid-helper", (A, TO, """			ci.Path = pathTo(queryBFS, node)
"""), (A, "// intermediatePackages returns a", """func pathTo(bfs bfsStateMap, v *callgraph.Node) []*cpb.Function {
	var fns []*cpb.Function
	for {
		e := bfs[v].edge
		addFunction(&fns, v, e)
		if e == nil {
			slices.Reverse(fns)
			return fns
		}
		v = e.Caller
	}
}

// intermediatePackages returns a"""))
keep("rep-mid-manual-reverse", (A, "			slices.Reverse(ci.Path)\n", """			for i, j := 0, len(ci.Path)-1; i < j; i, j = i+1, j-1 {
				ci.Path[i], ci.Path[j] = ci.Path[j], ci.Path[i]
			}
"""))
keep("rep-mid-collect-edges", (A, TO, """			var edges []*callgraph.Edge
			for v := node; ; {
				e := queryBFS[v].edge
				edges = append(edges, e)
				if e == nil {
					break
				}
				v = e.Caller
			}
			slices.Reverse(edges)
			for i, e := range edges {
				if e == nil {
					_ = i
				}
			}
""" + TO))
keep("rep-mid-seen-nested", (A, SEENI, """		pc := packageAndCapability{pkg, capability}
		if seen[pc] != nil {
			return
		}
"""))
keep("rep-stats-plain", (A, STATS, """			counter := cm[cap.String()]
			if isDirect {
				counter.direct_count++
			} else {
				counter.transitive_count++
			}
			counter.example = e
"""))
keep("rep-stats-var", (A, STATS, """			var d, t int64
			if isDirect {
				d = 1
			} else {
				t = 1
			}
			k := cm[cap.String()]
			k.direct_count += d
			k.transitive_count += t
			k.example = e
"""))
keep("rep-node-order", (U, NODE, """	if o := fn.Origin(); o != nil && fn.Package() == nil {
		if pkg := o.Package(); pkg != nil {
			return pkg.Pkg
		}
	}
	if pkg := fn.Package(); pkg != nil {
		return pkg.Pkg
	}
"""))
keep("rep-addfunction-result", (U, ADD, """	*fns = append(*fns, newFunction(v, incomingEdge))
"""), (U, "// addFunction adds an entry", """func newFunction(v *callgraph.Node, edge *callgraph.Edge) *cpb.Function {
	fn := new(cpb.Function)
	fn.Name = proto.String(v.Func.String())
	if pkg := nodeToPackage(v); pkg != nil {
		fn.Package = proto.String(pkg.Path())
	}
	pos := callsitePosition(edge)
	if !pos.IsValid() {
		return fn
	}
	fn.Site = &cpb.Function_Site{}
	fn.Site.Filename = proto.String(path.Base(pos.Filename))
	fn.Site.Line = proto.Int64(int64(pos.Line))
	fn.Site.Column = proto.Int64(int64(pos.Column))
	return fn
}

// addFunction adds an entry"""))
keep("rep-callsite-flat", (U, """	if edge == nil {
		return token.Position{}
	} else if f := edge.Caller.Func; f == nil {
		return token.Position{}
	} else if prog := f.Prog; prog == nil {
		return token.Position{}
	} else if fset := prog.Fset; fset == nil {
		return token.Position{}
	} else {
		return fset.Position(edge.Pos())
	}
""", """	if edge == nil || edge.Caller.Func == nil || edge.Caller.Func.Prog == nil {
		return token.Position{}
	}
	fset := edge.Caller.Func.Prog.Fset
	if fset == nil {
		return token.Position{}
	}
	return fset.Position(edge.Pos())
"""))
keep("rep-pp-switch", (U, PP, """	if o := f.Origin(); o != nil {
		f = o
	}
	if p := f.Package(); p != nil && p.Pkg != nil {
		return p.Pkg.Path()
	}
"""))
keep("rep-std-index", (U, """	if strings.Contains(p, ".") {
		return false
	}
	return true
""", """	return strings.IndexByte(p, '.') < 0
"""))
keep("rep-next-inline", (U, """	if b.edge == nil {
		return nil
	}
	return b.edge.Callee
""", """	if e := b.edge; e != nil {
		return e.Callee
	}
	return nil
"""))

# ---- C10
brk("rep-site-of-next", "C10", (A, WALK, WALK.replace("addFunction(&c.Path, v, incomingEdge)", "_ = incomingEdge\n					addFunction(&c.Path, v, nodes[v].edge)")))
brk("rep-no-last", "C10", (A, WALK, WALK.replace("if !config.OmitPaths || (i == 0", "if !config.OmitPaths && nodes[v].edge != nil || (i == 0")))
brk("rep-skip-wrappers", "C10", (A, WALK, WALK.replace("if !config.OmitPaths || (i == 0", "if !config.OmitPaths && nodeToPackage(v) != nil || (i == 0")))
brk("rep-deppath-nospace", "C10", (A, DEP, DEP.replace("i != 0", "i > 1")))
brk("rep-deppath-package", "C10", (A, DEP, DEP.replace("p.GetName()", "p.GetPackage()")))
brk("rep-deppath-short", "C10", (A, DEP, DEP.replace("range c.Path", "range c.Path[:min(len(c.Path), 64)]")))
brk("rep-mid-unreversed", "C10", (A, "			slices.Reverse(ci.Path)\n", ""))
brk("rep-mid-reverse-late", "C10", (A, TO, TO.replace("			slices.Reverse(ci.Path)\n", "")), (A, FROM, FROM + "			slices.Reverse(ci.Path)\n"))
brk("rep-mid-node-twice", "C10", (A, FROM, FROM.replace("""				v = e.Callee
				addFunction(&ci.Path, v, e)
""", """				addFunction(&ci.Path, v, e)
				v = e.Callee
""")))
brk("rep-mid-wrong-map", "C10", (A, FROM, FROM.replace("capabilityBFS[v]", "queryBFS[v]")))
brk("rep-mid-site", "C10", (A, TO, TO.replace("addFunction(&ci.Path, v, e)", "addFunction(&ci.Path, v, capabilityBFS[v].edge)")))
brk("rep-site-line", "C10", (U, "int64(position.Line)", "int64(position.Line+1)"))
brk("rep-site-column", "C10", (U, "Column:   proto.Int64(int64(position.Column))", "Column:   proto.Int64(int64(position.Line))"))
brk("rep-site-caller", "C10", (U, "fset.Position(edge.Pos())", "fset.Position(edge.Caller.Func.Pos())"))
brk("rep-name-short", "C10", (U, "Name: proto.String(v.Func.String())", "Name: proto.String(v.Func.Name())"))
brk("rep-wrong-recorded", "C10", (A, "				visited[w] = bfsState{edge: edge}\n", "				visited[w] = bfsState{edge: incomingEdges[0]}\n"))
brk("rep-rerecorded", "C10", (A, """				if _, ok := visited[w]; ok {
					// We have already visited w.
					continue
				}
				if _, ok := allNodesWithExplicitCapability[w]; ok {
					// w already has an explicit categorization.
					continue
				}
				visited[w] = bfsState{edge: edge}
""", """				if _, ok := allNodesWithExplicitCapability[w]; ok {
					// w already has an explicit categorization.
					continue
				}
				_, ok := visited[w]
				visited[w] = bfsState{edge: edge}
				if ok {
					// We have already visited w.
					continue
				}
"""))
brk("rep-forward-edge", "C10", (A, "			bfsFromQueries[w] = bfsState{edge}\n", "			bfsFromQueries[w] = bfsState{outgoingEdges[max(i-1, 0)]}\n"))
brk("rep-stats-path", "C10", (A, "				if !config.OmitPaths || i == 0 {\n					addFunction(&e,", "				if !config.OmitPaths && i < 32 || i == 0 {\n					addFunction(&e,"))
brk("rep-stats-shared-example", "C10", (A, "cm[cap.String()].example = e", "cm[cap.String()].example = append(cm[cap.String()].example, e...)"))
# ---- C11
brk("rep-label-last", "C11", (A, WALK, WALK.replace("""					ctype = cpb.CapabilityType_CAPABILITY_TYPE_TRANSITIVE
				}
""", """					ctype = cpb.CapabilityType_CAPABILITY_TYPE_TRANSITIVE
				} else if i > 1 {
					ctype = cpb.CapabilityType_CAPABILITY_TYPE_DIRECT
				}
""")))
brk("rep-label-omit", "C11", (A, WALK, WALK.replace("n != pName && !isStdLib(pName) {", "n != pName && !isStdLib(pName) && !config.OmitPaths {")))
brk("rep-label-std", "C11", (A, WALK, WALK.replace("n != pName && !isStdLib(pName) {", "n != pName {")))
brk("rep-label-name", "C11", (A, WALK, WALK.replace("n = v.Func.Package().Pkg.Path()", "n = v.Func.Package().Pkg.Name()")))
brk("rep-label-prefix", "C11", (A, WALK, WALK.replace("n != pName && !isStdLib(pName) {", "!strings.HasPrefix(pName, n) && !isStdLib(pName) {")))
brk("rep-label-first-dot", "C11", (U, 'strings.Contains(p, ".")', 'strings.HasPrefix(p, "github.com/")'))
brk("rep-label-swapped-stats", "C11", (A, STATS, STATS.replace("if isDirect {", "if !isDirect {")))
brk("rep-label-stats-both", "C11", (A, STATS, STATS.replace("""					cm[cap.String()].direct_count += 1
""", """					cm[cap.String()].direct_count += 1
					cm[cap.String()].transitive_count += 1
""")))
brk("rep-label-stats-std", "C11", (A, """n != pName && !isStdLib(pName) {
					isDirect = false""", """n != pName {
					isDirect = false"""))
brk("rep-label-generic", "C11", (U, PP, PP.replace("""	if f.Origin() != nil {
		f = f.Origin()
	}
""", "")))
brk("rep-label-fields-swapped", "C11", (A, """			DirectCount:     &counts.direct_count,
			TransitiveCount: &counts.transitive_count,""", """			DirectCount:     &counts.transitive_count,
			TransitiveCount: &counts.direct_count,"""))
# ---- C12
brk("rep-dedupe-name", "C12", (A, DEDUPE, DEDUPE.replace("*ssa.Package\n		}", "string\n		}").replace("pkg}", "pkg.Pkg.Name()}")))
brk("rep-dedupe-nocap", "C12", (A, DEDUPE, DEDUPE.replace("cp{o.CapabilityInfo.GetCapability(), pkg}", "cp{0, pkg}")))
brk("rep-dedupe-function", "C12", (A, DEDUPE, DEDUPE.replace("*ssa.Package\n		}", "*ssa.Function\n		}").replace("pkg}", "o.Function}").replace("cp := cp", "_ = pkg\n			cp := cp")))
brk("rep-dedupe-always", "C12", (A, "	if config.Granularity == GranularityPackage {\n		// Keep", "	if config.Granularity == GranularityPackage || config.OmitPaths {\n		// Keep"))
brk("rep-dedupe-compact", "C12", (A, DEDUPE, """		caps = slices.CompactFunc(caps, func(a, b output) bool {
			return a.GetCapability() == b.GetCapability() && a.GetPackageName() == b.GetPackageName()
		})
"""))
brk("rep-seen-capability", "C12", (A, SEENI, SEENI.replace("packageAndCapability{pkg, capability}", "packageAndCapability{pkg: pkg}")))
brk("rep-generic-package", "C12", (U, NODE, NODE[:NODE.index("	// Generic")]))
brk("rep-dir-name", "C12", (A, "PackageName: proto.String(pkg.Name())", "PackageName: proto.String(pkg.Path())"))
brk("rep-mid-filter", "C12 C21", (A, "		return config.CapabilitySet.Has(c)\n", "		return config.CapabilitySet == nil || config.CapabilitySet.Has(c) && c != cpb.Capability_CAPABILITY_UNANALYZED\n"))
brk("rep-mid-stale-capability", "C12", (A, """		capability = c
		return config.CapabilitySet.Has(c)
""", """		if capability == 0 {
			capability = c
		}
		return config.CapabilitySet.Has(c)
"""))
brk("rep-omit-name", "C12", (A, WALK, WALK.replace("config.Granularity == GranularityFunction", "config.Granularity == GranularityUnset")))
brk("rep-omit-last", "C12", (A, WALK, WALK.replace("(i == 0 && config.Granularity == GranularityFunction)", "(nodes[v].edge == nil && config.Granularity == GranularityFunction)")))
