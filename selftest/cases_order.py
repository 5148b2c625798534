A = "analyzer/analyzer.go"
U = "analyzer/util.go"
L = "analyzer/load.go"
C = "analyzer/compare.go"
S = "analyzer/scan.go"
D = "cmd/capslock-git-diff/main.go"

BACK = """			q = append(q, v)
			visited[v] = bfsState{}
		}
	}
	sort.Sort(byFunction(q)) // make the search order deterministic
"""
FORW = """		q = append(q, v)
		bfsFromQueries[v] = bfsState{}
	}
	sort.Sort(byFunction(q)) // make the search order deterministic
"""
EACH = """			visited[v] = bfsState{}
		}
		sort.Sort(byFunction(q))
		for _, v := range q {
"""
IN2 = "		sort.Sort(byCaller(incomingEdges)) // make the search order deterministic\n"
IN1 = "			sort.Sort(byCaller(incomingEdges))\n			for"
OUT = "		sort.Sort(byCallee(outgoingEdges)) // make the search order deterministic\n"
CAPS = "	sort.Slice(caps, func(i, j int) bool { return caps[i] < caps[j] })\n"
INFO = """	sort.Slice(caps, func(i, j int) bool {
		if x, y := caps[i].CapabilityInfo.GetCapability(), caps[j].CapabilityInfo.GetCapability(); x != y {
			return x < y
		}
		return funcCompare(caps[i].Function, caps[j].Function) < 0
	})
"""
STAT = """	sort.Slice(cs, func(i, j int) bool {
		return cs[i].GetCapability() < cs[j].GetCapability()
	})
"""
INTER = """	slices.SortFunc(cis, func(a, b *cpb.CapabilityInfo) int {
		if x, y := a.GetCapability(), b.GetCapability(); x != y {
			return int(x) - int(y)
		}
		return strings.Compare(a.GetPackageDir(), b.GetPackageDir())
	})
"""
MOD = "	sort.Strings(modulePaths)\n"
PKG = """	sort.Slice(out, func(i, j int) bool {
		return out[i].GetPath() < out[j].GetPath()
	})
"""
MACH = "		sort.Strings(cs)\n"
KEYS = """	sort.Slice(keys, func(i, j int) bool {
		if a, b := keys[i].capability, keys[j].capability; a != b {
			return a < b
		}
		return keys[i].key < keys[j].key
	})
"""
FC = "	return strings.Compare(a.String(), b.String())\n"
PL = """	if p1.Filename != p2.Filename {
		// Note that two positions from the same function can have different
		// filenames because the ssa.Function for "init" can include
		// initialization code for package-level variables in multiple files.
		return p1.Filename < p2.Filename
	}
	return p1.Offset < p2.Offset
"""
SC = "	return slices.Sorted(maps.Keys(nodesByCapability))\n"

brk("ord-back", "C20", (A, BACK, BACK.replace("	sort.Sort(byFunction(q)) // make the search order deterministic\n", "")))
brk("ord-forw", "C20", (A, FORW, FORW.replace("	sort.Sort(byFunction(q)) // make the search order deterministic\n", "")))
brk("ord-each", "C20", (A, EACH, EACH.replace("		sort.Sort(byFunction(q))\n", "")))
brk("ord-in1", "C20", (A, IN1, "			for"))
brk("ord-in2", "C20", (A, IN2, ""))
brk("ord-out", "C20", (A, OUT, ""))
keep("ord-caps", (A, CAPS, ""))
brk("ord-stat", "C20", (A, STAT, ""))
brk("ord-inter", "C20", (A, INTER, ""))
brk("ord-mod", "C20 C26", (L, MOD, ""), (L, '	"sort"\n', '	"slices"\n	"strings"\n'), (L, "	sort.Slice(out, func(i, j int) bool {\n		return out[i].GetPath() < out[j].GetPath()\n	})\n", "	slices.SortFunc(out, func(a, b *cpb.PackageInfo) int { return strings.Compare(a.GetPath(), b.GetPath()) })\n"))
brk("ord-pkg", "C20 C26", (L, PKG, ""))
brk("ord-mach", "C20", (S, MACH, ""), (S, '	"sort"\n', ""))
brk("ord-keys", "C20", (C, KEYS, ""), (C, '	"sort"\n', ""))
brk("ord-keys-cap", "C20", (C, KEYS, KEYS.replace("keys[i].key < keys[j].key", "false")))
brk("ord-keys-name", "C20", (C, KEYS, "	sort.Slice(keys, func(i, j int) bool { return keys[i].key < keys[j].key })\n"))
brk("ord-diff-keys", "C20", (D, KEYS, "	sort.Slice(keys, func(i, j int) bool { return keys[i].capability < keys[j].capability })\n"))
brk("ord-diff-caps", "C20", (D, "	slices.Sort(cs)\n", "	cs = slices.Sorted(slices.Values(cs))\n"))
brk("ord-func-name", "C20", (U, FC, "	return strings.Compare(a.Name(), b.Name())\n"))
brk("ord-func-len", "C20", (U, FC, "	return len(a.String()) - len(b.String())\n"))
brk("ord-pos-line", "C20", (U, "	return p1.Offset < p2.Offset\n", "	return p1.Line < p2.Line\n"))
brk("ord-pos-file", "C20", (U, PL, "	return p1.Offset < p2.Offset\n"))
brk("ord-pos-base", "C20", (U, "p1.Filename < p2.Filename", "len(p1.Filename) < len(p2.Filename)"))
brk("ord-node-id", "C20", (U, "	return funcCompare(a.Func, b.Func)\n", "	return a.ID - b.ID\n"))
brk("ord-caller-node", "C20", (U, """	if c := nodeCompare(s[i].Caller, s[j].Caller); c != 0 {
		return c < 0
	}
""", ""))
brk("ord-callee-only", "C20", (U, """	if c := nodeCompare(s[i].Callee, s[j].Callee); c != 0 {
		return c < 0
	}
	return positionLess(callsitePosition(s[i]), callsitePosition(s[j]))
""", "	return nodeCompare(s[i].Callee, s[j].Callee) < 0\n"))
brk("ord-callee-as-caller", "C20", (A, IN1, IN1.replace("byCaller", "byCallee")))
brk("ord-sorted-caps", "C20", (A, SC, "	return slices.Collect(maps.Keys(nodesByCapability))\n"))
brk("ord-stat-count", "C20", (A, STAT, STAT.replace("GetCapability()", "GetCount()")))
brk("ord-inter-cap", "C20", (A, INTER, INTER.replace("		return strings.Compare(a.GetPackageDir(), b.GetPackageDir())\n", "		return 0\n")))
brk("ord-inter-dir", "C20", (A, INTER, INTER.replace("""		if x, y := a.GetCapability(), b.GetCapability(); x != y {
			return int(x) - int(y)
		}
""", "")))
brk("ord-machine-map", "C20", (S, """		for c := range cil.CapabilityCounts {
			cs = append(cs, c)
		}
		sort.Strings(cs)
		for _, c := range cs {
""", """		sort.Strings(cs)
		for c := range cil.CapabilityCounts {
"""))
brk("ord-compare-map", "C20", (C, "	for _, key := range keys {\n		ciBaseline", "	for key := range currentMap {\n		ciBaseline"), (C, "		if inBaseline && !inCurrent {", "		_ = keys\n		if inBaseline && !inCurrent {"))
brk("ord-sort-early", "C20", (A, IN2, ""), (A, "		var incomingEdges []*callgraph.Edge\n		for _, edge := range v.In {\n			if !classifier", "		var incomingEdges []*callgraph.Edge\n		sort.Sort(byCaller(incomingEdges))\n		for _, edge := range v.In {\n			if !classifier"))
brk("ord-time", "C20", (S, "			if _, err := fmt.Println(c); err != nil {\n", "			if _, err := fmt.Println(c, time.Now().Year()); err != nil {\n"), (S, '	"sort"\n', '	"sort"\n	"time"\n'))
brk("ord-first-module", "C20", (L, "		pm.Path = proto.String(m.Path)\n		pm.Version = proto.String(m.Version)\n", "		pm.Path = proto.String(m.Path)\n		pm.Version = proto.String(pkg.Name)\n"))
brk("ord-example", "C20", (A, "	for _, counts := range cm {\n		cs = append", "	var example []*cpb.Function\n	for _, counts := range cm {\n		if example == nil {\n			example = counts.example\n		}\n		cs = append"), (A, "			ExampleCallpath: counts.example,\n", "			ExampleCallpath: example,\n"))
brk("ord-number", "C20", (A, "	for _, counts := range cm {\n		cs = append", "	n := int64(0)\n	for _, counts := range cm {\n		n++\n		counts.count += n\n		cs = append"))

# the same order by other means
keep("ord-slices", (A, IN2, "		slices.SortFunc(incomingEdges, func(a, b *callgraph.Edge) int {\n			if c := nodeCompare(a.Caller, b.Caller); c != 0 {\n				return c\n			}\n			switch p, q := callsitePosition(a), callsitePosition(b); {\n			case positionLess(p, q):\n				return -1\n			case positionLess(q, p):\n				return 1\n			}\n			return 0\n		})\n"))
keep("ord-stable", (A, IN2, "		sort.Stable(byCaller(incomingEdges))\n"), (A, OUT, "		sort.Stable(byCallee(outgoingEdges))\n"))
keep("ord-helper", (A, IN2, "		sortEdges(incomingEdges)\n"), (A, IN1, "			sortEdges(incomingEdges)\n			for"), (A, "// searchForwardsFromQueriedFunctions searches from", "func sortEdges(edges []*callgraph.Edge) { sort.Sort(byCaller(edges)) }\n\n// searchForwardsFromQueriedFunctions searches from"))
keep("ord-collect", (A, """	var caps []cpb.Capability
	for cap := range nodesByCapability {
		caps = append(caps, cap)
	}
""" + CAPS + "	for _, cap := range caps {", "	for _, cap := range sortedCapabilities(nodesByCapability) {"))
keep("ord-sorted-loop", (A, SC, """	var out []cpb.Capability
	for c := range nodesByCapability {
		out = append(out, c)
	}
	slices.Sort(out)
	return out
"""), (A, '	"maps"\n', ""))
keep("ord-mach-slices", (S, """		for c := range cil.CapabilityCounts {
			cs = append(cs, c)
		}
		sort.Strings(cs)
		for _, c := range cs {
""", """		cs = slices.Sorted(maps.Keys(cil.CapabilityCounts))
		for _, c := range cs {
"""), (S, '	"sort"\n', '	"maps"\n	"slices"\n'))
keep("ord-func-switch", (U, FC, """	switch x, y := a.String(), b.String(); {
	case x < y:
		return -1
	case x > y:
		return +1
	}
	return 0
"""))
keep("ord-pos-columns", (U, "	return p1.Offset < p2.Offset\n", "	if p1.Line != p2.Line {\n		return p1.Line < p2.Line\n	}\n	return p1.Column < p2.Column\n"))
keep("ord-pos-compare", (U, PL, "	if c := strings.Compare(p1.Filename, p2.Filename); c != 0 {\n		return c < 0\n	}\n	return p1.Offset < p2.Offset\n"))
keep("ord-pos-valid", (U, "	if p2.Line == 0 {\n", "	if !p2.IsValid() {\n"), (U, "	if p1.Line == 0 {\n", "	if !p1.IsValid() {\n"), (U, "return p1.Line != 0", "return p1.IsValid()"))
keep("ord-keys-func", (C, KEYS, """	slices.SortFunc(keys, func(a, b mapKey) int {
		if c := cmp.Compare(a.capability, b.capability); c != 0 {
			return c
		}
		return strings.Compare(a.key, b.key)
	})
"""), (C, '	"sort"\n', '	"cmp"\n	"slices"\n	"strings"\n'))
keep("ord-keys-or", (C, KEYS, """	slices.SortFunc(keys, func(a, b mapKey) int {
		return cmp.Or(cmp.Compare(a.capability, b.capability), cmp.Compare(a.key, b.key))
	})
"""), (C, '	"sort"\n', '	"cmp"\n	"slices"\n'))
keep("ord-keys-swap", (C, KEYS, KEYS.replace("""		if a, b := keys[i].capability, keys[j].capability; a != b {
			return a < b
		}
		return keys[i].key < keys[j].key
""", """		a, b := keys[i], keys[j]
		return a.capability < b.capability || a.capability == b.capability && a.key < b.key
""")))
keep("ord-union", (C, """	var keys []mapKey
	for k := range baselineMap {
		keys = append(keys, k)
	}
	for k := range currentMap {
		if _, ok := baselineMap[k]; !ok {
			keys = append(keys, k)
		}
	}
""", """	all := make(map[mapKey]struct{})
	for k := range baselineMap {
		all[k] = struct{}{}
	}
	for k := range currentMap {
		all[k] = struct{}{}
	}
	keys := make([]mapKey, 0, len(all))
	for k := range all {
		keys = append(keys, k)
	}
"""))
keep("ord-mod-sort", (L, """	var modulePaths []string
	for path := range pathToModule {
		modulePaths = append(modulePaths, path)
	}
	sort.Strings(modulePaths)
	// Construct the output slice.
	var modules []*cpb.ModuleInfo
	for _, path := range modulePaths {
		modules = append(modules, pathToModule[path])
	}
""", """	var modules []*cpb.ModuleInfo
	for _, m := range pathToModule {
		modules = append(modules, m)
	}
	sort.Slice(modules, func(i, j int) bool { return modules[i].GetPath() < modules[j].GetPath() })
"""))
keep("ord-stat-keys", (A, "	for _, counts := range cm {\n		cs = append", "	for _, name := range slices.Sorted(maps.Keys(cm)) {\n		counts := cm[name]\n		cs = append"))
keep("ord-total", (A, "	for _, counts := range cm {\n		cs = append", "	total := int64(0)\n	for _, counts := range cm {\n		total += counts.count\n		cs = append"), (A, STAT, STAT + "	_ = total\n"))
keep("ord-iter-func", (A, SC, "	return slices.SortedFunc(maps.Keys(nodesByCapability), func(a, b cpb.Capability) int { return int(a) - int(b) })\n"))
keep("ord-string-slice", (S, MACH, "		sort.Sort(sort.StringSlice(cs))\n"), (L, MOD, "	sort.Sort(sort.StringSlice(modulePaths))\n"))
keep("ord-inner-count", (A, "	for _, nodes := range nodesByCapability {\n		for v := range nodes {\n			if _, ok := safe[v]; ok {\n				continue\n			}\n			q = append", "	n := 0\n	for _, nodes := range nodesByCapability {\n		for v := range nodes {\n			if _, ok := safe[v]; ok {\n				continue\n			}\n			n++\n			q = append"), (A, BACK, BACK + "	_ = n\n"))
keep("ord-largest", (A, "	for _, counts := range cm {\n		cs = append", "	largest := int64(0)\n	for _, counts := range cm {\n		if counts.count > largest {\n			largest = counts.count\n		}\n		cs = append"), (A, STAT, STAT + "	if largest > 1000000 {\n		println(largest)\n	}\n"))
brk("ord-visited-by-name", "C20", (U, """	visitedPackages := make(map[*packages.Package]struct{})
""", """	visitedPackages := make(map[string]struct{})
"""), (U, "		if _, ok := visitedPackages[p]; ok {", "		if _, ok := visitedPackages[p.Name]; ok {"), (U, "		visitedPackages[p] = struct{}{}", "		visitedPackages[p.Name] = struct{}{}"))
brk("ord-visited-by-name-at-call", "C20", (U, """	visitedPackages := make(map[*packages.Package]struct{})
""", """	visitedPackages := make(map[string]struct{})
"""), (U, """		if _, ok := visitedPackages[p]; ok {
			return
		}
		visitedPackages[p] = struct{}{}
""", "		visitedPackages[p.Name] = struct{}{}\n"), (U, """		for _, p2 := range p.Imports {
			visit(p2)
""", """		for _, p2 := range p.Imports {
			if _, ok := visitedPackages[p2.Name]; ok {
				continue
			}
			visit(p2)
"""))
