I = "interesting/interesting.go"
C = "cmd/capslock/capslock.go"
AN = "analyzer/analyzer.go"

FUNC_CASE = """			// Format: func package/function capability
			if len(args) < 3 {
				return nil, fmt.Errorf("%v:%v: invalid %v format", source, line, args[0])
			}
			if _, ok := ret.functionCategory[args[1]]; ok {
				return nil, fmt.Errorf("%v:%v: duplicate %v key", source, line, args[0])
			}
			c, ok := cpb.Capability_value[args[2]]
			if !ok {
				return nil, fmt.Errorf("%v:%v: unsupported capability %q", source, line, args[2])
			}
			ret.functionCategory[args[1]] = cpb.Capability(c)
"""
COMMENT = """		t := strings.Split(scanner.Text(), "#")
		if len(t) == 0 {
			continue
		}
		args := strings.Fields(t[0])
"""
LOOKUP = """	for _, s := range c.cgoSuffixes {
		// Calls to C functions produce a call to a function
		// named "_cgo_runtime_cgocall" in the current package.
		// Calls to the various type conversion functions in the
		// "C" pseudo-package (see See https://pkg.go.dev/cmd/cgo)
		// produce calls to other functions listed in cgoSuffixes.
		if strings.HasSuffix(name, s) {
			return cpb.Capability_CAPABILITY_CGO
		}
	}
"""
MERGE = """		for name := range src.unanalyzedCategory {
			// A function entry takes precedence over an unanalyzed entry, so remove
			// the one that src overrides.
			delete(dst.functionCategory, name)
		}
		maps.Copy(dst.functionCategory, src.functionCategory)
		maps.Copy(dst.unanalyzedCategory, src.unanalyzedCategory)
		maps.Copy(dst.packageCategory, src.packageCategory)
		maps.Copy(dst.ignoredEdges, src.ignoredEdges)
		dst.cgoSuffixes = append(dst.cgoSuffixes, src.cgoSuffixes...)
"""
NODECAPS_OLD = None

# --- C19
brk("c19-scanner-err", "C19", (I, """	if err := scanner.Err(); err != nil {
		return nil, fmt.Errorf("%v:%v: %w", source, line+1, err)
	}
""", ""))
brk("c19-scanner-err-first", "C19", (I, "	if err := scanner.Err(); err != nil {", "	if err := scanner.Err(); err != nil && line == 0 {"))
brk("c19-unknown-keyword", "C19", (I, """			return nil, fmt.Errorf("%v:%v: unsupported keyword %q", source, line, args[0])
""", """			if strings.HasPrefix(args[0], "x-") {
				continue
			}
			return nil, fmt.Errorf("%v:%v: unsupported keyword %q", source, line, args[0])
"""))
brk("c19-stop-at-end", "C19", (I, """		case "unanalyzed":
""", """		case "end":
			return ret, nil
		case "unanalyzed":
"""))
brk("c19-unspecified-dup", "C19", (I, "if _, ok := ret.functionCategory[args[1]]; ok {", "if ret.functionCategory[args[1]] != cpb.Capability_CAPABILITY_UNSPECIFIED {"))
brk("c19-edge-dup", "C19", (I, """			if _, ok := ret.ignoredEdges[k]; ok {
				return nil, fmt.Errorf("%v:%v: duplicate %v key", source, line, args[0])
			}
""", ""))
brk("c19-zero-cap", "C19", (I, """			c, ok := cpb.Capability_value[args[2]]
			if !ok {
				return nil, fmt.Errorf("%v:%v: unsupported capability %q", source, line, args[2])
			}
			ret.packageCategory[args[1]]""", """			c := cpb.Capability_value[args[2]]
			if c == 0 && args[2] == "" {
				return nil, fmt.Errorf("%v:%v: unsupported capability %q", source, line, args[2])
			}
			ret.packageCategory[args[1]]"""))
brk("c19-line-skipped", "C19", (I, """		line++
		// Ignore comments and empty lines.
		t := strings.Split(scanner.Text(), "#")
		if len(t) == 0 {
			continue
		}
		args := strings.Fields(t[0])
		if len(args) == 0 {
			continue
		}
""", """		// Ignore comments and empty lines.
		t := strings.Split(scanner.Text(), "#")
		if len(t) == 0 {
			continue
		}
		args := strings.Fields(t[0])
		if len(args) == 0 {
			continue
		}
		line++
"""))
brk("c19-trailing-comment", "C19", (I, COMMENT, """		text := scanner.Text()
		if strings.HasPrefix(text, "#") {
			continue
		}
		args := strings.Fields(text)
"""))
brk("c19-hash-skips-line", "C19", (I, COMMENT, """		text := scanner.Text()
		if strings.Contains(text, "#") {
			continue
		}
		args := strings.Fields(text)
"""))
brk("c19-edge-key", "C19", (I, "k := [2]string{args[1], args[2]}", "k := [2]string{args[2], args[1]}"))
brk("c19-suffix-keyword", "C19", (I, "ret.cgoSuffixes = append(ret.cgoSuffixes, args[1])", "ret.cgoSuffixes = append(ret.cgoSuffixes[:0], args[1])"))
brk("c19-cap-upper", "C19", (I, FUNC_CASE, FUNC_CASE.replace("cpb.Capability_value[args[2]]", "cpb.Capability_value[args[len(args)-1]]")))
keep("c19-cut", (I, COMMENT, """		t, _, _ := strings.Cut(scanner.Text(), "#")
		args := strings.Fields(t)
"""))
keep("c19-index", (I, COMMENT, """		text := scanner.Text()
		if i := strings.IndexByte(text, '#'); i >= 0 {
			text = text[:i]
		}
		args := strings.Fields(text)
"""))
keep("c19-splitn-trim", (I, COMMENT, """		text := strings.TrimSpace(scanner.Text())
		if text == "" || strings.HasPrefix(text, "#") {
			continue
		}
		args := strings.Fields(strings.SplitN(text, "#", 2)[0])
"""))
keep("c19-break-loop", (I, """	for scanner.Scan() {
		line++
""", """	for {
		if !scanner.Scan() {
			break
		}
		line++
"""))
keep("c19-line-from-one", (I, """	line := 0
	for scanner.Scan() {
		line++
""", """	for line = 1; scanner.Scan(); line++ {
"""), (I, "	scanner := bufio.NewScanner(r)\n", "	scanner := bufio.NewScanner(r)\n	var line int\n"),
     (I, "source, line+1, err)", "source, line, err)"))
keep("c19-helper-capability", (I, """			c, ok := cpb.Capability_value[args[2]]
			if !ok {
				return nil, fmt.Errorf("%v:%v: unsupported capability %q", source, line, args[2])
			}
			ret.functionCategory[args[1]] = cpb.Capability(c)
""", """			c, err := lookupCapability(args[2])
			if err != nil {
				return nil, fmt.Errorf("%v:%v: %w", source, line, err)
			}
			ret.functionCategory[args[1]] = c
"""), (I, "func parseCapabilityMap(", """func lookupCapability(name string) (cpb.Capability, error) {
	if c, ok := cpb.Capability_value[name]; ok {
		return cpb.Capability(c), nil
	}
	return 0, fmt.Errorf("unsupported capability %q", name)
}

func parseCapabilityMap("""))
keep("c19-helper-add", (I, FUNC_CASE, """			if err := addEntry(ret.functionCategory, args); err != nil {
				return nil, fmt.Errorf("%v:%v: %w", source, line, err)
			}
"""), (I, "func parseCapabilityMap(", """func addEntry(m map[string]cpb.Capability, args []string) error {
	if len(args) < 3 {
		return fmt.Errorf("invalid %v format", args[0])
	}
	if _, ok := m[args[1]]; ok {
		return fmt.Errorf("duplicate %v key", args[0])
	}
	c, ok := cpb.Capability_value[args[2]]
	if !ok {
		return fmt.Errorf("unsupported capability %q", args[2])
	}
	m[args[1]] = cpb.Capability(c)
	return nil
}

func parseCapabilityMap("""))
keep("c19-helper-error", (I, FUNC_CASE, FUNC_CASE.replace('fmt.Errorf("%v:%v: duplicate %v key", source, line, args[0])', 'fail("duplicate %v key", args[0])')),
     (I, """	line := 0
	for scanner.Scan() {""", """	line := 0
	fail := func(format string, a ...any) error {
		return fmt.Errorf("%v:%v: %s", source, line, fmt.Sprintf(format, a...))
	}
	for scanner.Scan() {"""))
keep("c19-if-chain", (I, """		case "cgo_suffix":
			// Format: cgo_suffix suffix.
			ret.cgoSuffixes = append(ret.cgoSuffixes, args[1])
		case "func":""", """		case "func":"""), (I, "		// Keyword is first argument.\n", """		// Keyword is first argument.
		if args[0] == "cgo_suffix" {
			ret.cgoSuffixes = append(ret.cgoSuffixes, args[1])
			continue
		}
"""))
keep("c19-order", (I, FUNC_CASE, """			// Format: func package/function capability
			if len(args) < 3 {
				return nil, fmt.Errorf("%v:%v: invalid %v format", source, line, args[0])
			}
			c, ok := cpb.Capability_value[args[2]]
			if !ok {
				return nil, fmt.Errorf("%v:%v: unsupported capability %q", source, line, args[2])
			}
			if _, dup := ret.functionCategory[args[1]]; dup {
				return nil, fmt.Errorf("%v:%v: duplicate %v key", source, line, args[0])
			}
			ret.functionCategory[args[1]] = cpb.Capability(c)
"""))
keep("c19-parse-line", (I, """		// Ignore comments and empty lines.
""" + COMMENT, """		args := fieldsOf(scanner.Text())
"""), (I, "func parseCapabilityMap(", """func fieldsOf(line string) []string {
	t := strings.Split(line, "#")
	if len(t) == 0 {
		return nil
	}
	return strings.Fields(t[0])
}

func parseCapabilityMap("""))
keep("c19-locals", (I, "	ret := newClassifier()\n	scanner", "	ret := newClassifier()\n	funcs := ret.functionCategory\n	scanner"),
     (I, "ret.functionCategory[args[1]] = cpb.Capability(c)", "funcs[args[1]] = cpb.Capability(c)"))
keep("c19-suffix-local", (I, "			ret.cgoSuffixes = append(ret.cgoSuffixes, args[1])\n", "			suffixes = append(suffixes, args[1])\n"),
     (I, "	ret := newClassifier()\n	scanner", "	ret := newClassifier()\n	var suffixes []string\n	scanner"),
     (I, "		return nil, fmt.Errorf(\"%v:%v: %w\", source, line+1, err)\n	}\n", "		return nil, fmt.Errorf(\"%v:%v: %w\", source, line+1, err)\n	}\n	ret.cgoSuffixes = suffixes\n"))
keep("c19-one-switch", (I, """		if len(args) == 0 {
			continue
		}
		if len(args) < 2 {
			return nil, fmt.Errorf("%v:%v: invalid format", source, line)
		}
""", """		switch len(args) {
		case 0:
			continue
		case 1:
			return nil, fmt.Errorf("%v:%v: invalid format", source, line)
		}
"""))
keep("c19-struct-edge", (I, "	ignoredEdges       map[[2]string]struct{}", "	ignoredEdges       map[edgeKey]struct{}"),
     (I, "		ignoredEdges:       map[[2]string]struct{}{},", "		ignoredEdges:       map[edgeKey]struct{}{},"),
     (I, "k := [2]string{args[1], args[2]}", "k := edgeKey{args[1], args[2]}"),
     (I, "c.ignoredEdges[[2]string{caller, callee}]", "c.ignoredEdges[edgeKey{caller, callee}]"),
     (I, "var internalMap =", "type edgeKey struct{ caller, callee string }\n\nvar internalMap ="))

# --- C18
brk("c18-builtin-last", "C18", (I, "	cc(ret, internalMap)\n	cc(ret, userClassifier)\n", "	cc(ret, userClassifier)\n	cc(ret, internalMap)\n"))
brk("c18-edges-dropped", "C18", (I, "		maps.Copy(dst.ignoredEdges, src.ignoredEdges)\n", ""))
brk("c18-suffixes-dropped", "C18", (I, "		dst.cgoSuffixes = append(dst.cgoSuffixes, src.cgoSuffixes...)\n", "		if len(dst.cgoSuffixes) == 0 {\n			dst.cgoSuffixes = append(dst.cgoSuffixes, src.cgoSuffixes...)\n		}\n"))
brk("c18-unanalyzed-keeps", "C18", (I, "			delete(dst.functionCategory, name)\n", "			delete(dst.packageCategory, name)\n"))
brk("c18-into-builtin", "C18", (I, "	ret := newClassifier()\n	// Merge.", "	ret := DefaultClassifier()\n	// Merge."))
brk("c18-zero-kept", "C18", (I, "		maps.Copy(dst.functionCategory, src.functionCategory)\n", """		for k, v := range src.functionCategory {
			if v != 0 {
				dst.functionCategory[k] = v
			}
		}
"""))
brk("c18-exclude-ignored", "C18", (I, "	if excludeBuiltin {\n		return userClassifier, nil\n	}\n", "	if excludeBuiltin && len(userClassifier.packageCategory) > 0 {\n		return userClassifier, nil\n	}\n"))
brk("c18-include-callee", "C18", (I, "	callee := edge.Callee.Func.String()\n", "	callee := edge.Callee.Func.Name()\n"))
brk("c18-include-swapped", "C18", (I, "c.ignoredEdges[[2]string{caller, callee}]", "c.ignoredEdges[[2]string{callee, caller}]"))
brk("c18-flag", "C18", (C, "interesting.LoadClassifier(*customMap, f, *disableBuiltin)", "interesting.LoadClassifier(*customMap, f, *disableBuiltin && !*noiseFlag)"))
brk("c18-derive-in-place", "C18", (I, "	withoutUnanalyzed := *classifier\n", "	withoutUnanalyzed := *classifier\n	maps.DeleteFunc(classifier.packageCategory, func(_ string, c cpb.Capability) bool { return c == cpb.Capability_CAPABILITY_UNANALYZED })\n"))
brk("c18-derive-shared", "C18", (I, "	withoutUnanalyzed.packageCategory = maps.Clone(classifier.packageCategory)\n", "	withoutUnanalyzed.packageCategory = classifier.packageCategory\n"))
brk("c18-sort-builtin", "C18", (I, "		dst.cgoSuffixes = append(dst.cgoSuffixes, src.cgoSuffixes...)\n", """		if dst.cgoSuffixes == nil {
			dst.cgoSuffixes = src.cgoSuffixes
		} else {
			dst.cgoSuffixes = append(dst.cgoSuffixes, src.cgoSuffixes...)
		}
"""))
keep("c18-clone", (I, "	ret := newClassifier()\n	// Merge.", "	ret := cloneOf(internalMap)\n	// Merge."), (I, "	cc(ret, internalMap)\n", ""),
     (I, "func parseCapabilityMap(", """func cloneOf(c *Classifier) *Classifier {
	return &Classifier{
		functionCategory:   maps.Clone(c.functionCategory),
		unanalyzedCategory: maps.Clone(c.unanalyzedCategory),
		packageCategory:    maps.Clone(c.packageCategory),
		ignoredEdges:       maps.Clone(c.ignoredEdges),
		cgoSuffixes:        slices.Clone(c.cgoSuffixes),
	}
}

func parseCapabilityMap("""))
keep("c18-loops", (I, MERGE, """		for name := range src.unanalyzedCategory {
			delete(dst.functionCategory, name)
		}
		for k, v := range src.functionCategory {
			dst.functionCategory[k] = v
		}
		for k, v := range src.unanalyzedCategory {
			dst.unanalyzedCategory[k] = v
		}
		for k, v := range src.packageCategory {
			dst.packageCategory[k] = v
		}
		for k := range src.ignoredEdges {
			dst.ignoredEdges[k] = struct{}{}
		}
		for _, s := range src.cgoSuffixes {
			dst.cgoSuffixes = append(dst.cgoSuffixes, s)
		}
"""))
keep("c18-method", (I, "	cc(ret, internalMap)\n	cc(ret, userClassifier)\n", "	for _, src := range []*Classifier{internalMap, userClassifier} {\n		cc(ret, src)\n	}\n"))
keep("c18-range-two", (I, "	cc := func(dst, src *Classifier) {\n" + MERGE + "	}\n	cc(ret, internalMap)\n	cc(ret, userClassifier)\n", "	ret.merge(internalMap)\n	ret.merge(userClassifier)\n"),
     (I, "// IncludeCall returns", "func (dst *Classifier) merge(src *Classifier) {\n" + MERGE.replace("\n\t\t", "\n\t")[1:] + "}\n\n// IncludeCall returns"))
keep("c18-contains-dedupe", (I, "		dst.cgoSuffixes = append(dst.cgoSuffixes, src.cgoSuffixes...)\n", """		for _, s := range src.cgoSuffixes {
			if !slices.Contains(dst.cgoSuffixes, s) {
				dst.cgoSuffixes = append(dst.cgoSuffixes, s)
			}
		}
"""), (I, "	ret.cgoSuffixes = slices.Compact(ret.cgoSuffixes) // remove duplicates\n", ""))
keep("c18-include-return", (I, """	_, ok := c.ignoredEdges[[2]string{caller, callee}]
	return !ok
""", """	if _, ok := c.ignoredEdges[[2]string{caller, callee}]; ok {
		return false
	}
	return true
"""))
keep("c18-copy-struct", (I, "	withoutUnanalyzed := *classifier\n	withoutUnanalyzed.unanalyzedCategory = nil\n", "	withoutUnanalyzed := Classifier{ignoredEdges: classifier.ignoredEdges, cgoSuffixes: classifier.cgoSuffixes}\n"))
keep("c18-exclude-else", (I, "	if excludeBuiltin {\n		return userClassifier, nil\n	}\n	ret := newClassifier()\n", "	ret := newClassifier()\n"),
     (I, "	cc(ret, internalMap)\n	cc(ret, userClassifier)\n", "	if !excludeBuiltin {\n		cc(ret, internalMap)\n	}\n	cc(ret, userClassifier)\n"))

# --- C28
brk("c28-funcs-only", "C28", (I, "	maps.DeleteFunc(withoutUnanalyzed.packageCategory, isUnanalyzed)\n", ""))
brk("c28-table-kept", "C28", (I, "	withoutUnanalyzed.unanalyzedCategory = nil\n", ""))
brk("c28-unspecified-too", "C28", (I, "return c == cpb.Capability_CAPABILITY_UNANALYZED\n", "return c == cpb.Capability_CAPABILITY_UNANALYZED || c == cpb.Capability_CAPABILITY_UNSPECIFIED\n"))
brk("c28-edges-lost", "C28", (I, "	withoutUnanalyzed.unanalyzedCategory = nil\n", "	withoutUnanalyzed.unanalyzedCategory = nil\n	withoutUnanalyzed.ignoredEdges = nil\n"))
brk("c28-inverted", "C28", (AN, "	if excludeUnanalyzed {\n		return interesting.Class", "	if !excludeUnanalyzed {\n		return interesting.Class"))
brk("c28-disable", "C28", (C, "		if *noiseFlag {\n			classifier =", "		if *noiseFlag && !*disableBuiltin {\n			classifier ="))
keep("c28-loop", (I, "	withoutUnanalyzed.packageCategory = maps.Clone(classifier.packageCategory)\n	maps.DeleteFunc(withoutUnanalyzed.packageCategory, isUnanalyzed)\n", """	withoutUnanalyzed.packageCategory = make(map[string]cpb.Capability)
	for k, v := range classifier.packageCategory {
		if v != cpb.Capability_CAPABILITY_UNANALYZED {
			withoutUnanalyzed.packageCategory[k] = v
		}
	}
"""))
keep("c28-helper", (I, "	withoutUnanalyzed.packageCategory = maps.Clone(classifier.packageCategory)\n	maps.DeleteFunc(withoutUnanalyzed.packageCategory, isUnanalyzed)\n", "	withoutUnanalyzed.packageCategory = strip(classifier.packageCategory)\n"),
     (I, "// LoadClassifier returns", """func strip(m map[string]cpb.Capability) map[string]cpb.Capability {
	out := maps.Clone(m)
	maps.DeleteFunc(out, func(_ string, c cpb.Capability) bool { return c == cpb.Capability_CAPABILITY_UNANALYZED })
	return out
}

// LoadClassifier returns"""))
keep("c28-delete-loop", (I, "	maps.DeleteFunc(withoutUnanalyzed.packageCategory, isUnanalyzed)\n", """	for k, v := range withoutUnanalyzed.packageCategory {
		if isUnanalyzed(k, v) {
			delete(withoutUnanalyzed.packageCategory, k)
		}
	}
"""))
keep("c28-empty-table", (I, "	withoutUnanalyzed.unanalyzedCategory = nil\n", "	withoutUnanalyzed.unanalyzedCategory = map[string]cpb.Capability{}\n"))
keep("c28-noisy-after", (C, """		if *noiseFlag {
			classifier = interesting.ClassifierExcludingUnanalyzed(classifier)
		}
		log.Printf("Using custom""", """		log.Printf("Using custom"""), (C, """	} else {
		classifier = analyzer.GetClassifier(*noiseFlag)
	}
""", """	} else {
		classifier = interesting.DefaultClassifier()
	}
	if *noiseFlag {
		classifier = interesting.ClassifierExcludingUnanalyzed(classifier)
	}
"""))
keep("c28-load-helper", (C, """	var classifier *interesting.Classifier
	if *customMap != "" {
		f, err := os.Open(*customMap)
		if err != nil {
			return err
		}
		classifier, err = interesting.LoadClassifier(*customMap, f, *disableBuiltin)
		if err != nil {
			return err
		}
		if *noiseFlag {
			classifier = interesting.ClassifierExcludingUnanalyzed(classifier)
		}
		log.Printf("Using custom capability map %q", *customMap)
	} else {
		classifier = analyzer.GetClassifier(*noiseFlag)
	}
""", """	classifier, err := loadClassifier()
	if err != nil {
		return err
	}
"""), (C, "func printErrors(", """func loadClassifier() (*interesting.Classifier, error) {
	if *customMap == "" {
		return analyzer.GetClassifier(*noiseFlag), nil
	}
	f, err := os.Open(*customMap)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	classifier, err := interesting.LoadClassifier(*customMap, f, *disableBuiltin)
	if err != nil {
		return nil, err
	}
	if *noiseFlag {
		classifier = interesting.ClassifierExcludingUnanalyzed(classifier)
	}
	log.Printf("Using custom capability map %q", *customMap)
	return classifier, nil
}

func printErrors("""))

# --- C03
brk("c03-suffix-last", "C03", (I, LOOKUP, ""), (I, "	return c.packageCategory[pkg]\n", LOOKUP + "	return c.packageCategory[pkg]\n"))
brk("c03-contains", "C03", (I, "if strings.HasSuffix(name, s) {", "if strings.Contains(name, s) {"))
brk("c03-zero-entry", "C03", (I, "	if cat, ok := c.functionCategory[name]; ok {", "	if cat := c.functionCategory[name]; cat != 0 {"))
brk("c03-pkg-over-unanalyzed", "C03", (I, "	if cat, ok := c.unanalyzedCategory[name]; ok {", "	if cat, ok := c.unanalyzedCategory[name]; ok && c.packageCategory[pkg] == 0 {"))
brk("c03-std-prefix", "C03", (I, "	return c.packageCategory[pkg]\n", "	if cat, ok := c.packageCategory[pkg]; ok {\n		return cat\n	}\n	return c.packageCategory[strings.TrimPrefix(pkg, \"vendor/\")]\n"))
keep("c03-named", (I, "	if cat, ok := c.unanalyzedCategory[name]; ok {\n		return cat\n	}\n	return c.packageCategory[pkg]\n", "	if _, ok := c.unanalyzedCategory[name]; ok {\n		return cpb.Capability_CAPABILITY_UNANALYZED\n	}\n	if cat, ok := c.packageCategory[pkg]; ok {\n		return cat\n	}\n	return cpb.Capability_CAPABILITY_UNSPECIFIED\n"))
keep("c03-containsfunc", (I, LOOKUP, """	if slices.ContainsFunc(c.cgoSuffixes, func(s string) bool { return strings.HasSuffix(name, s) }) {
		return cpb.Capability_CAPABILITY_CGO
	}
"""))
keep("c03-helper", (I, LOOKUP, """	if c.isCgo(name) {
		return cpb.Capability_CAPABILITY_CGO
	}
"""), (I, "// FunctionCategory returns", """func (c *Classifier) isCgo(name string) bool {
	for _, s := range c.cgoSuffixes {
		if strings.HasSuffix(name, s) {
			return true
		}
	}
	return false
}

// FunctionCategory returns"""))
keep("c03-index-loop", (I, LOOKUP, """	for i := 0; i < len(c.cgoSuffixes); i++ {
		if strings.HasSuffix(name, c.cgoSuffixes[i]) {
			return cpb.Capability_CAPABILITY_CGO
		}
	}
"""))
