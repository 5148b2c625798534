A = "analyzer/compare.go"
G = "cmd/capslock-git-diff/main.go"

brk("c13-lost-ignored", "C13", (A, "if inBaseline && !inCurrent {", "if inBaseline && !inCurrent && different {"))
brk("c13-keys-base-only", "C13", (A, """	for k := range currentMap {
		if _, ok := baselineMap[k]; !ok {
			keys = append(keys, k)
		}
	}
""", ""))
brk("c13-not-different", "C13", (A, """			different = true
			fmt.Printf("Package %s no longer""", """			fmt.Printf("Package %s no longer"""))
brk("c13-func-name", "C13", (A, "mk.key = ci.Path[0].GetName()", "mk.key = ci.Path[0].GetPackage()"))
brk("c13-func-last", "C13", (A, "mk.key = ci.Path[0].GetName()", "mk.key = ci.Path[len(ci.Path)-1].GetName()"))
brk("c13-default-function", "C13", (A, """	if config.Granularity == GranularityUnset {
		config.Granularity = GranularityPackage
	}
	compareData""", """	if config.Granularity == GranularityUnset {
		config.Granularity = GranularityFunction
	}
	compareData"""))
brk("c13-swapped", "C13", (A, "return diffCapabilityInfoLists(baseline, cil, config.Granularity), nil", "return diffCapabilityInfoLists(cil, baseline, config.Granularity), nil"))
brk("c13-unmarshal-lenient", "C13", (A, """	if err != nil {
		return false, fmt.Errorf("Comparison file should include output from running `%s -output=j`. Error from parsing""", """	if err != nil && len(baseline.CapabilityInfo) == 0 {
		return false, fmt.Errorf("Comparison file should include output from running `%s -output=j`. Error from parsing"""))
brk("c13-break", "C13", (A, """			printCallPath(ciCurrent.Path)
		}
""", """			printCallPath(ciCurrent.Path)
			if len(ciCurrent.Path) == 0 {
				break
			}
		}
"""))
brk("c13-intermediate-own", "C13", (A, """			for _, f := range ci.Path {
				mk.key = f.GetPackage()
				if mk.key != "" {
					m[mk] = ci
				}
			}
""", """			for _, f := range ci.Path[1:] {
				mk.key = f.GetPackage()
				if mk.key != "" {
					m[mk] = ci
				}
			}
"""))
brk("c13-omit-empty-path", "C13", (A, """		mk := mapKey{capability: ci.GetCapability()}
""", """		if len(ci.Path) == 0 {
			continue
		}
		mk := mapKey{capability: ci.GetCapability()}
"""))
brk("c13-result", "C13", ("analyzer/scan.go", """		if different {
			return Diff""", """		if different && config.CapabilitySet == nil {
			return Diff"""))
keep("c13-if-else", (A, """		if inBaseline && !inCurrent {
			if different {""", """		if inCurrent || !inBaseline {
			continue
		} else {
			if different {"""))
keep("c13-helper", (A, """	for _, key := range keys {
		ciBaseline, inBaseline := baselineMap[key]
		ciCurrent, inCurrent := currentMap[key]
		if !inBaseline && inCurrent {
			if different {
				fmt.Println()
			}
			different = true
			fmt.Printf("Package %s has new capability %s compared to the baseline.\\n",
				key.key, key.capability)
			printCallPath(ciCurrent.Path)
		}
		if inBaseline && !inCurrent {
			if different {
				fmt.Println()
			}
			different = true
			fmt.Printf("Package %s no longer has capability %s which was in the baseline.\\n",
				key.key, key.capability)
			printCallPath(ciBaseline.Path)
		}
	}
	return different
}
""", """	report := func(format string, key mapKey, ci *cpb.CapabilityInfo) {
		if different {
			fmt.Println()
		}
		different = true
		fmt.Printf(format, key.key, key.capability)
		printCallPath(ci.Path)
	}
	for _, key := range keys {
		ciBaseline, inBaseline := baselineMap[key]
		ciCurrent, inCurrent := currentMap[key]
		switch {
		case !inBaseline && inCurrent:
			report("Package %s has new capability %s compared to the baseline.\\n", key, ciCurrent)
		case inBaseline && !inCurrent:
			report("Package %s no longer has capability %s which was in the baseline.\\n", key, ciBaseline)
		}
	}
	return different
}
"""))
keep("c13-nil-lookups", (A, """		ciBaseline, inBaseline := baselineMap[key]
		ciCurrent, inCurrent := currentMap[key]
""", """		ciBaseline, ciCurrent := baselineMap[key], currentMap[key]
		inBaseline, inCurrent := ciBaseline != nil, ciCurrent != nil
"""))
keep("c13-keys-helper", (A, """	var keys []mapKey
	for k := range baselineMap {
		keys = append(keys, k)
	}
	for k := range currentMap {
		if _, ok := baselineMap[k]; !ok {
			keys = append(keys, k)
		}
	}
	sort.Slice""", """	keys := unionOfKeys(baselineMap, currentMap)
	sort.Slice"""), (A, """func diffCapabilityInfoLists(""", """func unionOfKeys(a, b capabilitiesMap) []mapKey {
	all := make(map[mapKey]struct{}, len(a)+len(b))
	for k := range a {
		all[k] = struct{}{}
	}
	for k := range b {
		all[k] = struct{}{}
	}
	keys := make([]mapKey, 0, len(all))
	for k := range all {
		keys = append(keys, k)
	}
	return keys
}

func diffCapabilityInfoLists("""))
keep("c13-key-fn", (A, """		mk := mapKey{capability: ci.GetCapability()}
		// The calculation of mk.key depends on the desired granularity.
		switch g {
		case GranularityPackage:
			mk.key = ci.GetPackageDir()
			m[mk] = ci
		case GranularityFunction:
			if len(ci.Path) == 0 {
				break
			}
			mk.key = ci.Path[0].GetName()
			if mk.key != "" {
				m[mk] = ci
			}
""", """		mk := mapKey{capability: ci.GetCapability()}
		add := func(name string) {
			if name != "" {
				mk.key = name
				m[mk] = ci
			}
		}
		// The calculation of mk.key depends on the desired granularity.
		switch g {
		case GranularityPackage:
			add(ci.GetPackageDir())
		case GranularityFunction:
			if len(ci.Path) > 0 {
				add(ci.Path[0].GetName())
			}
"""))
keep("c13-latch-slice", (A, """	for _, key := range keys {
		ciBaseline, inBaseline""", """	for i := 0; i < len(keys); i++ {
		key := keys[i]
		ciBaseline, inBaseline"""))
keep("c13-inline-compare", ("analyzer/scan.go", """		different, err := compare(args[0], pkgs, queriedPackages, config)
		if err != nil {
			return err
		}
		if different {
			return DifferenceFoundError{}
		}
		return nil
""", """		different, err := compare(args[0], pkgs, queriedPackages, config)
		switch {
		case err != nil:
			return err
		case !different:
			return nil
		}
		return DifferenceFoundError{}
"""))
brk("c14-both-dirs", "C14", (G, "if !inBaseline && inCurrent {\n					pending", "if inBaseline != inCurrent {\n					pending"))
brk("c14-swapped", "C14", (G, "different := diffCapabilityInfoLists(cil1, cil2, revisions, pkgname)", "different := diffCapabilityInfoLists(cil2, cil1, revisions, pkgname)"))
brk("c14-same-rev", "C14", (G, "cil2, err := AnalyzeAtRevision(revisions[1], pkgname)", "cil2, err := AnalyzeAtRevision(revisions[0], pkgname)"))
brk("c14-pkgname", "C14", (G, '"-packages=" + pkgname,', '"-packages=./...",'))
brk("c14-dot", "C14", (G, 'if rev == "." {', 'if rev == "." || rev == "HEAD" {'))
brk("c14-no-checkout", "C14", (G, """	if err = run(nil, "git", "checkout", rev, "--"); err != nil {
		return nil, err
	}
""", """	if rev != "HEAD" && len(prefix) == 0 {
		if err = run(nil, "git", "checkout", rev, "--"); err != nil {
			return nil, err
		}
	}
"""))
brk("c14-function-key", "C14", (G, "key = ci.Path[0].GetName()", "key = ci.Path[0].GetPackage()"))
brk("c14-granularity", "C14", (G, '"-granularity=" + *granularity,', '"-granularity=package",'))
brk("c14-no-reset", "C14", (G, """	vlog("git directory: %q", gitdir)
	b.Reset()
""", """	vlog("git directory: %q", gitdir)
"""))
brk("c14-cover-unprinted", "C14", (G, """		if pending[key] {
			covered = append(covered, key)
			pending[key] = false
		}
""", """		if pending[key] && p.Site != nil {
			covered = append(covered, key)
		}
		pending[key] = false
"""))
brk("c14-only-existing", "C14", (G, "for _, list := range [][]cpb.Capability{newlyUsedCapabilities, existingCapabilitiesWithNewUses} {", "for _, list := range [][]cpb.Capability{newlyUsedCapabilities, nil} {\n\t\t_ = existingCapabilitiesWithNewUses"))
brk("c14-default-pkg", "C14", (G, 'pkgname = "./..."', 'pkgname = "."'))
brk("c14-old-use-dropped", "C14", (G, """		} else {
			existingCapabilitiesWithNewUses = append(existingCapabilitiesWithNewUses, c)
			newUses""", """		} else if n > 1 {
			existingCapabilitiesWithNewUses = append(existingCapabilitiesWithNewUses, c)
			newUses"""))
keep("c14-exit-helper", (G, """	cil1, err := AnalyzeAtRevision(revisions[0], pkgname)
	if err != nil {
		log.Print(err)
		os.Exit(2)
	}
	cil2, err := AnalyzeAtRevision(revisions[1], pkgname)
	if err != nil {
		log.Print(err)
		os.Exit(2)
	}
""", """	analyze := func(rev string) *cpb.CapabilityInfoList {
		cil, err := AnalyzeAtRevision(rev, pkgname)
		if err != nil {
			log.Print(err)
			os.Exit(2)
		}
		return cil
	}
	cil1 := analyze(revisions[0])
	cil2 := analyze(revisions[1])
"""))
keep("c14-switch-args", (G, """	if len(a) == 2 {
		// By default, use the current directory and its subdirectories.
		pkgname = "./..."
	} else if len(a) == 3 {
		pkgname = a[2]
	} else {
		fmt.Fprintf(os.Stderr, "wrong number of arguments: %q\\n\\n", a)
		usage()
	}
""", """	switch len(a) {
	case 2:
		// By default, use the current directory and its subdirectories.
		pkgname = "./..."
	case 3:
		pkgname = a[2]
	default:
		fmt.Fprintf(os.Stderr, "wrong number of arguments: %q\\n\\n", a)
		usage()
	}
"""))
keep("c14-git-helper", (G, """	var b bytes.Buffer
	if err = run(&b, "git", "rev-parse", "--git-dir"); err != nil {
		return nil, err
	}
	gitdir := strings.TrimSuffix(b.String(), "\\n")
	vlog("git directory: %q", gitdir)
	b.Reset()
	// Get the relative directory within the git repository.
	if err = run(&b, "git", "rev-parse", "--show-prefix"); err != nil {
		return nil, err
	}
	prefix := strings.TrimSuffix(b.String(), "\\n")
	vlog("current path in repository: %q", prefix)
	b.Reset()
""", """	gitdir, err := revParse("--git-dir")
	if err != nil {
		return nil, err
	}
	vlog("git directory: %q", gitdir)
	// Get the relative directory within the git repository.
	prefix, err := revParse("--show-prefix")
	if err != nil {
		return nil, err
	}
	vlog("current path in repository: %q", prefix)
"""), (G, """func callCapslock(""", """// revParse returns the output of git rev-parse.
func revParse(option string) (string, error) {
	var b bytes.Buffer
	if err := run(&b, "git", "rev-parse", option); err != nil {
		return "", err
	}
	return strings.TrimSuffix(b.String(), "\\n"), nil
}

func callCapslock("""))
keep("c14-key-helper", (G, """		var key string
		switch granularity {
		case "package", "intermediate":
			key = ci.GetPackageDir()
		case "function", "":
			if len(ci.Path) == 0 {
				continue
			}
			key = ci.Path[0].GetName()
		default:
			panic("unknown granularity " + granularity)
		}
		if key == "" {
			continue
		}
		m[mapKey{capability: ci.GetCapability(), key: key}] = ci
""", """		if key := keyFor(ci, granularity); key != "" {
			m[mapKey{capability: ci.GetCapability(), key: key}] = ci
		}
"""), (G, """func cover(""", """// keyFor returns the name ci is listed under.
func keyFor(ci *cpb.CapabilityInfo, granularity string) string {
	switch granularity {
	case "package", "intermediate":
		return ci.GetPackageDir()
	case "function", "":
		if len(ci.Path) != 0 {
			return ci.Path[0].GetName()
		}
		return ""
	}
	panic("unknown granularity " + granularity)
}

func cover("""))
keep("c14-is-new", (G, """				_, inBaseline := baselineMap[key]
				_, inCurrent := currentMap[key]
				if !inBaseline && inCurrent {
					pending[key.key] = true
					different = true
				}
""", """				if _, inBaseline := baselineMap[key]; inBaseline {
					continue
				}
				if _, inCurrent := currentMap[key]; inCurrent {
					pending[key.key] = true
					different = true
				}
"""))
keep("c14-two-loops", (G, """	for _, list := range [][]cpb.Capability{newlyUsedCapabilities, existingCapabilitiesWithNewUses} {
		for _, c := range list {
""", """	lists := [][]cpb.Capability{newlyUsedCapabilities, existingCapabilitiesWithNewUses}
	for i := range lists {
		for _, c := range lists[i] {
"""))
keep("c14-concat", (G, """	for _, list := range [][]cpb.Capability{newlyUsedCapabilities, existingCapabilitiesWithNewUses} {
		for _, c := range list {
""", """	all := append(slices.Clone(newlyUsedCapabilities), existingCapabilitiesWithNewUses...)
	{
		for _, c := range all {
"""))
