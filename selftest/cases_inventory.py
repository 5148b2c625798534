L = "analyzer/load.go"
A = "analyzer/analyzer.go"
SEEN = """		if _, ok := pathToModule[m.Path]; ok {
			// We've seen this module.
			return
		}
"""
TAIL = """	// Sort by path.
	var modulePaths []string
	for path := range pathToModule {
		modulePaths = append(modulePaths, path)
	}
	sort.Strings(modulePaths)
	// Construct the output slice.
	var modules []*cpb.ModuleInfo
	for _, path := range modulePaths {
		modules = append(modules, pathToModule[path])
	}
	return modules
"""
COND = '		if m == nil || m.Path == "" || m.Version == "" {'
PM = """		pm := new(cpb.ModuleInfo)
		pm.Path = proto.String(m.Path)
		pm.Version = proto.String(m.Version)
		pathToModule[m.Path] = pm
"""
PI = """		pi := new(cpb.PackageInfo)
		pi.Path = proto.String(pkg.PkgPath)
		for _, i := range pkg.IgnoredFiles {
			pi.IgnoredFiles = append(pi.IgnoredFiles, path.Base(i))
		}
		out = append(out, pi)
"""
PSORT = """	sort.Slice(out, func(i, j int) bool {
		return out[i].GetPath() < out[j].GetPath()
	})
"""
STD = """		if _, ok := std[pkg.PkgPath]; ok {
			// Skip this package since it is part of the Go standard library.
			return
		}
"""
IMP = '	"sort"\n'
keep("inv-no-seen", (L, SEEN, ""))
keep("inv-literal", (L, PM, "		pathToModule[m.Path] = &cpb.ModuleInfo{Path: &m.Path, Version: proto.String(m.Version)}\n"))
keep("inv-literal-2", (L, PM, "		pathToModule[m.Path] = &cpb.ModuleInfo{Path: proto.String(m.Path), Version: proto.String(m.Version)}\n"))
keep("inv-slice-sorted", (L, TAIL, """	var modules []*cpb.ModuleInfo
	for _, m := range pathToModule {
		modules = append(modules, m)
	}
	sort.Slice(modules, func(i, j int) bool { return modules[i].GetPath() < modules[j].GetPath() })
	return modules
"""))
keep("inv-sortfunc", (L, TAIL, """	modules := make([]*cpb.ModuleInfo, 0, len(pathToModule))
	for _, m := range pathToModule {
		modules = append(modules, m)
	}
	slices.SortFunc(modules, func(a, b *cpb.ModuleInfo) int { return strings.Compare(a.GetPath(), b.GetPath()) })
	return modules
"""), (L, IMP, '	"slices"\n	"sort"\n	"strings"\n'))
keep("inv-sorted-keys", (L, TAIL, """	var modules []*cpb.ModuleInfo
	for _, path := range slices.Sorted(maps.Keys(pathToModule)) {
		modules = append(modules, pathToModule[path])
	}
	return modules
"""), (L, IMP, '	"maps"\n	"slices"\n	"sort"\n'))
keep("inv-made", (L, """	var modules []*cpb.ModuleInfo
	for _, path := range modulePaths {
		modules = append(modules, pathToModule[path])
	}
""", """	modules := make([]*cpb.ModuleInfo, len(modulePaths))
	for i, path := range modulePaths {
		modules[i] = pathToModule[path]
	}
"""))
keep("inv-seen-list", (L, "	pathToModule := make(map[string]*cpb.ModuleInfo)\n", "	seen := make(map[string]bool)\n	var modules []*cpb.ModuleInfo\n"),
     (L, SEEN, "		if seen[m.Path] {\n			return\n		}\n		seen[m.Path] = true\n"), (L, "		pathToModule[m.Path] = pm\n", "		modules = append(modules, pm)\n"),
     (L, TAIL, "	sort.Slice(modules, func(i, j int) bool { return *modules[i].Path < *modules[j].Path })\n	return modules\n"))
keep("inv-nested-if", (L, COND, '		if m != nil && m.Path != "" && m.Version != "" {\n			_ = m\n		} else {'))
keep("inv-helper", (L, COND, "		if !hasVersion(m) {"), (L, "func collectModuleInfo(", """func hasVersion(m *packages.Module) bool {
	return m != nil && m.Path != "" && m.Version != ""
}

func collectModuleInfo("""))
keep("inv-visit", (L, "	forEachPackageIncludingDependencies(pkgs, func(pkg *packages.Package) {\n		m := pkg.Module\n", "	packages.Visit(pkgs, nil, func(pkg *packages.Package) {\n		m := pkg.Module\n"))
keep("inv-pkg-helper", (L, PI, "		out = append(out, describe(pkg))\n"), (L, "func collectPackageInfo(", """func describe(pkg *packages.Package) *cpb.PackageInfo {
	pi := &cpb.PackageInfo{Path: proto.String(pkg.PkgPath)}
	for _, i := range pkg.IgnoredFiles {
		pi.IgnoredFiles = append(pi.IgnoredFiles, path.Base(i))
	}
	return pi
}

func collectPackageInfo("""))
keep("inv-pkg-files-first", (L, PI, """		var ignored []string
		for _, i := range pkg.IgnoredFiles {
			ignored = append(ignored, path.Base(i))
		}
		out = append(out, &cpb.PackageInfo{Path: proto.String(pkg.PkgPath), IgnoredFiles: ignored})
"""))
keep("inv-pkg-if", (L, STD + PI, "		if _, ok := std[pkg.PkgPath]; !ok {\n" + PI + "		}\n"))
keep("inv-pkg-sortfunc", (L, PSORT, "	slices.SortFunc(out, func(a, b *cpb.PackageInfo) int { return strings.Compare(a.GetPath(), b.GetPath()) })\n"), (L, IMP, '	"slices"\n	"sort"\n	"strings"\n'), (L, "sort.Strings(modulePaths)", "sort.Strings(modulePaths) // by path"))
keep("inv-std-config", (L, 'packages.Load(nil, "std")', 'packages.Load(&packages.Config{Mode: packages.NeedName}, "std")'))
keep("inv-list-later", (A, """	cil := &cpb.CapabilityInfoList{
		CapabilityInfo: make([]*cpb.CapabilityInfo, len(caps)),
		ModuleInfo:     collectModuleInfo(pkgs),
		PackageInfo:    collectPackageInfo(pkgs),
	}
""", """	cil := &cpb.CapabilityInfoList{CapabilityInfo: make([]*cpb.CapabilityInfo, len(caps))}
	cil.ModuleInfo = collectModuleInfo(pkgs)
	cil.PackageInfo = collectPackageInfo(pkgs)
"""))
brk("inv-module-main", "C26", (L, COND, '		if m == nil || m.Path == "" || m.Version == "" || m.Main {'))
brk("inv-module-indirect", "C26", (L, COND, '		if m == nil || m.Path == "" || m.Version == "" || m.Indirect {'))
brk("inv-module-versionless", "C26", (L, COND, '		if m == nil || m.Path == "" {'))
brk("inv-module-replace", "C26", (L, "		m := pkg.Module\n", "		m := pkg.Module\n		if m != nil && m.Replace != nil {\n			m = m.Replace\n		}\n"))
brk("inv-module-goversion", "C26", (L, "proto.String(m.Version)", "proto.String(m.GoVersion)"))
brk("inv-module-direct", "C26", (L, """	forEachPackageIncludingDependencies(pkgs, func(pkg *packages.Package) {
		m := pkg.Module
""", """	each := func(fn func(pkg *packages.Package)) {
		for _, p := range pkgs {
			fn(p)
			for _, q := range p.Imports {
				fn(q)
			}
		}
	}
	each(func(pkg *packages.Package) {
		m := pkg.Module
"""))
brk("inv-module-unsorted", "C26", (L, "	sort.Strings(modulePaths)\n", "	_ = sort.Strings\n"))
brk("inv-module-dup", "C26", (L, "	pathToModule := make(map[string]*cpb.ModuleInfo)\n", "	var modules []*cpb.ModuleInfo\n"),
    (L, SEEN, ""), (L, "		pathToModule[m.Path] = pm\n", "		modules = append(modules, pm)\n"),
    (L, TAIL, "	sort.Slice(modules, func(i, j int) bool { return *modules[i].Path < *modules[j].Path })\n	return modules\n"))
brk("inv-module-seen-early", "C26", (L, COND, '		if m == nil {\n			return\n		}\n		if _, ok := pathToModule[m.Path]; ok {\n			return\n		}\n		pathToModule[m.Path] = nil\n		if m.Path == "" || m.Version == "" {'), (L, SEEN, ""))
brk("inv-module-counts", "C26", (A, """		CapabilityCounts: cm,
		ModuleInfo:       collectModuleInfo(pkgs),
""", "		CapabilityCounts: cm,\n"))
brk("inv-pkg-intermediate", "C26", (A, """		CapabilityInfo: cis,
		ModuleInfo:     collectModuleInfo(pkgs),
		PackageInfo:    collectPackageInfo(pkgs),
""", "		CapabilityInfo: cis,\n		ModuleInfo:     collectModuleInfo(pkgs),\n"))
brk("inv-pkg-some", "C26", (A, """		ModuleInfo:     collectModuleInfo(pkgs),
		PackageInfo:    collectPackageInfo(pkgs),
	}
	for i := range caps {""", """		ModuleInfo:     collectModuleInfo(pkgs),
	}
	if !config.OmitPaths {
		cil.PackageInfo = collectPackageInfo(pkgs)
	}
	for i := range caps {"""))
brk("inv-pkg-nofiles", "C26", (L, "		out = append(out, pi)\n", "		if len(pkg.GoFiles) > 0 {\n			out = append(out, pi)\n		}\n"))
brk("inv-pkg-onlyignored", "C26", (L, PI, PI.replace("range pkg.IgnoredFiles {", "range pkg.IgnoredFiles {\n			if !strings.HasSuffix(i, \".go\") {\n				continue\n			}")), (L, IMP, IMP + '	"strings"\n'))
brk("inv-pkg-other", "C26", (L, "range pkg.IgnoredFiles", "range pkg.OtherFiles"))
brk("inv-pkg-name", "C26", (L, "proto.String(pkg.PkgPath)", "proto.String(pkg.ID)"))
brk("inv-pkg-order", "C26", (L, "out[i].GetPath() < out[j].GetPath()", "len(out[i].GetPath()) < len(out[j].GetPath())"))
brk("inv-pkg-order-desc", "C26", (L, "out[i].GetPath() < out[j].GetPath()", "out[i].GetPath() > out[j].GetPath()"))
brk("inv-pkg-first-file", "C26", (L, "			pi.IgnoredFiles = append(pi.IgnoredFiles, path.Base(i))\n", "			pi.IgnoredFiles = append(pi.IgnoredFiles, path.Base(i))\n			break\n"))
brk("inv-pkg-std-imports", "C26", (L, '		for _, p := range pkgs {\n			standardLibraryPackagesMap[p.PkgPath]', '		for _, p := range pkgs[1:] {\n			standardLibraryPackagesMap[p.PkgPath]'))
