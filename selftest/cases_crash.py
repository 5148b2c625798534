A = "analyzer/analyzer.go"
U = "analyzer/util.go"
R = "analyzer/rewrite.go"
L = "analyzer/load.go"
G = "analyzer/graph.go"
M = "analyzer/compare.go"
I = "interesting/interesting.go"
K = "cmd/capslock/capslock.go"

SEED = """			// Skipping cases where v.Func.Package() doesn't exist.
			if v.Func.Package() == nil {
				continue
			}
			if _, ok := queriedPackages[v.Func.Package().Pkg]; ok {
"""
CALLER = """				if w.Func.Package() != nil {
					if _, ok := queriedPackages[w.Func.Package().Pkg]; ok {
						fn(cap, visited, w)
					}
				}
"""
CATEGORY = """		if v.Func == nil {
			continue
		}
		var c cpb.Capability
"""
ORIGIN = "			if origin == nil || origin.Package() == nil || origin.Package().Pkg == nil {\n"
MATCHED = """	if named.Obj().Pkg() == nil {
		// Not in a package.
		return nil
	}
	if pkg := named.Obj().Pkg().Path(); pkg != m.pkg {
"""
SIGNATURE = """					if !ok {
						// The argument does not appear to be a function.
						return true
					}
"""
FORMAT = """			if len(args) < 3 {
				return nil, fmt.Errorf("%v:%v: invalid %v format", source, line, args[0])
			}
			if _, ok := ret.functionCategory[args[1]]; ok {
"""

# ---- no change in behaviour ----
keep("nil-package-var", (A, SEED, """			// Skipping cases where v.Func.Package() doesn't exist.
			pkg := v.Func.Package()
			if pkg == nil {
				continue
			}
			if _, ok := queriedPackages[pkg.Pkg]; ok {
"""))
keep("nil-package-field", (A, SEED, SEED.replace("Func.Package() == nil", "Func.Pkg == nil").replace("Func.Package().Pkg", "Func.Pkg.Pkg")))
keep("nil-package-and", (A, CALLER, """				if p := w.Func.Package(); p != nil {
					if _, ok := queriedPackages[p.Pkg]; !ok {
						continue
					}
					fn(cap, visited, w)
				}
"""))
keep("nil-package-helper", (A, CALLER, """				if isQueried(w, queriedPackages) {
					fn(cap, visited, w)
				}
"""), (A, "// intermediatePackages returns a CapabilityInfo for", """func isQueried(v *callgraph.Node, queried map[*types.Package]struct{}) bool {
	p := v.Func.Package()
	if p == nil {
		return false
	}
	_, ok := queried[p.Pkg]
	return ok
}

// intermediatePackages returns a CapabilityInfo for"""))
keep("nil-node-key", (A, """	for _, v := range graph.Nodes {
		if v.Func == nil {
			continue
		}
		var c cpb.Capability
""", """	for fn, v := range graph.Nodes {
		if fn == nil {
			continue
		}
		var c cpb.Capability
"""))
keep("nil-first-flag", (A, """			i := 0
			c := cpb.CapabilityInfo{}
""", """			i := 0
			first := true
			c := cpb.CapabilityInfo{}
"""), (A, """				if i == 0 {
					n = v.Func.Package().Pkg.Path()
					ctype = cpb.CapabilityType_CAPABILITY_TYPE_DIRECT
""", """				if first {
					first = false
					n = v.Func.Package().Pkg.Path()
					ctype = cpb.CapabilityType_CAPABILITY_TYPE_DIRECT
"""))
keep("nil-type-assert-if", (U, """	named, ok := types.Unalias(calleeType).(*types.Named)
	if !ok {
		return nil
	}
	if named.Obj().Pkg() == nil {
		// Not in a package.
		return nil
	}
	if pkg := named.Obj().Pkg().Path(); pkg != m.pkg {
""", """	named, _ := types.Unalias(calleeType).(*types.Named)
	if named == nil {
		return nil
	}
	obj := named.Obj()
	if obj.Pkg() == nil || obj.Pkg().Path() != m.pkg {
"""))
keep("nil-enough-fields", (I, FORMAT, FORMAT.replace("len(args) < 3", "!(len(args) >= 3)")))
keep("nil-site-getters", (M, """		if f.Site != nil {
			fmt.Fprint(tw, f.Site.GetFilename(), ":", f.Site.GetLine(), ":", f.Site.GetColumn())
		}
""", """		if site := f.GetSite(); site != nil {
			fmt.Fprint(tw, site.GetFilename(), ":", site.GetLine(), ":", site.GetColumn())
		}
"""))

# ---- broken ----
brk("nil-seed-package", "C31", (A, SEED, SEED.split("\n", 4)[4]))
brk("nil-caller-package", "C31", (A, CALLER, """				if _, ok := queriedPackages[w.Func.Package().Pkg]; ok {
					fn(cap, visited, w)
				}
"""))
brk("nil-root", "C31", (A, CATEGORY, "		var c cpb.Capability\n"))
brk("nil-origin", "C31", (A, ORIGIN, "			if origin.Package() == nil || origin.Package().Pkg == nil {\n"))
brk("nil-origin-package", "C31", (A, ORIGIN, "			if origin == nil || origin.Package().Pkg == nil {\n"))
brk("nil-matched-package", "C31", (U, MATCHED, "	if pkg := named.Obj().Pkg().Path(); pkg != m.pkg {\n"))
brk("nil-named", "C31", (U, """	named, ok := types.Unalias(calleeType).(*types.Named)
	if !ok {
		return nil
	}
	if named.Obj()""", """	named, _ := types.Unalias(calleeType).(*types.Named)
	if named.Obj()"""))
brk("nil-named-must", "C31", (U, """	named, ok := types.Unalias(calleeType).(*types.Named)
	if !ok {
		return nil
	}
	if named.Obj()""", """	named := types.Unalias(calleeType).(*types.Named)
	if named.Obj()"""))
brk("nil-object-package", "C31", (U, """		if typesPackage := obj.Pkg(); typesPackage != nil {
			return typesPackage.Path()
		}
	}
	return ""
""", """		return obj.Pkg().Path()
	}
	return ""
"""))
brk("nil-receiver-package", "C31", (U, """			if pkg := n.Obj().Pkg(); pkg != nil {
				return pkg
			}
		}
		return nil
	}
	// Ordinary""", """			if pkg := n.Obj().Pkg(); pkg.Path() != "" {
				return pkg
			}
		}
		return nil
	}
	// Ordinary"""))
brk("nil-signature", "C31", (R, "fnType, ok := types.Unalias(p.TypesInfo.TypeOf(obj))", "fnType, _ := types.Unalias(p.TypesInfo.TypeOf(obj))"), (R, SIGNATURE, ""))
brk("nil-selection", "C31", (R, """	if selection == nil {
		// We did not find the desired method for this type.  recv might be an
		// untyped nil.
		return nil
	}
""", ""))
brk("nil-module", "C31", (L, """if m == nil || m.Path == "" ||""", """if m.Path == "" ||"""))
brk("nil-arg-type", "C31", (U, """		if argType == nil {
			// The argument has no type information.
			break
		}
""", ""))
brk("nil-too-few-fields", "C31", (I, FORMAT, FORMAT.replace("len(args) < 3", "len(args) < 2")))
brk("nil-wrapper-label", "C31", (A, """				if i == 0 {
					n = v.Func.Package().Pkg.Path()
				}
				i++
				if pName := packagePath(v.Func); n != pName && !isStdLib(pName) {
					isDirect = false
				}
""", """				if i == 0 {
					n = v.Func.Package().Pkg.Path()
				}
				i++
				if pName := v.Func.Package().Pkg.Path(); n != pName && !isStdLib(pName) {
					isDirect = false
				}
"""))
brk("nil-site", "C31", (M, """		if f.Site != nil {
			fmt.Fprint(tw, f.Site.GetFilename(), ":", f.Site.GetLine(), ":", f.Site.GetColumn())
		}
""", """		fmt.Fprint(tw, *f.Site.Filename, ":", f.Site.GetLine(), ":", f.Site.GetColumn())
"""))
brk("nil-baseline-field", "C31", (M, """			mk.key = ci.GetPackageDir()
			m[mk] = ci
""", """			mk.key = *ci.PackageDir
			m[mk] = ci
"""))
brk("nil-no-path", "C31", (M, """			if len(ci.Path) == 0 {
				break
			}
			mk.key""", """			mk.key"""))
