# C32: what the revision tool says about the pairs gained.
D = "cmd/capslock-git-diff/main.go"

OLD = """		if inBaseline {
			hasAnyOldUse[key.capability] = true
		}
"""
SPLIT = """	for c, n := range newUses {
		if !hasAnyOldUse[c] {
			newlyUsedCapabilities = append(newlyUsedCapabilities, c)
		} else {
			existingCapabilitiesWithNewUses = append(existingCapabilitiesWithNewUses, c)
			newUsesOfExistingCapabilities += n
		}
	}
"""
NEWHEAD = """	if n := len(newlyUsedCapabilities); n > 0 {
		if n == 1 {
			fmt.Println("\\nAdded 1 new capability:")
		} else {
			fmt.Printf("\\nAdded %d new capabilities:\\n", n)
		}
		sortAndPrintCapabilities(newlyUsedCapabilities)
	}
"""
OLDHEAD = """	if n := newUsesOfExistingCapabilities; n > 0 {
		if n == 1 {
			fmt.Println("\\nAdded 1 new use of existing capability:")
		} else {
			fmt.Printf("\\nAdded %d new uses of existing capabilities:\\n", n)
		}
		sortAndPrintCapabilities(existingCapabilitiesWithNewUses)
	}
"""
NONE = "	if len(newlyUsedCapabilities) == 0 && newUsesOfExistingCapabilities == 0 {\n"
PATH = """	for _, f := range fns {
		if f.Site != nil {
			fmt.Fprint(tw, f.Site.GetFilename(), ":", f.Site.GetLine(), ":", f.Site.GetColumn())
		}
		fmt.Fprint(tw, "\\t", f.GetName(), "\\n")
	}
	tw.Flush()
"""

brk("sum-old-always", "C32", (D, OLD, "		hasAnyOldUse[key.capability] = true\n		_ = inBaseline\n"))
brk("sum-old-current", "C32", (D, OLD, OLD.replace("inBaseline", "inCurrent")))
brk("sum-old-both", "C32", (D, OLD, OLD.replace("inBaseline", "inBaseline && inCurrent")))
brk("sum-old-after", "C32", (D, OLD, OLD.replace("inBaseline {", "inBaseline && newUses[key.capability] > 0 {")))
brk("sum-split-negated", "C32", (D, SPLIT, SPLIT.replace("!hasAnyOldUse[c]", "hasAnyOldUse[c]")))
brk("sum-split-number", "C32", (D, SPLIT, SPLIT.replace("!hasAnyOldUse[c]", "n > 1 || !hasAnyOldUse[c]")))
brk("sum-split-uses", "C32", (D, SPLIT, SPLIT.replace("!hasAnyOldUse[c]", "n == 1")))
brk("sum-count-other", "C32", (D, SPLIT, SPLIT.replace("""			newUsesOfExistingCapabilities += n
		}
""", """			newUsesOfExistingCapabilities += n - 1
		}
""")))
brk("sum-heads-swapped", "C32", (D, NEWHEAD, NEWHEAD.replace("sortAndPrintCapabilities(newly", "sortAndPrintCapabilities(existing").replace("existingUsedCapabilities", "existingCapabilitiesWithNewUses")))
brk("sum-new-many", "C32", (D, NEWHEAD, NEWHEAD.replace("n > 0", "n > 1")))
brk("sum-old-many", "C32", (D, OLDHEAD, OLDHEAD.replace("n > 0", "n > 1")))
brk("sum-old-only", "C32", (D, OLDHEAD, OLDHEAD.replace("n > 0", "n > 0 && len(newlyUsedCapabilities) == 0")))
brk("sum-one-head", "C32", (D, NEWHEAD, NEWHEAD.replace("""		sortAndPrintCapabilities(newlyUsedCapabilities)
	}
""", """	}
	sortAndPrintCapabilities(newlyUsedCapabilities)
""").replace("n == 1 {", "n == 1 && false {\n			fmt.Println()\n		} else if n == 1 {")), (D, OLDHEAD, OLDHEAD.replace("n > 0", "n >= 0")))
brk("sum-none-new-only", "C32", (D, NONE, NONE.replace(" && newUsesOfExistingCapabilities == 0", "")))
brk("sum-none-old-only", "C32", (D, NONE, NONE.replace("len(newlyUsedCapabilities) == 0 && ", "")))
brk("sum-none-or", "C32", (D, NONE, NONE.replace("&&", "||")))
brk("sum-path-baseline", "C32", (D, "				printCallPath(ci.Path)\n", "				printCallPath(baselineMap[key].GetPath())\n"))
brk("sum-path-tail", "C32", (D, "				printCallPath(ci.Path)\n", "				printCallPath(ci.Path[1:])\n"))
brk("sum-path-single", "C32", (D, """					fmt.Printf("\\n%s %s has capability %s:\\n", granularityDescription, key.key, key.capability)
				}
				printCallPath(ci.Path)
""", """					fmt.Printf("\\n%s %s has capability %s:\\n", granularityDescription, key.key, key.capability)
					printCallPath(ci.Path)
				}
"""))
brk("sum-path-stop", "C32", (D, PATH, PATH.replace("""		fmt.Fprint(tw, "\\t",""", """		if f.Site == nil && f.GetPackage() == "" {
			break
		}
		fmt.Fprint(tw, "\\t",""")))
brk("sum-path-no-site-name", "C32", (D, PATH, PATH.replace("""		}
		fmt.Fprint(tw, "\\t", f.GetName(), "\\n")
""", """			fmt.Fprint(tw, "\\t", f.GetName(), "\\n")
		}
""")))
brk("sum-path-column", "C32", (D, PATH, PATH.replace("f.Site.GetColumn()", "f.Site.GetLine()")))
brk("sum-path-noflush", "C32", (D, PATH, PATH.replace("	tw.Flush()\n", "	if len(fns) > 1 {\n		tw.Flush()\n	}\n")))
brk("sum-list-noflush", "C32", (D, """capabilityDescription[c], "\\n")
	}
	tw.Flush()
""", """capabilityDescription[c], "\\n")
	}
"""))
brk("sum-list-skips", "C32", (D, """	for _, c := range cs {
		fmt.Fprint(tw,""", """	for _, c := range cs {
		if capabilityDescription[c] == "" {
			continue
		}
		fmt.Fprint(tw,"""))

keep("sum-keep-counts", (D, OLD, OLD.replace("= true", "++")), (D, "	hasAnyOldUse := make(map[cpb.Capability]bool)\n", "	hasAnyOldUse := make(map[cpb.Capability]int)\n"),
     (D, SPLIT, SPLIT.replace("!hasAnyOldUse[c]", "hasAnyOldUse[c] == 0")))
keep("sum-keep-set", (D, OLD, OLD.replace("= true", "= struct{}{}")), (D, "	hasAnyOldUse := make(map[cpb.Capability]bool)\n", "	hasAnyOldUse := make(map[cpb.Capability]struct{})\n"),
     (D, SPLIT, SPLIT.replace("if !hasAnyOldUse[c] {", "if _, ok := hasAnyOldUse[c]; !ok {")))
keep("sum-keep-baseline-range", (D, OLD, ""), (D, "	newUses := make(map[cpb.Capability]int)\n", """	newUses := make(map[cpb.Capability]int)
	for k := range baselineMap {
		hasAnyOldUse[k.capability] = true
	}
"""))
keep("sum-keep-helper", (D, "func summarizeNewCapabilities(", """// capabilitiesOf returns the set of capabilities in m.
func capabilitiesOf(m capabilitiesMap) map[cpb.Capability]bool {
	out := make(map[cpb.Capability]bool)
	for k := range m {
		out[k.capability] = true
	}
	return out
}

func summarizeNewCapabilities("""), (D, OLD, ""), (D, "	hasAnyOldUse := make(map[cpb.Capability]bool)\n", "	hasAnyOldUse := capabilitiesOf(baselineMap)\n"))
keep("sum-keep-continue", (D, SPLIT, """	for c, n := range newUses {
		if hasAnyOldUse[c] {
			newUsesOfExistingCapabilities += n
			existingCapabilitiesWithNewUses = append(existingCapabilitiesWithNewUses, c)
			continue
		}
		newlyUsedCapabilities = append(newlyUsedCapabilities, c)
	}
"""))
keep("sum-keep-two-loops", (D, SPLIT, """	for c := range newUses {
		if !hasAnyOldUse[c] {
			newlyUsedCapabilities = append(newlyUsedCapabilities, c)
		}
	}
	for c, n := range newUses {
		if hasAnyOldUse[c] {
			existingCapabilitiesWithNewUses = append(existingCapabilitiesWithNewUses, c)
			newUsesOfExistingCapabilities += n
		}
	}
"""))
keep("sum-keep-len", (D, OLDHEAD, OLDHEAD.replace("if n := newUsesOfExistingCapabilities; n > 0 {", "if n := newUsesOfExistingCapabilities; len(existingCapabilitiesWithNewUses) != 0 {")),
     (D, NONE, NONE.replace("newUsesOfExistingCapabilities == 0", "len(existingCapabilitiesWithNewUses) == 0")))
keep("sum-keep-head-helper", (D, NEWHEAD, """	if n := len(newlyUsedCapabilities); n > 0 {
		heading(n, "new capability", "new capabilities")
		sortAndPrintCapabilities(newlyUsedCapabilities)
	}
"""), (D, OLDHEAD, """	if n := newUsesOfExistingCapabilities; n > 0 {
		heading(n, "new use of existing capability", "new uses of existing capabilities")
		sortAndPrintCapabilities(existingCapabilitiesWithNewUses)
	}
"""), (D, "func summarizeNewCapabilities(", """func heading(n int, one, many string) {
	what := many
	if n == 1 {
		what = one
	}
	fmt.Printf("\\nAdded %d %s:\\n", n, what)
}

func summarizeNewCapabilities("""))
keep("sum-keep-section", (D, NEWHEAD, """	section(newlyUsedCapabilities, len(newlyUsedCapabilities), "new capability", "new capabilities")
"""), (D, OLDHEAD, """	section(existingCapabilitiesWithNewUses, newUsesOfExistingCapabilities, "new use of existing capability", "new uses of existing capabilities")
"""), (D, "func summarizeNewCapabilities(", """func section(cs []cpb.Capability, n int, one, many string) {
	if n == 0 {
		return
	}
	fmt.Println()
	if n == 1 {
		fmt.Println("Added 1 " + one + ":")
	} else {
		fmt.Printf("Added %d %s:\\n", n, many)
	}
	sortAndPrintCapabilities(cs)
}

func summarizeNewCapabilities("""))
keep("sum-keep-none-early", (D, NONE, """	if len(newlyUsedCapabilities) > 0 || newUsesOfExistingCapabilities > 0 {
		return newlyUsedCapabilities, existingCapabilitiesWithNewUses
	}
	{
"""))
keep("sum-keep-none-text", (D, NONE, """	if len(newUses) == 0 {
"""))
keep("sum-keep-path-ci", (D, "				printCallPath(ci.Path)\n", "				printCallPath(currentMap[key].GetPath())\n"))
keep("sum-keep-path-index", (D, PATH, """	for i := range fns {
		f := fns[i]
		if site := f.GetSite(); site != nil {
			fmt.Fprintf(tw, "%s:%d:%d", site.GetFilename(), site.GetLine(), site.GetColumn())
		}
		fmt.Fprintf(tw, "\\t%s\\n", f.GetName())
	}
	tw.Flush()
"""))
keep("sum-keep-path-string", (D, PATH, """	for _, f := range fns {
		site := ""
		if s := f.Site; s != nil {
			site = fmt.Sprintf("%s:%d:%d", s.GetFilename(), s.GetLine(), s.GetColumn())
		}
		fmt.Fprintln(tw, site+"\\t"+f.GetName())
	}
	tw.Flush()
"""))
keep("sum-keep-path-defer", (D, PATH, PATH.replace("	tw.Flush()\n", "").replace("	for _, f := range fns {", "	defer tw.Flush()\n	for _, f := range fns {")))
keep("sum-keep-list-line", (D, """		fmt.Fprint(tw, "\\t", cpb.Capability_name[int32(c)], ":\\t", capabilityDescription[c], "\\n")
""", """		fmt.Fprintf(tw, "\\t%s:\\t%s\\n", c.String(), capabilityDescription[c])
"""))
