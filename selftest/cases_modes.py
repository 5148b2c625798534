S = "analyzer/scan.go"
G = "analyzer/graph.go"
K = "cmd/capslock/capslock.go"
DT = "analyzer/static/default.tmpl"
VT = "analyzer/static/verbose.tmpl"

JSON = """		cil := GetCapabilityInfo(pkgs, queriedPackages, config)
		b, err := protojson.MarshalOptions{Multiline: true, Indent: "\\t"}.Marshal(cil)
		if err != nil {
			return fmt.Errorf("internal error: couldn't marshal protocol buffer: %s", err.Error())
		}
		_, err = fmt.Println(string(b))
		return err
"""
MACH = """		var cs []string
		cil := GetCapabilityCounts(pkgs, queriedPackages, config)
		for c := range cil.CapabilityCounts {
			cs = append(cs, c)
		}
		sort.Strings(cs)
		for _, c := range cs {
			if _, err := fmt.Println(c); err != nil {
				return err
			}
		}
		return nil
"""
VERB = """		cil := GetCapabilityStats(pkgs, queriedPackages, config)
		ctm := template.Must(template.New("verbose.tmpl").Funcs(templateFuncMap).ParseFS(staticContent, "static/verbose.tmpl"))
		return ctm.Execute(os.Stdout, cil)
"""
DEFL = """	cil := GetCapabilityCounts(pkgs, queriedPackages, config)
	ctm := template.Must(template.New("default.tmpl").Funcs(templateFuncMap).ParseFS(staticContent, "static/default.tmpl"))
	return ctm.Execute(os.Stdout, cil)
"""
STRAY = """	} else if len(args) >= 1 {
		return fmt.Errorf("%s: unknown command", args)
	}
"""
LASTFMT = "func templateFormat("

# ---- no change in behaviour ----
keep("mode-switch", (S, """	if output == "json" || output == "j" {
""", """	switch output {
	case "json", "j":
"""), (S, """	} else if output == "m" || output == "machine" {
""", """	case "m", "machine":
"""), (S, """	} else if output == "v" || output == "verbose" {
""", """	case "v", "verbose":
"""), (S, """	} else if output == "g" || output == "graph" {
""", """	case "g", "graph":
"""))
keep("mode-render-helper", (S, VERB, """		return render("verbose.tmpl", GetCapabilityStats(pkgs, queriedPackages, config))
"""), (S, DEFL, """	return render("default.tmpl", GetCapabilityCounts(pkgs, queriedPackages, config))
"""), (S, """	templateFuncMap := template.FuncMap{
		"format": templateFormat,
	}
""", ""), (S, LASTFMT, """// render prints a report with one of the embedded templates.
func render(name string, report any) error {
	funcs := template.FuncMap{"format": templateFormat}
	t, err := template.New(name).Funcs(funcs).ParseFS(staticContent, "static/"+name)
	if err != nil {
		return err
	}
	return t.Execute(os.Stdout, report)
}

func templateFormat("""))
keep("mode-json-helper", (S, JSON, """		return printJSON(GetCapabilityInfo(pkgs, queriedPackages, config))
"""), (S, LASTFMT, """func printJSON(cil *cpb.CapabilityInfoList) error {
	opts := protojson.MarshalOptions{
		Multiline: true,
		Indent:    "\\t",
	}
	b, err := opts.Marshal(cil)
	if err != nil {
		return fmt.Errorf("internal error: couldn't marshal protocol buffer: %s", err.Error())
	}
	if _, err := os.Stdout.Write(append(b, '\\n')); err != nil {
		return err
	}
	return nil
}

func templateFormat("""), (S, """	"google.golang.org/protobuf/encoding/protojson"
""", """	cpb "github.com/google/capslock/proto"
	"google.golang.org/protobuf/encoding/protojson"
"""))
keep("mode-json-fprintf", (S, "		_, err = fmt.Println(string(b))\n		return err\n", "		_, err = fmt.Fprintf(os.Stdout, \"%s\\n\", b)\n		return err\n"))
keep("mode-machine-sorted", (S, MACH, """		cil := GetCapabilityCounts(pkgs, queriedPackages, config)
		for _, c := range slices.Sorted(maps.Keys(cil.GetCapabilityCounts())) {
			if _, err := fmt.Fprintln(os.Stdout, c); err != nil {
				return err
			}
		}
		return nil
"""), (S, """	"sort"
""", """	"maps"
	"slices"
"""))
keep("mode-machine-buffer", (S, MACH, """		cil := GetCapabilityCounts(pkgs, queriedPackages, config)
		names := make([]string, 0, len(cil.CapabilityCounts))
		for name := range cil.CapabilityCounts {
			names = append(names, name)
		}
		sort.Strings(names)
		w := bufio.NewWriter(os.Stdout)
		for _, name := range names {
			w.WriteString(name)
			w.WriteByte('\\n')
		}
		return w.Flush()
"""), (S, """	"embed"
""", """	"bufio"
	"embed"
"""))
keep("mode-machine-helper", (S, MACH, """		return printNames(GetCapabilityCounts(pkgs, queriedPackages, config).CapabilityCounts)
"""), (S, LASTFMT, """func printNames(counts map[string]int64) error {
	var cs []string
	for c := range counts {
		cs = append(cs, c)
	}
	sort.Strings(cs)
	for i := range cs {
		if _, err := fmt.Println(cs[i]); err != nil {
			return err
		}
	}
	return nil
}

func templateFormat("""))
keep("mode-args-first", (S, STRAY, "	}\n	if len(args) != 0 {\n		return fmt.Errorf(\"%s: unknown command\", args)\n	}\n"))
keep("mode-args-helper", (S, STRAY, "	}\n	if err := noArguments(args); err != nil {\n		return err\n	}\n"), (S, LASTFMT, """func noArguments(args []string) error {
	if len(args) == 0 {
		return nil
	}
	return fmt.Errorf("%s: unknown command", args)
}

func templateFormat("""))
keep("mode-copy-config", (S, "		cil := GetCapabilityInfo(pkgs, queriedPackages, config)\n", "		cfg := *config\n		cil := GetCapabilityInfo(pkgs, queriedPackages, &cfg)\n"))
keep("mode-render-buffer", (S, DEFL, """	cil := GetCapabilityCounts(pkgs, queriedPackages, config)
	ctm := template.Must(template.New("default.tmpl").Funcs(templateFuncMap).ParseFS(staticContent, "static/default.tmpl"))
	var buf strings.Builder
	if err := ctm.Execute(&buf, cil); err != nil {
		return err
	}
	_, err := fmt.Print(buf.String())
	return err
"""))
keep("mode-template-dot", (DT, "{{range $p, $index := .CapabilityCounts}}", "{{range $name, $n := $.CapabilityCounts}}"),
     (DT, "{{format \"capability\" $p}}{{$p}}{{format}}: {{$index}} references", "{{format \"capability\" $name}}{{$name}}{{format}}: {{printf \"%d\" $n}} references"))
keep("mode-template-with", (VT, "{{if $val.Site}}{{$val.Site.Filename}}:{{$val.Site.Line}}:{{$val.Site.Column}}:{{end}}", "{{with $val.Site}}{{.Filename}}:{{.Line}}:{{.Column}}:{{end}}"))
keep("mode-options-var", (K, "	err = analyzer.RunCapslock(flag.Args(), *output, pkgs,", "	args, mode := flag.Args(), *output\n	err = analyzer.RunCapslock(args, mode, pkgs,"))
keep("mode-error-var", (S, DEFL, """	cil := GetCapabilityCounts(pkgs, queriedPackages, config)
	ctm, err := template.New("default.tmpl").Funcs(templateFuncMap).ParseFS(staticContent, "static/default.tmpl")
	if err != nil {
		return fmt.Errorf("internal error: %w", err)
	}
	if err = ctm.Execute(os.Stdout, cil); err != nil {
		return fmt.Errorf("writing report: %w", err)
	}
	return nil
"""))

# ---- broken ----
brk("mode-j-missing", "C23", (S, """output == "json" || output == "j" {""", """output == "json" {"""))
brk("mode-verbose-missing", "C23", (S, """output == "v" || output == "verbose" {""", """output == "v" {"""))
brk("mode-graph-name", "C23", (S, """output == "g" || output == "graph" {""", """output == "g" || output == "dot" {"""))
brk("mode-m-stats", "C23", (S, """output == "m" || output == "machine" {""", """output == "machine" {"""))
brk("mode-stray-one", "C23", (S, "len(args) >= 1 {", "len(args) > 1 {"))
brk("mode-stray-json", "C23", (S, "len(args) >= 1 {", "len(args) >= 1 && output != \"json\" {"))
brk("mode-compare-two", "C23", (S, "		if len(args) != 1 {", "		if len(args) < 1 {"))
brk("mode-machine-skip", "C23", (S, """		for _, c := range cs {
			if _, err""", """		for _, c := range cs {
			if c == "CAPABILITY_SAFE" {
				continue
			}
			if _, err"""))
brk("mode-machine-zero", "C23", (S, """		for c := range cil.CapabilityCounts {
			cs""", """		for c, n := range cil.CapabilityCounts {
			if n < 2 {
				continue
			}
			cs"""))
brk("mode-machine-short", "C23", (S, "			if _, err := fmt.Println(c); err != nil {", "			if _, err := fmt.Println(strings.TrimPrefix(c, \"CAPABILITY_\")); err != nil {"))
brk("mode-machine-first", "C23", (S, "		for _, c := range cs {", "		for _, c := range cs[:min(len(cs), 20)] {"))
brk("mode-machine-error", "C23 C15", (S, """			if _, err := fmt.Println(c); err != nil {
				return err
			}
""", """			fmt.Println(c)
"""))
brk("mode-json-error", "C23 C15", (S, "		_, err = fmt.Println(string(b))\n		return err\n", "		fmt.Println(string(b))\n		return nil\n"))
brk("mode-json-write-error", "C23 C15", (S, "		_, err = fmt.Println(string(b))\n		return err\n", "		if _, err := fmt.Println(string(b)); err != nil && !os.IsPermission(err) {\n			fmt.Fprintln(os.Stderr, err)\n		}\n		return nil\n"))
brk("mode-verbose-error", "C23 C15", (S, VERB, VERB.replace("		return ctm.Execute(os.Stdout, cil)", "		ctm.Execute(os.Stdout, cil)\n		return nil")))
brk("mode-default-error", "C23 C15", (S, DEFL, DEFL.replace("	return ctm.Execute(os.Stdout, cil)", "	if err := ctm.Execute(os.Stdout, cil); err != nil {\n		fmt.Fprintln(os.Stderr, err)\n	}\n	return nil")))
brk("mode-flush-deferred", "C23", (G, "	gb.Done()\n	return w.Flush()\n", "	defer w.Flush()\n	gb.Done()\n	return nil\n"))
brk("mode-flush-missing", "C23", (G, "	gb.Done()\n	return w.Flush()\n", "	gb.Done()\n	return nil\n"))
brk("mode-flush-lost", "C23 C15", (G, "	gb.Done()\n	return w.Flush()\n", "	gb.Done()\n	w.Flush()\n	return nil\n"))
brk("mode-machine-buffer-lost", "C23", (S, MACH, """		cil := GetCapabilityCounts(pkgs, queriedPackages, config)
		names := make([]string, 0, len(cil.CapabilityCounts))
		for name := range cil.CapabilityCounts {
			names = append(names, name)
		}
		sort.Strings(names)
		w := bufio.NewWriter(os.Stdout)
		defer w.Flush()
		for _, name := range names {
			w.WriteString(name)
			w.WriteByte('\\n')
		}
		return nil
"""), (S, """	"embed"
""", """	"bufio"
	"embed"
"""))
brk("mode-json-trim", "C23", (S, "		b, err := protojson.", "		cil.PackageInfo = nil\n		b, err := protojson."))
brk("mode-default-delete", "C23", (S, DEFL, DEFL.replace("	ctm :=", "	delete(cil.CapabilityCounts, \"CAPABILITY_SAFE\")\n	ctm :=")))
brk("mode-default-trim-list", "C23", (S, VERB, VERB.replace("		ctm :=", "		if len(cil.CapabilityStats) > 10 {\n			cil.CapabilityStats = cil.CapabilityStats[:10]\n		}\n		ctm :=")))
brk("mode-omit-paths", "C23", (S, VERB, "		config.OmitPaths = true\n" + VERB))
brk("mode-granularity", "C23", (S, JSON, "		if config.Granularity == GranularityUnset {\n			config.Granularity = GranularityFunction\n		}\n" + JSON))
brk("mode-template-name", "C23", (S, 'template.New("verbose.tmpl")', 'template.New("verbose")'))
brk("mode-template-file", "C23", (S, 'ParseFS(staticContent, "static/verbose.tmpl")', 'ParseFS(staticContent, "static/long.tmpl")'))
brk("mode-template-mixed", "C23", (S, 'template.New("verbose.tmpl").Funcs(templateFuncMap).ParseFS(staticContent, "static/verbose.tmpl")', 'template.New("default.tmpl").Funcs(templateFuncMap).ParseFS(staticContent, "static/default.tmpl")'))
brk("mode-template-func", "C23", (S, '		"format": templateFormat,', '		"colour": templateFormat,'))
brk("mode-embed", "C23", (S, "//go:embed static/*\n", "//go:embed static/default.tmpl\n"))
brk("mode-stderr", "C23", (S, DEFL, DEFL.replace("os.Stdout", "os.Stderr")))
brk("mode-format-text", "C23", (S, "	return w.String()\n}", "	if format == \"capability\" {\n		w.WriteString(\"* \")\n	}\n	return w.String()\n}"))
brk("mode-enum-numbers", "C23", (S, '{Multiline: true, Indent: "\\t"}', '{Multiline: true, Indent: "\\t", UseEnumNumbers: true}'))
brk("mode-t-cond", "C23", (VT, "{{$p.Count}} references ({{$p.DirectCount}} direct, {{$p.TransitiveCount}} transitive)", "{{$p.Count}} references{{if $p.DirectCount}} ({{$p.DirectCount}} direct, {{$p.TransitiveCount}} transitive){{end}}"))
brk("mode-t-swap", "C23", (VT, "({{$p.DirectCount}} direct, {{$p.TransitiveCount}} transitive)", "({{$p.TransitiveCount}} direct, {{$p.DirectCount}} transitive)"))
brk("mode-t-missing", "C23", (VT, ":{{$val.Site.Column}}:", ":"))
brk("mode-t-first", "C23", (VT, "{{range $val := $p.ExampleCallpath}}", "{{range $val := slice $p.ExampleCallpath 0 1}}"))
brk("mode-t-skip", "C23", (DT, "{{range $p, $index := .CapabilityCounts}}", "{{range $p, $index := .CapabilityCounts}}{{if eq $p \"CAPABILITY_SAFE\"}}{{continue}}{{end}}"))
brk("mode-t-nocap", "C23", (DT, "{{else}}{{format \"nocap\"}}", "{{end}}{{if not .ModuleInfo}}{{format \"nocap\"}}"))
brk("mode-options-const", "C23", (K, "analyzer.RunCapslock(flag.Args(), *output, pkgs,", "analyzer.RunCapslock(nil, *output, pkgs,"))
brk("mode-options-lower", "C23", (K, "analyzer.RunCapslock(flag.Args(), *output, pkgs,", "analyzer.RunCapslock(flag.Args()[min(1, flag.NArg()):], *output, pkgs,"))
