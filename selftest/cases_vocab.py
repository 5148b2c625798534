G = "cmd/capslock-git-diff/main.go"
PB = "proto/capability.pb.go"
PR = "proto/capability.proto"
DOC = "docs/capabilities.md"
TABLE = """	capabilityDescription := map[cpb.Capability]string{
		2:  "Access to the file system",
		3:  "Access to the network",
		4:  "Read or modify settings in the Go runtime",
		5:  "Read system information, e.g. environment variables",
		6:  "Modify system information, e.g. environment variables",
		7:  `Call miscellaneous functions in the "os" package `,
		8:  "Make system calls",
		9:  "Invoke arbitrary code, e.g. assembly or go:linkname",
		10: "Call cgo functions",
		11: "Code that Capslock cannot effectively analyze",
		12: "Uses unsafe.Pointer",
		13: "Uses reflect",
		14: "Execute other programs, usually via os/exec",
	}
"""
ROWS = TABLE.split("\n")[1:-2]
NAMED = """	capabilityDescription := map[cpb.Capability]string{
		cpb.Capability_CAPABILITY_FILES:  "Access to the file system",
		cpb.Capability_CAPABILITY_NETWORK:  "Access to the network",
		cpb.Capability_CAPABILITY_RUNTIME:  "Read or modify settings in the Go runtime",
""" + "\n".join(ROWS[3:]) + "\n\t}\n"
SIG = "func sortAndPrintCapabilities(cs []cpb.Capability) {\n"
LINE = """		fmt.Fprint(tw, "\\t", cpb.Capability_name[int32(c)], ":\\t", capabilityDescription[c], "\\n")
"""
keep("vocab-named", (G, TABLE, NAMED))
keep("vocab-global", (G, TABLE, ""), (G, SIG, "var " + TABLE.strip().replace(":=", "=") + "\n\n" + SIG))
keep("vocab-switch", (G, TABLE, ""), (G, LINE, LINE.replace("capabilityDescription[c]", "describe(c)")),
     (G, SIG, "func describe(c cpb.Capability) string {\n\tswitch c {\n" +
      "".join("\tcase %s:\n\t\treturn %s\n" % tuple(x.strip() for x in r.rstrip(",").split(":", 1)) for r in ROWS) + "\t}\n\treturn \"\"\n}\n\n" + SIG))
keep("vocab-fprintf", (G, LINE, """		desc := capabilityDescription[c]
		fmt.Fprintf(tw, "\\t%s:\\t%s\\n", c, desc)
"""))
keep("vocab-fprintf-string", (G, LINE, """		desc := capabilityDescription[c]
		fmt.Fprintf(tw, "\\t%s:\\t%s\\n", c.String(), desc)
"""))
keep("vocab-helper", (G, LINE, """		describeTo(tw, c, capabilityDescription)
"""), (G, SIG, """func describeTo(w *tabwriter.Writer, c cpb.Capability, m map[cpb.Capability]string) {
	desc, ok := m[c]
	if !ok {
		desc = ""
	}
	fmt.Fprint(w, "\\t", cpb.Capability_name[int32(c)], ":\\t", desc, "\\n")
}

""" + SIG))
brk("c27-desc-missing", "C27", (G, """		13: "Uses reflect",
""", ""))
brk("c27-desc-empty", "C27", (G, """		13: "Uses reflect",
""", """		13: "",
"""))
brk("c27-desc-shift", "C27", (G, """		12: "Uses unsafe.Pointer",
		13: "Uses reflect",
""", """		13: "Uses unsafe.Pointer",
		12: "Uses reflect",
"""))
brk("c27-desc-index", "C27", (G, "capabilityDescription[c], ", "capabilityDescription[c-1], "))
brk("c27-desc-name", "C27", (G, "cpb.Capability_name[int32(c)]", "cpb.Capability_name[int32(c)+1]"))
brk("c27-pb-name", "C27", (PB, """		13: "CAPABILITY_REFLECT",
""", """		13: "CAPABILITY_REFLECTION",
"""))
brk("c27-pb-value", "C27", (PB, """		"CAPABILITY_REFLECT":             13,
		"CAPABILITY_EXEC":                14,
""", """		"CAPABILITY_REFLECT":             13,
		"CAPABILITY_EXEC":                13,
"""))
brk("c27-pb-const", "C27", (PB, "Capability_CAPABILITY_UNSAFE_POINTER      Capability = 12", "Capability_CAPABILITY_UNSAFE_POINTER      Capability = 13"),
    (PB, "Capability_CAPABILITY_REFLECT             Capability = 13", "Capability_CAPABILITY_REFLECT             Capability = 12"))
brk("c27-proto-number", "C27", (PR, "CAPABILITY_EXEC = 14", "CAPABILITY_EXEC = 15"))
brk("c27-proto-dup", "C27", (PR, "CAPABILITY_EXEC = 14", "CAPABILITY_EXEC = 13"))
brk("c27-proto-field", "C27", (PR, "optional string version = 2;", "optional string version = 3;"))
brk("c27-doc", "C27", (DOC, "### CAPABILITY_CGO\n", "### CAPABILITY_C\n"))
brk("c27-doc-gone", "C27", (DOC, """### CAPABILITY_REFLECT

Represents the use of reflection via the
[reflect](https://pkg.go.dev/reflect) package.
""", ""))
brk("c27-doc-swap", "C27", (DOC, "### CAPABILITY_READ_SYSTEM_STATE", "### CAPABILITY_X"), (DOC, "### CAPABILITY_MODIFY_SYSTEM_STATE", "### CAPABILITY_READ_SYSTEM_STATE"), (DOC, "### CAPABILITY_X", "### CAPABILITY_MODIFY_SYSTEM_STATE"))
brk("c27-color", "C27", ("analyzer/scan.go", '"CAPABILITY_CGO", "CAPABILITY_UNSAFE_POINTER"', '"CAPABILITY_CGO", "CAPABILITY_UNSAFE_POINTERS"'))
