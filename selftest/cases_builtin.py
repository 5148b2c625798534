CM = "interesting/interesting.cm"
I = "interesting/interesting.go"
brk("c24-deleted", "C24", (CM, "func os.ReadFile CAPABILITY_FILES\n", ""))
brk("c24-safe", "C24", (CM, "func os.ReadFile CAPABILITY_FILES\n", "func os.ReadFile CAPABILITY_SAFE\n"))
brk("c24-override", "C24", (CM, "func os.ReadFile CAPABILITY_FILES\n", "func os.ReadFile CAPABILITY_FILES\nfunc (*net/http.Client).Get CAPABILITY_SAFE\n"))
brk("c24-unspecified", "C24", (CM, "func os.ReadFile CAPABILITY_FILES\n", "func os.ReadFile CAPABILITY_FILES\nfunc (*os/exec.Cmd).Start CAPABILITY_UNSPECIFIED\n"))
brk("c24-typo", "C24", (CM, "func (*os.File).Truncate CAPABILITY_FILES\n", "func (os.File).Truncate CAPABILITY_FILES\n"))
brk("c24-package", "C24", (CM, "package os/signal CAPABILITY_MODIFY_SYSTEM_STATE\n", ""))
brk("c24-package-safe", "C24", (CM, "package os/signal CAPABILITY_MODIFY_SYSTEM_STATE\n", "package os/signal CAPABILITY_MODIFY_SYSTEM_STATE\npackage net/smtp CAPABILITY_SAFE\n"))
brk("c24-word", "C24", (CM, "func os.ReadFile CAPABILITY_FILES\n", "func os.ReadFile CAPABILITY_FILE\n"))
brk("c24-comment", "C24", (CM, "func os.ReadFile CAPABILITY_FILES\n", "#func os.ReadFile CAPABILITY_FILES\n"))
brk("c24-cgo", "C24", (CM, "cgo_suffix _cgo_runtime_cgocall\n", ""))
brk("c24-unanalyzed", "C24", (CM, "func os.ReadFile CAPABILITY_FILES\n", "unanalyzed os.ReadFile\n"))
brk("c24-lookup", "C24 C03", (I, """	if cat, ok := c.functionCategory[name]; ok {
""", """	if cat, ok := c.functionCategory[name]; ok && c.packageCategory[pkg] == 0 {
"""))
keep("builtin-comment", (CM, "func os.ReadFile CAPABILITY_FILES\n", "func os.ReadFile   CAPABILITY_FILES # reads a file\n\n"))
keep("builtin-order", (CM, "func os.ReadFile CAPABILITY_FILES\n", ""), (CM, "package os/signal CAPABILITY_MODIFY_SYSTEM_STATE\n", "package os/signal CAPABILITY_MODIFY_SYSTEM_STATE\nfunc os.ReadFile CAPABILITY_FILES\n"))
