U = "analyzer/util.go"
R = "analyzer/rewrite.go"
src = open("/repo/analyzer/util.go").read()
SE = src[src.index("func mayHaveSideEffects("):src.index("func (m *methodMatcher) match(")]
TABLE = src[src.index("var functionsToRewrite = "):src.index("type matcher interface")]
ARGLOOP = src[src.index("	for i, arg := range call.Args {"):src.index("	return call.Args[m.functionTypedParameterIndex]\n}\n\n// mayHave")]
src = open("/repo/analyzer/rewrite.go").read()
THREE = src[src.index("					s1 := statementCallingMethod"):src.index("					return true\n				}\n				astutil.Apply")]
FIND = src[src.index("	for _, m := range functionsToRewrite {"):src.index("// statementCallingMethod constructs")]
POS = src[src.index("					canRewrite := false\n"):src.index("					obj := isCallToSort(")]

keep("rw-inspect", (U, SE, """func mayHaveSideEffects(e ast.Expr) bool {
	found := false
	if e == nil {
		return false
	}
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			found = true
		}
		return !found
	})
	return found
}

"""))
keep("rw-index-loop", (R, FIND, FIND.replace("for _, m := range functionsToRewrite {\n", "for i := 0; i < len(functionsToRewrite); i++ {\n		m := functionsToRewrite[i]\n")))
keep("rw-found", (R, FIND, """	var found ast.Expr
	for _, m := range functionsToRewrite {
		if found = m.match(typeInfo, call); found != nil {
			break
		}
	}
	return found
}

"""))
keep("rw-helper-args", (U, ARGLOOP, """	if discardsCalls(call.Args, m.functionTypedParameterIndex) {
		return nil
	}
"""), (U, "func mayHaveSideEffects(", """func discardsCalls(args []ast.Expr, keep int) bool {
	for i, arg := range args {
		if i == keep {
			continue
		}
		if mayHaveSideEffects(arg) {
			return true
		}
	}
	return false
}

func mayHaveSideEffects("""))
keep("rw-flag", (U, ARGLOOP, """	ok = true
	for i, arg := range call.Args {
		if i != m.functionTypedParameterIndex {
			ok = ok && !mayHaveSideEffects(arg)
		}
	}
	if !ok {
		return nil
	}
"""))
keep("rw-flag2", (U, ARGLOOP, """	discarded := false
	for i := range call.Args {
		if i != m.functionTypedParameterIndex && mayHaveSideEffects(call.Args[i]) {
			discarded = true
		}
	}
	if discarded {
		return nil
	}
"""))
keep("rw-if-chain", (U, SE, SE.replace("	case *ast.CallExpr:\n		return true\n", "").replace("	switch e := e.(type) {", "	if _, ok := e.(*ast.CallExpr); ok {\n		return true\n	}\n	switch e := e.(type) {")))
keep("rw-any", (U, SE, SE.replace("""		for _, elt := range e.Elts {
			if mayHaveSideEffects(elt) {
				return true
			}
		}
		return false
""", "		return anyMayHaveSideEffects(e.Elts)\n").replace("mayHaveSideEffects(e.X) ||\n			mayHaveSideEffects(e.Low) ||\n			mayHaveSideEffects(e.High) ||\n			mayHaveSideEffects(e.Max)", "anyMayHaveSideEffects([]ast.Expr{e.X, e.Low, e.High, e.Max})")
 + """func anyMayHaveSideEffects(es []ast.Expr) bool {
	for _, e := range es {
		if mayHaveSideEffects(e) {
			return true
		}
	}
	return false
}

"""))
keep("rw-merged-kinds", (U, SE, SE.replace("	case *ast.CallExpr:\n		return true\n", "").replace("	case *ast.Ident, *ast.BasicLit:\n		return false\n	case nil:\n		return false // we can reach a nil via *ast.SliceExpr\n	case *ast.FuncLit:\n		return false", "	case nil, *ast.Ident, *ast.BasicLit, *ast.FuncLit:\n		return false")))
keep("rw-struct-table", (U, TABLE, """var functionsToRewrite = []struct {
	pkg, function string
	index         int
}{
	{"sort", "Slice", 1},
	{"sort", "SliceStable", 1},
}

"""), (R, FIND, """	for _, m := range functionsToRewrite {
		pm := packageFunctionMatcher{m.pkg, m.function, m.index}
		if e := pm.match(typeInfo, call); e != nil {
			return e
		}
	}
	return (&methodMatcher{"sync", "Once", "Do", 0}).match(typeInfo, call)
}

"""))
keep("rw-methods-loop", (R, THREE, """					var list []ast.Stmt
					for _, name := range []string{"Less", "Swap", "Len"} {
						var args []ast.Expr
						if name != "Len" {
							args = args1
						}
						st := statementCallingMethod(p.TypesInfo, obj, name, args)
						if st == nil {
							return true
						}
						list = append(list, st)
					}
					_ = args2
					c.Replace(&ast.BlockStmt{List: list})
"""))
keep("rw-appended", (R, THREE, THREE.replace("c.Replace(&ast.BlockStmt{List: []ast.Stmt{s1, s2, s3}})", "block := &ast.BlockStmt{}\n					block.List = append(block.List, s1)\n					block.List = append(block.List, s2, s3)\n					c.Replace(block)")))
keep("rw-len-first", (R, THREE, THREE.replace("{s1, s2, s3}", "{s3, s1, s2}")))
keep("rw-name-switch", (R, """	if name := callee.Sel.Name; name != "Sort" && name != "Stable" && name != "IsSorted" {
		// This isn't one of the functions we're looking for.
		return nil
	}
	if len(call.Args) != 1 {
		// The function call doesn't have one argument.
		return nil
	}
	return call.Args[0]
""", """	switch callee.Sel.Name {
	case "Sort", "Stable", "IsSorted":
		if len(call.Args) == 1 {
			return call.Args[0]
		}
	}
	return nil
"""))
keep("rw-name-map", (R, """	if name := callee.Sel.Name; name != "Sort" && name != "Stable" && name != "IsSorted" {
""", """	if !map[string]bool{"Sort": true, "Stable": true, "IsSorted": true}[callee.Sel.Name] {
"""))
keep("rw-anywhere", (R, POS, ""))
keep("rw-position-helper", (R, POS, "					if !replaceable(c) {\n						return true\n					}\n"), (R, "func isCallToSort(", """func replaceable(c *astutil.Cursor) bool {
	switch c.Parent().(type) {
	case *ast.BlockStmt, *ast.CaseClause, *ast.LabeledStmt:
		return true
	case *ast.CommClause:
		return c.Index() >= 0
	}
	return false
}

func isCallToSort("""))
keep("rw-call-helper", (R, """	expr, ok := node.(*ast.ExprStmt)
	if !ok {
		// Not a statement node.
		return nil
	}
	call, ok := expr.X.(*ast.CallExpr)
	if !ok {
		// Not a call expression.
		return nil
	}
""", """	call := calledBy(node)
	if call == nil {
		return nil
	}
"""), (R, "func isCallToSort(", """func calledBy(node ast.Node) *ast.CallExpr {
	if expr, ok := node.(*ast.ExprStmt); ok {
		if call, ok := expr.X.(*ast.CallExpr); ok {
			return call
		}
	}
	return nil
}

func isCallToSort("""))
keep("rw-unparen", (R, "	call, ok := expr.X.(*ast.CallExpr)\n	if !ok {\n		// Not a call expression.", "	call, ok := ast.Unparen(expr.X).(*ast.CallExpr)\n	if !ok {\n		// Not a call expression."))
keep("rw-both", (R, """					obj := isCallToOnceDoEtc(p.TypesInfo, c.Node())
					if obj == nil {
						// This was not a call to a relevant function or method.
						return true
					}
					fnType, ok""", """					var obj ast.Expr
					if obj = isCallToOnceDoEtc(p.TypesInfo, c.Node()); obj == nil {
						return true
					}
					fnType, ok"""))
keep("rw-receiver-later", (U, """	if mayHaveSideEffects(sel.X) {
		// The expression may be something like foo().Do(bar), which we can't
		// rewrite to a call to bar because then the analysis would not see the
		// call to foo.
		return nil
	}
	calleeType""", "	calleeType"), (U, "		// The method call doesn't have enough arguments.\n		return nil\n	}\n", "		// The method call doesn't have enough arguments.\n		return nil\n	}\n	if mayHaveSideEffects(sel.X) {\n		return nil\n	}\n"))
keep("rw-search", (U, """		functionName:                "SliceStable",
		functionTypedParameterIndex: 1,
	},
""", """		functionName:                "SliceStable",
		functionTypedParameterIndex: 1,
	},
	&packageFunctionMatcher{
		pkg:                         "sort",
		functionName:                "SliceIsSorted",
		functionTypedParameterIndex: 1,
	},
"""))

for i, (old, new) in enumerate([
    ("mayHaveSideEffects(e.X) || mayHaveSideEffects(e.Index)", "mayHaveSideEffects(e.X)"),
    (" ||\n			mayHaveSideEffects(e.Max)", ""),
    ("mayHaveSideEffects(e.Key) || mayHaveSideEffects(e.Value)", "mayHaveSideEffects(e.Value)"),
    ("	case *ast.CallExpr:\n		return true\n", "	case *ast.CallExpr:\n		_, ok := e.Fun.(*ast.Ident)\n		return !ok\n"),
    ("	case *ast.CallExpr:\n		return true\n", "	case *ast.CallExpr:\n		return len(e.Args) > 0\n"),
    ("	case *ast.Ident, *ast.BasicLit:", "	case *ast.Ident, *ast.BasicLit, *ast.UnaryExpr:"),
    ("	case *ast.TypeAssertExpr:\n		return mayHaveSideEffects(e.X)\n", "	case *ast.TypeAssertExpr:\n		return false\n"),
    ("			if mayHaveSideEffects(elt) {\n				return true\n			}\n", "			if _, ok := elt.(*ast.CallExpr); ok {\n				return true\n			}\n"),
    ("			if mayHaveSideEffects(elt) {\n				return true\n			}\n", "			return mayHaveSideEffects(elt)\n"),
    ("mayHaveSideEffects(e.X) || mayHaveSideEffects(e.Y)", "mayHaveSideEffects(e.X) && mayHaveSideEffects(e.Y)"),
    ("	case *ast.KeyValueExpr:\n		return mayHaveSideEffects(e.Key) || mayHaveSideEffects(e.Value)\n	}\n	return true\n", "	}\n	return false\n"),
    ("	case *ast.SelectorExpr:\n		return mayHaveSideEffects(e.X)\n", "	case *ast.SelectorExpr:\n		return false\n"),
]):
    body = SE.replace(old, new)
    if i == 5:
        body = body.replace("	case *ast.UnaryExpr:\n		return mayHaveSideEffects(e.X)\n", "")
    brk("rw-test-%d" % i, "C08", (U, SE, body))
brk("rw-no-receiver-test", "C08", (U, "	if mayHaveSideEffects(sel.X) {", "	if sel.X == nil {"))
brk("rw-args-after", "C08", (U, "if i != m.functionTypedParameterIndex && mayHaveSideEffects(arg)", "if i > m.functionTypedParameterIndex && mayHaveSideEffects(arg)"))
brk("rw-args-none", "C08", (U, ARGLOOP, ""))
brk("rw-first-arg-only", "C08", (U, "	return call.Args[m.functionTypedParameterIndex]\n}\n\n// mayHave", "	return call.Args[0]\n}\n\n// mayHave"))
brk("rw-any-package", "C08", (U, "	if pkgName.Imported().Path() != m.pkg {", "	if pkgName.Imported().Name() != m.pkg {"))
brk("rw-import-name", "C08", (R, "	if pkgName.Imported().Path() != \"sort\" {", "	if pkgName.Name() != \"sort\" {"))
brk("rw-any-type", "C08", (U, "	if named.Obj().Name() != m.typeName {", "	if m.typeName == \"\" {"))
brk("rw-any-type-package", "C08", (U, "	if pkg := named.Obj().Pkg().Path(); pkg != m.pkg {", "	if pkg := named.Obj().Pkg().Name(); pkg != m.pkg {"))
brk("rw-walkdir", "C08", (U, """		functionName:                "SliceStable",
		functionTypedParameterIndex: 1,
	},
""", """		functionName:                "SliceStable",
		functionTypedParameterIndex: 1,
	},
	&packageFunctionMatcher{
		pkg:                         "path/filepath",
		functionName:                "Walk",
		functionTypedParameterIndex: 1,
	},
"""))
brk("rw-afterfunc", "C08", (U, """		functionName:                "Slice",
""", """		functionName:                "Sort",
"""))
brk("rw-defer", "C08", (R, """	expr, ok := node.(*ast.ExprStmt)
	if !ok {
		// Not a statement node.
		return nil
	}
	call, ok := expr.X.(*ast.CallExpr)
	if !ok {
		// Not a call expression.
		return nil
	}
""", """	var call *ast.CallExpr
	switch s := node.(type) {
	case *ast.ExprStmt:
		call, _ = s.X.(*ast.CallExpr)
	case *ast.DeferStmt:
		call = s.Call
	}
	if call == nil {
		return nil
	}
"""))
brk("rw-two-methods", "C08", (R, "{s1, s2, s3}", "{s1, s3}"))
brk("rw-same-method", "C08", (R, 'obj, "Swap", args2', 'obj, "Less", args2'))
brk("rw-stop-after", "C08", (R, "					c.Replace(&ast.BlockStmt{List: []ast.Stmt{s1, s2, s3}})\n					return true\n", "					c.Replace(&ast.BlockStmt{List: []ast.Stmt{s1, s2, s3}})\n					return false\n"))
brk("rw-stop-once", "C08", (R, "						statementCallingFunctionObject(p.TypesInfo, obj, args))\n					return true\n", "						statementCallingFunctionObject(p.TypesInfo, obj, args))\n					return false\n"))
brk("rw-only-statements", "C08", (R, "						// c.Node() is not a statement.\n						return true\n", "						// c.Node() is not a statement.\n						return false\n"))
brk("rw-functions-only", "C08 C09", (R, """			for _, node := range file.Decls {
				var pre astutil.ApplyFunc
				pre = func(c *astutil.Cursor) bool {
					obj := isCallToOnceDoEtc""", """			for _, node := range file.Decls {
				if _, ok := node.(*ast.FuncDecl); !ok {
					continue
				}
				var pre astutil.ApplyFunc
				pre = func(c *astutil.Cursor) bool {
					obj := isCallToOnceDoEtc"""))
brk("rw-in-place", "C08", (R, "					if s1 == nil || s2 == nil || s3 == nil {", "					if e, ok := c.Node().(*ast.ExprStmt); ok {\n						e.X = obj\n					}\n					if s1 == nil || s2 == nil || s3 == nil {"))
brk("rw-inspect-stop", "C08", (U, SE, """func mayHaveSideEffects(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CompositeLit, *ast.FuncLit:
			return false
		case *ast.CallExpr:
			found = true
		}
		return true
	})
	return found
}

"""))
brk("rw-inspect-last", "C08", (U, SE, """func mayHaveSideEffects(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		_, found = n.(*ast.CallExpr)
		return true
	})
	return found
}

"""))
for name, methods, leave in (("two", '"Less", "Len"', "return true"), ("break", '"Less", "Swap", "Len"', "continue")):
    brk("rw-methods-loop-" + name, "C08", (R, THREE, """					var list []ast.Stmt
					for _, name := range []string{%s} {
						var args []ast.Expr
						if name != "Len" {
							args = args1
						}
						st := statementCallingMethod(p.TypesInfo, obj, name, args)
						if st == nil {
							%s
						}
						list = append(list, st)
					}
					_ = args2
					c.Replace(&ast.BlockStmt{List: list})
""" % (methods, leave)))
