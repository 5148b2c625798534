A = "analyzer/analyzer.go"
U = "analyzer/util.go"
I = "interesting/interesting.go"
D = "cmd/capslock-git-diff/main.go"

BACKPUSH = """			if _, ok := visited[w]; ok {
				// We have already visited w.
				continue
			}
			visited[w] = bfsState{edge: edge}
			q = append(q, w)
		}
	}
	return visited
"""
FWPUSH = """			if _, ok := bfsFromQueries[w]; ok {
				// We have already visited w.
				continue
			}
			bfsFromQueries[w] = bfsState{edge}
			q = append(q, w)
"""
PATHPUSH = """				visited[w] = bfsState{edge: edge}
				q = append(q, w)
"""
SEEN = """		if _, ok := seen[t]; ok {
			return false
		}
		seen[t] = struct{}{}
"""
EACH = """		if _, ok := visitedPackages[p]; ok {
			return
		}
		visitedPackages[p] = struct{}{}
		for _, p2 := range p.Imports {
			visit(p2)
		}
		fn(p)
"""

# ---- no change in behaviour ----
keep("fin-nested-test", (A, BACKPUSH, """			if _, ok := visited[w]; !ok {
				visited[w] = bfsState{edge: edge}
				q = append(q, w)
			}
		}
	}
	return visited
"""))
keep("fin-push-first", (A, PATHPUSH, """				q = append(q, w)
				visited[w] = bfsState{edge: edge}
"""))
keep("fin-count-up", (D, """	for i := -50; i < 0; i++ {
		fmt.Println(lines[len(lines)+i])
	}
""", """	for i := 50; i > 0; i-- {
		fmt.Println(lines[len(lines)-i])
	}
"""))
keep("fin-count-cond", (D, """	for i := -50; i < 0; i++ {
		fmt.Println(lines[len(lines)+i])
	}
""", """	i := -50
	for {
		if i >= 0 {
			break
		}
		fmt.Println(lines[len(lines)+i])
		i += 1
	}
"""))
keep("fin-scan-break", (I, """	for scanner.Scan() {
""", """	for {
		if !scanner.Scan() {
			break
		}
"""))
keep("fin-test-at-call", (U, EACH, """		visitedPackages[p] = struct{}{}
		for _, p2 := range p.Imports {
			if _, ok := visitedPackages[p2]; !ok {
				visit(p2)
			}
		}
		fn(p)
"""), (U, """	for _, p := range pkgs {
		visit(p)
	}
}
""", """	for _, p := range pkgs {
		if _, ok := visitedPackages[p]; !ok {
			visit(p)
		}
	}
}
"""))
keep("fin-seen-bool", (U, "	seen := map[types.Type]struct{}{}\n", "	seen := make(map[types.Type]bool)\n"), (U, SEEN, """		if seen[t] {
			return false
		}
		seen[t] = true
"""))
keep("fin-walk-edge", (A, """			for v := node; v != nil; {
				e := capabilityBFS[v].edge
				if e == nil {
					break
				}
				v = e.Callee
				addFunction(&ci.Path, v, e)
			}
""", """			for e := capabilityBFS[node].edge; e != nil; e = capabilityBFS[e.Callee].edge {
				addFunction(&ci.Path, e.Callee, e)
			}
"""))

# ---- broken ----
brk("fin-back-no-test", "C30", (A, BACKPUSH, """			visited[w] = bfsState{edge: edge}
			q = append(q, w)
		}
	}
	return visited
"""))
brk("fin-fw-mark-named", "C30", (A, FWPUSH, """			if _, ok := bfsFromQueries[w]; ok {
				// We have already visited w.
				continue
			}
			if w.Func.Parent() == nil {
				bfsFromQueries[w] = bfsState{edge}
			}
			q = append(q, w)
"""))
brk("fin-fw-test-edge", "C30", (A, FWPUSH, """			if s, ok := bfsFromQueries[w]; ok && s.edge == edge {
				// We have already visited w.
				continue
			}
			bfsFromQueries[w] = bfsState{edge}
			q = append(q, w)
"""))
brk("fin-path-mark-package", "C30", (A, PATHPUSH, """				if w.Func.Package() != nil {
					visited[w] = bfsState{edge: edge}
				}
				q = append(q, w)
"""))
keep("fin-types-mark-after", (U, SEEN, """		if _, ok := seen[t]; ok {
			return false
		}
		defer func() { seen[t] = struct{}{} }()
"""))
brk("fin-types-own-set", "C30", (U, "	seen := map[types.Type]struct{}{}\n", ""), (U, SEEN, """		seen := map[types.Type]struct{}{}
		if _, ok := seen[t]; ok {
			return false
		}
		seen[t] = struct{}{}
"""))
keep("fin-packages-mark-after", (U, EACH, """		if _, ok := visitedPackages[p]; ok {
			return
		}
		for _, p2 := range p.Imports {
			visit(p2)
		}
		visitedPackages[p] = struct{}{}
		fn(p)
"""))
brk("fin-packages-pop", "C30", (U, EACH, EACH + "		delete(visitedPackages, p)\n"))
brk("fin-walk-wrong-end", "C30", (A, """				v = e.Callee
				addFunction(&ci.Path, v, e)
""", """				addFunction(&ci.Path, e.Callee, e)
				v = e.Caller
"""))
brk("fin-paren", "C30", (U, """	case *ast.ParenExpr:
		return mayHaveSideEffects(e.X)
	case *ast.SelectorExpr:
""", """	case *ast.ParenExpr:
		return mayHaveSideEffects(e)
	case *ast.SelectorExpr:
"""))
brk("fin-count-wrong-way", "C30", (D, "	for i := -50; i < 0; i++ {\n", "	for i := -50; i < 0; i-- {\n"))
brk("fin-map-grows", "C30", (A, """	for cap := range nodesByCapability {
		caps = append(caps, cap)
""", """	for cap := range nodesByCapability {
		nodesByCapability[cap+1] = nodesByCapability[cap]
		caps = append(caps, cap)
"""))
