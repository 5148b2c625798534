// Command edits lists small edits of the repository: with "refactor" edits
// that do not change what the program does, with "mutate" edits that do. The
// checks are tried on both by selftest/sweep.py.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// edit replaces bytes of a file.
type edit struct {
	Start, End int
	Text       string
}

type candidate struct {
	Kind, File, Func string
	Line             int
	Edits            []edit
	Old              string
}

type lister struct {
	fset *token.FileSet
	info *types.Info
	src  []byte
	file string
	base int
	fn   string
	sig  *types.Signature
	out  []candidate
	n    int
}

func (l *lister) off(p token.Pos) int { return l.fset.Position(p).Offset }

func (l *lister) text(n ast.Node) string { return string(l.src[l.off(n.Pos()):l.off(n.End())]) }

func (l *lister) span(a, b token.Pos) string { return string(l.src[l.off(a):l.off(b)]) }

func (l *lister) add(kind string, at ast.Node, es ...edit) {
	l.out = append(l.out, candidate{kind, l.file, l.fn, l.fset.Position(at.Pos()).Line, es, ""})
}

func (l *lister) repl(n ast.Node, text string) edit {
	return edit{l.off(n.Pos()), l.off(n.End()), text}
}

func (l *lister) fresh(p string) string {
	l.n++
	return fmt.Sprintf("%sX%d", p, l.n)
}

func main() {
	repo := "/repo"
	if r := os.Getenv("CAPSLOCK_REPO"); r != "" {
		repo = r
	}
	fset := token.NewFileSet()
	pkgs, err := packages.Load(&packages.Config{Dir: repo, Fset: fset, Mode: packages.LoadAllSyntax}, "./...")
	if err != nil {
		panic(err)
	}
	var out []candidate
	for _, p := range pkgs {
		if strings.HasSuffix(p.PkgPath, "/proto") || strings.Contains(p.PkgPath, "testpkgs") {
			continue
		}
		for i, f := range p.Syntax {
			name := p.CompiledGoFiles[i]
			if !strings.HasPrefix(name, repo) || strings.HasSuffix(name, "_test.go") {
				continue
			}
			src, err := os.ReadFile(name)
			if err != nil {
				panic(err)
			}
			rel, _ := filepath.Rel(repo, name)
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				l := &lister{fset: fset, info: p.TypesInfo, src: src, file: rel, fn: fd.Name.Name}
				if os.Args[1] == "refactor" {
					l.refactor(fd)
				} else {
					l.mutate(fd)
				}
				out = append(out, l.out...)
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].File < out[j].File })
	json.NewEncoder(os.Stdout).Encode(out)
}

// escapes: control leaves the node other than by falling off its end.
func escapes(n ast.Node) bool {
	found := false
	depth := 0
	var walk func(n ast.Node, loop, sw int)
	walk = func(n ast.Node, loop, sw int) {
		ast.Inspect(n, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ReturnStmt, *ast.DeferStmt, *ast.LabeledStmt:
				found = true
			case *ast.BranchStmt:
				if x.Label != nil || x.Tok == token.GOTO || x.Tok == token.FALLTHROUGH || x.Tok == token.CONTINUE && loop == 0 || x.Tok == token.BREAK && loop+sw == 0 {
					found = true
				}
			case *ast.ForStmt:
				if x != n {
					walk(x.Body, loop+1, sw)
					return false
				}
			case *ast.RangeStmt:
				if x != n {
					walk(x.Body, loop+1, sw)
					return false
				}
			case *ast.SwitchStmt:
				walk(x.Body, loop, sw+1)
				return false
			case *ast.TypeSwitchStmt:
				walk(x.Body, loop, sw+1)
				return false
			case *ast.SelectStmt:
				walk(x.Body, loop, sw+1)
				return false
			}
			return true
		})
	}
	_ = depth
	walk(n, 0, 0)
	return found
}

// declares: the statements declare variables that later ones could use.
func declares(list []ast.Stmt) bool {
	for _, s := range list {
		switch s := s.(type) {
		case *ast.AssignStmt:
			if s.Tok == token.DEFINE {
				return true
			}
		case *ast.DeclStmt:
			return true
		}
	}
	return false
}

func hasCall(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.CallExpr:
			found = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		case *ast.FuncLit:
			return false
		}
		return true
	})
	return found
}

func terminates(s ast.Stmt) bool {
	switch s := s.(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return s.Tok == token.CONTINUE || s.Tok == token.BREAK
	}
	return false
}

func (l *lister) refactor(fd *ast.FuncDecl) {
	body := fd.Body
	l.add("noop", fd, edit{l.off(body.Lbrace) + 1, l.off(body.Lbrace) + 1, "\n_ = 0\n"})
	var lists func(list []ast.Stmt, end token.Pos, loop bool, void bool)
	lists = func(list []ast.Stmt, end token.Pos, loop, void bool) {
		for i, s := range list {
			ifs, ok := s.(*ast.IfStmt)
			// guard clause to nested statement
			if ok && ifs.Else == nil && i+1 < len(list) && len(ifs.Body.List) == 1 {
				br, isBr := ifs.Body.List[0].(*ast.BranchStmt)
				ret, isRet := ifs.Body.List[0].(*ast.ReturnStmt)
				if loop && isBr && br.Tok == token.CONTINUE && br.Label == nil && ifs.Init == nil || void && !loop && isRet && len(ret.Results) == 0 && ifs.Init == nil {
					l.add("guard to nested", s,
						edit{l.off(ifs.Cond.Pos()), l.off(ifs.End()), "!(" + l.text(ifs.Cond) + ") {"},
						edit{l.off(end), l.off(end), "\n}\n"})
				}
			}
			// a run of statements moved into a function literal
			for j := i + 1; j <= len(list) && j <= i+3; j++ {
				run := list[i:j]
				bad := false
				for _, x := range run {
					bad = bad || escapes(x)
				}
				if bad || declares(run) {
					continue
				}
				if j-i == 1 {
					switch run[0].(type) {
					case *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.ExprStmt:
					default:
						continue
					}
				}
				h := l.fresh("helper")
				a, b := l.off(run[0].Pos()), l.off(run[len(run)-1].End())
				l.add(fmt.Sprintf("extract %d", j-i), run[0], edit{a, b, h + " := func() {\n" + string(l.src[a:b]) + "\n}\n" + h + "()"})
			}
			// neighbours exchanged
			if i+1 < len(list) {
				if l.independent(s, list[i+1]) {
					a, b := l.text(s), l.text(list[i+1])
					l.add("exchange", s, l.repl(s, b), l.repl(list[i+1], a))
				}
			}
		}
	}
	var stack []ast.Node
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		stack = append(stack, n)
		var parent ast.Node
		if len(stack) > 1 {
			parent = stack[len(stack)-2]
		}
		switch n := n.(type) {
		case *ast.BlockStmt:
			loop, void := false, false
			switch p := parent.(type) {
			case *ast.ForStmt, *ast.RangeStmt:
				loop = true
			case *ast.FuncLit:
				void = p.Type.Results == nil
			case nil:
				void = fd.Type.Results == nil
			}
			lists(n.List, n.Rbrace, loop, void)
		case *ast.CaseClause:
			lists(n.Body, n.End(), false, false)
		case *ast.IfStmt:
			_, elseIf := n.Else.(*ast.IfStmt)
			if n.Else != nil && !elseIf {
				l.add("invert", n, l.repl(n.Cond, "!("+l.text(n.Cond)+")"), l.repl(n.Body, l.text(n.Else)), l.repl(n.Else, l.text(n.Body)))
			}
			if p, ok := parent.(*ast.IfStmt); ok && p.Else == n {
				break
			}
			if n.Init == nil {
				v := l.fresh("cond")
				l.add("name condition", n, edit{l.off(n.Pos()), l.off(n.Pos()), v + " := " + l.text(n.Cond) + "\n"}, l.repl(n.Cond, v))
				v = l.fresh("test")
				l.add("test function", n, edit{l.off(n.Pos()), l.off(n.Pos()), v + " := func() bool { return " + l.text(n.Cond) + " }\n"}, l.repl(n.Cond, v+"()"))
				if elseIf || n.Else != nil {
					break
				}
				if b, ok := n.Cond.(*ast.BinaryExpr); ok && b.Op == token.LAND {
					l.add("split and", n, l.repl(n.Cond, l.text(b.X)), edit{l.off(n.Body.Lbrace) + 1, l.off(n.Body.Lbrace) + 1, "\nif " + l.text(b.Y) + " {"}, edit{l.off(n.Body.Rbrace), l.off(n.Body.Rbrace), "\n}\n"})
				}
				if b, ok := n.Cond.(*ast.BinaryExpr); ok && b.Op == token.LOR && len(n.Body.List) > 0 && terminates(n.Body.List[len(n.Body.List)-1]) {
					l.add("split or", n, l.repl(n, "if "+l.text(b.X)+" "+l.text(n.Body)+"\nif "+l.text(b.Y)+" "+l.text(n.Body)))
				}
			} else if !elseIf && n.Else == nil {
				l.add("init out", n, edit{l.off(n.Pos()), l.off(n.Cond.Pos()), "{\n" + l.text(n.Init) + "\nif "}, edit{l.off(n.End()), l.off(n.End()), "\n}"})
			}
			if n.Else == nil && len(n.Body.List) > 0 && n.Init == nil {
				l.add("if to switch", n, edit{l.off(n.Pos()), l.off(n.Body.Lbrace) + 1, "switch {\ncase " + l.text(n.Cond) + ":\n"})
			}
		case *ast.SwitchStmt:
			l.switchToIf(n)
		case *ast.RangeStmt:
			l.rangeForms(n)
		case *ast.ForStmt:
			if n.Cond != nil && n.Init == nil && n.Post == nil {
				l.add("while to loop", n, l.repl(n.Cond, ""), edit{l.off(n.Body.Lbrace) + 1, l.off(n.Body.Lbrace) + 1, "\nif !(" + l.text(n.Cond) + ") {\nbreak\n}\n"})
			}
		case *ast.ReturnStmt:
			if len(n.Results) == 1 {
				if t := l.info.TypeOf(n.Results[0]); t != nil {
					if _, tup := t.(*types.Tuple); !tup && !isNil(n.Results[0]) {
						v := l.fresh("result")
						if tv := l.info.Types[n.Results[0]]; tv.Value == nil {
							if _, inCase := parent.(*ast.CaseClause); inCase || isBlock(parent) {
								l.add("name result", n, l.repl(n, v+" := "+l.text(n.Results[0])+"\nreturn "+v))
							}
						}
					}
				}
			}
		case *ast.IncDecStmt:
			op := "+"
			if n.Tok == token.DEC {
				op = "-"
			}
			l.add("increment", n, l.repl(n, l.text(n.X)+" = "+l.text(n.X)+" "+op+" 1"))
		case *ast.AssignStmt:
			if n.Tok == token.ADD_ASSIGN {
				l.add("add assign", n, l.repl(n, l.text(n.Lhs[0])+" = "+l.text(n.Lhs[0])+" + "+l.text(n.Rhs[0])))
			}
			l.nameArgs(n, n.Rhs, parent)
		case *ast.ExprStmt:
			if c, ok := n.X.(*ast.CallExpr); ok {
				l.nameArgs(n, []ast.Expr{c}, parent)
			}
		case *ast.BinaryExpr:
			switch n.Op {
			case token.EQL, token.NEQ:
				l.add("exchange sides", n, l.repl(n, l.text(n.Y)+" "+n.Op.String()+" "+l.text(n.X)))
			case token.LAND:
				l.add("de morgan", n, l.repl(n, "!(!("+l.text(n.X)+") || !("+l.text(n.Y)+"))"))
				if !hasCall(n) && pure(n.X) && pure(n.Y) {
					l.add("exchange and", n, l.repl(n, "("+l.text(n.Y)+") && ("+l.text(n.X)+")"))
				}
			case token.LOR:
				l.add("de morgan", n, l.repl(n, "!(!("+l.text(n.X)+") && !("+l.text(n.Y)+"))"))
			case token.LSS:
				l.add("turn comparison", n, l.repl(n, "("+l.text(n.Y)+") > ("+l.text(n.X)+")"))
			}
		case *ast.FuncLit:
			if c, ok := parent.(*ast.CallExpr); ok && c.Fun != n {
				// named before the statement
				var st ast.Node
				for i := len(stack) - 1; i > 0; i-- {
					if s, ok := stack[i].(ast.Stmt); ok && isBlock(stack[i-1]) {
						st = s
						break
					}
				}
				if es, ok := st.(*ast.ExprStmt); ok && es.X == c {
					v := l.fresh("callback")
					l.add("name callback", n, edit{l.off(st.Pos()), l.off(st.Pos()), v + " := " + l.text(n) + "\n"}, l.repl(n, v))
				}
			}
		}
		return true
	})
}

func isNil(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "nil"
}

func isBlock(n ast.Node) bool {
	_, ok := n.(*ast.BlockStmt)
	return ok
}

// pure: evaluating it cannot panic or do anything.
func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case nil, *ast.Ident, *ast.BasicLit, *ast.BinaryExpr, *ast.ParenExpr:
		case *ast.UnaryExpr:
		default:
			ok = false
		}
		return ok
	})
	return ok
}

// nameArgs gives a name to the first argument that is a call.
func (l *lister) nameArgs(s ast.Stmt, es []ast.Expr, parent ast.Node) {
	if len(es) != 1 || !isBlock(parent) {
		return
	}
	c, ok := es[0].(*ast.CallExpr)
	if !ok {
		return
	}
	if as, ok := s.(*ast.AssignStmt); ok {
		for _, x := range as.Lhs {
			if hasCall(x) {
				return
			}
		}
	}
	if hasCall(c.Fun) {
		return
	}
	for _, a := range c.Args {
		inner, ok := a.(*ast.CallExpr)
		if ok {
			if _, tup := l.info.TypeOf(inner).(*types.Tuple); tup {
				return
			}
			v := l.fresh("value")
			l.add("name argument", s, edit{l.off(s.Pos()), l.off(s.Pos()), v + " := " + l.text(inner) + "\n"}, l.repl(inner, v))
			return
		}
		if hasCall(a) {
			return
		}
	}
}

func (l *lister) switchToIf(n *ast.SwitchStmt) {
	if n.Init != nil || len(n.Body.List) == 0 {
		return
	}
	tag := ""
	if n.Tag != nil {
		tag = l.fresh("tag")
	}
	var sb, def strings.Builder
	if tag != "" {
		if l.info.Types[n.Tag].Value != nil {
			return
		}
		sb.WriteString(tag + " := " + l.text(n.Tag) + "\n")
	}
	first := true
	for _, c := range n.Body.List {
		cc := c.(*ast.CaseClause)
		bad := false
		for _, s := range cc.Body {
			ast.Inspect(s, func(x ast.Node) bool {
				switch x := x.(type) {
				case *ast.BranchStmt:
					if x.Tok == token.BREAK || x.Tok == token.FALLTHROUGH {
						bad = true
					}
				}
				return true
			})
		}
		if bad {
			return
		}
		txt := ""
		if len(cc.Body) > 0 {
			txt = l.span(cc.Body[0].Pos(), cc.Body[len(cc.Body)-1].End())
		}
		if cc.List == nil {
			def.WriteString(txt)
			continue
		}
		var cs []string
		for _, e := range cc.List {
			if tag != "" {
				cs = append(cs, tag+" == "+l.text(e))
			} else {
				cs = append(cs, "("+l.text(e)+")")
			}
		}
		if !first {
			sb.WriteString(" else ")
		}
		first = false
		sb.WriteString("if " + strings.Join(cs, " || ") + " {\n" + txt + "\n}")
	}
	if first {
		return
	}
	if def.Len() > 0 {
		sb.WriteString(" else {\n" + def.String() + "\n}")
	}
	l.add("switch to if", n, l.repl(n, sb.String()))
}

func (l *lister) rangeForms(n *ast.RangeStmt) {
	t := l.info.TypeOf(n.X)
	if t == nil {
		return
	}
	in := func(e ast.Expr) string {
		if e == nil {
			return "_"
		}
		return l.text(e)
	}
	if n.Tok != token.DEFINE {
		return
	}
	x := l.text(n.X)
	head := edit{l.off(n.Pos()), l.off(n.Body.Lbrace) + 1, ""}
	k, v := in(n.Key), in(n.Value)
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if v == "_" {
			return
		}
		list, i := l.fresh("list"), k
		if i == "_" {
			i = l.fresh("i")
		}
		h := head
		h.Text = list + " := " + x + "\nfor " + i + " := range " + list + " {\n" + v + " := " + list + "[" + i + "]\n"
		l.add("range by index", n, h)
		h = head
		h.Text = list + " := " + x + "\nfor " + i + " := 0; " + i + " < len(" + list + "); " + i + "++ {\n" + v + " := " + list + "[" + i + "]\n"
		l.add("counting loop", n, h)
	case *types.Map:
		if v == "_" {
			return
		}
		m := l.fresh("m")
		if k == "_" {
			k = l.fresh("k")
		}
		h := head
		h.Text = m + " := " + x + "\nfor " + k + " := range " + m + " {\n" + v + " := " + m + "[" + k + "]\n"
		l.add("range by key", n, h)
		_ = u
	}
	if !escapes(n.Body) && len(n.Body.List) > 0 {
		var ps, as []string
		for _, e := range []ast.Expr{n.Key, n.Value} {
			if e != nil && l.text(e) != "_" {
				ps = append(ps, l.text(e)+" "+types.TypeString(l.info.TypeOf(e), l.qual))
				as = append(as, l.text(e))
			}
		}
		f := l.fresh("each")
		l.add("body function", n,
			edit{l.off(n.Pos()), l.off(n.Pos()), f + " := func(" + strings.Join(ps, ", ") + ") " + l.text(n.Body) + "\n"},
			l.repl(n.Body, "{\n"+f+"("+strings.Join(as, ", ")+")\n}"))
	}
}

func (l *lister) qual(p *types.Package) string {
	if p.Name() == "proto" && strings.HasPrefix(p.Path(), "github.com/google/capslock") {
		return "cpb"
	}
	for id, o := range l.info.Uses {
		if pn, ok := o.(*types.PkgName); ok && pn.Imported() == p {
			_ = id
			return pn.Name()
		}
	}
	return ""
}

// independent: two plain assignments that can be exchanged.
func (l *lister) independent(a, b ast.Stmt) bool {
	da, ua, ok := l.simple(a)
	if !ok {
		return false
	}
	db, ub, ok := l.simple(b)
	if !ok {
		return false
	}
	for o := range da {
		if db[o] || ub[o] {
			return false
		}
	}
	for o := range db {
		if ua[o] {
			return false
		}
	}
	return true
}

// simple: an assignment of pure values to plain variables.
func (l *lister) simple(s ast.Stmt) (def, use map[types.Object]bool, ok bool) {
	def, use = map[types.Object]bool{}, map[types.Object]bool{}
	as, isA := s.(*ast.AssignStmt)
	if d, isD := s.(*ast.DeclStmt); isD {
		g, ok := d.Decl.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR || len(g.Specs) != 1 {
			return nil, nil, false
		}
		v := g.Specs[0].(*ast.ValueSpec)
		if len(v.Values) > 0 {
			return nil, nil, false
		}
		for _, n := range v.Names {
			def[l.info.Defs[n]] = true
		}
		return def, use, true
	}
	if !isA {
		return nil, nil, false
	}
	for _, x := range as.Lhs {
		id, ok := x.(*ast.Ident)
		if !ok {
			return nil, nil, false
		}
		if o := l.info.ObjectOf(id); o != nil {
			def[o] = true
		}
	}
	for _, x := range as.Rhs {
		good := true
		ast.Inspect(x, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.CallExpr:
				id, ok := n.Fun.(*ast.Ident)
				if !ok || id.Name != "make" && id.Name != "len" && id.Name != "new" {
					good = false
				}
			case *ast.UnaryExpr:
				if n.Op == token.ARROW {
					good = false
				}
			case *ast.StarExpr, *ast.IndexExpr, *ast.SliceExpr, *ast.TypeAssertExpr, *ast.SelectorExpr:
				good = false
			case *ast.Ident:
				if o := l.info.ObjectOf(n); o != nil {
					use[o] = true
				}
			}
			return good
		})
		if !good {
			return nil, nil, false
		}
	}
	return def, use, true
}

func (l *lister) mutate(fd *ast.FuncDecl) {
	var stack []ast.Node
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		stack = append(stack, n)
		var parent ast.Node
		if len(stack) > 1 {
			parent = stack[len(stack)-2]
		}
		_, inCase := parent.(*ast.CaseClause)
		stmt := isBlock(parent) || inCase
		switch n := n.(type) {
		case *ast.IfStmt:
			l.add("negate", n, l.repl(n.Cond, "!("+l.text(n.Cond)+")"))
			if stmt {
				if n.Else == nil {
					l.add("delete if", n, l.repl(n, ""))
					if n.Init == nil {
						l.add("always", n, l.repl(n.Cond, "true"))
					} else {
						l.add("always", n, l.repl(n.Cond, "("+l.text(n.Cond)+") || true"))
					}
				} else {
					l.add("never", n, l.repl(n.Cond, "("+l.text(n.Cond)+") && false"))
				}
			}
		case *ast.BinaryExpr:
			switch n.Op {
			case token.LAND, token.LOR:
				l.add("drop right", n, l.repl(n, "("+l.text(n.X)+")"))
				l.add("drop left", n, l.repl(n, "("+l.text(n.Y)+")"))
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
				m := map[token.Token]string{token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">"}
				l.add("boundary", n, l.repl(n, l.text(n.X)+" "+m[n.Op]+" "+l.text(n.Y)))
				m = map[token.Token]string{token.LSS: ">", token.LEQ: ">=", token.GTR: "<", token.GEQ: "<="}
				l.add("turned", n, l.repl(n, l.text(n.X)+" "+m[n.Op]+" "+l.text(n.Y)))
			case token.EQL, token.NEQ:
				m := map[token.Token]string{token.EQL: "!=", token.NEQ: "=="}
				if p, ok := parent.(*ast.IfStmt); !ok || p.Cond != n {
					l.add("negate test", n, l.repl(n, l.text(n.X)+" "+m[n.Op]+" "+l.text(n.Y)))
				}
			case token.ADD:
				if isStr(l.info.TypeOf(n)) {
					l.add("drop text", n, l.repl(n, l.text(n.X)))
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.NOT {
				if p, ok := parent.(*ast.IfStmt); !ok || p.Cond != n {
					l.add("drop not", n, l.repl(n, l.text(n.X)))
				}
			}
		case *ast.ExprStmt, *ast.IncDecStmt:
			if stmt {
				l.add("delete statement", n, l.repl(n, ""))
			}
		case *ast.DeferStmt:
			l.add("delete statement", n, l.repl(n, ""))
		case *ast.AssignStmt:
			if n.Tok != token.DEFINE && stmt {
				l.add("delete statement", n, l.repl(n, ""))
			}
		case *ast.BranchStmt:
			if n.Label == nil && n.Tok == token.CONTINUE {
				l.add("break", n, l.repl(n, "break"))
				l.add("delete statement", n, l.repl(n, ""))
			}
			if n.Label == nil && n.Tok == token.BREAK {
				l.add("continue", n, l.repl(n, "continue"))
				l.add("delete statement", n, l.repl(n, ""))
			}
		case *ast.ReturnStmt:
			for _, r := range n.Results {
				if t := l.info.TypeOf(r); t != nil && !isNil(r) {
					switch t.Underlying().(type) {
					case *types.Interface, *types.Pointer, *types.Slice, *types.Map:
						l.add("return nil", n, l.repl(r, "nil"))
					}
					if id, ok := r.(*ast.Ident); ok && id.Name == "true" {
						l.add("return false", n, l.repl(r, "false"))
					} else if ok && id.Name == "false" {
						l.add("return true", n, l.repl(r, "true"))
					}
				}
			}
			if len(n.Results) == 0 && stmt && len(stack) > 3 {
				l.add("delete statement", n, l.repl(n, ""))
			}
		case *ast.BasicLit:
			if n.Kind == token.INT {
				l.add("number", n, l.repl(n, "("+n.Value+"+1)"))
			}
			if n.Kind == token.STRING && len(n.Value) > 2 {
				l.add("text", n, l.repl(n, n.Value[:len(n.Value)-2]+n.Value[len(n.Value)-1:]))
			}
		case *ast.Ident:
			if n.Name == "true" || n.Name == "false" {
				m := map[string]string{"true": "false", "false": "true"}
				if _, ok := parent.(*ast.ReturnStmt); !ok {
					l.add("constant", n, l.repl(n, m[n.Name]))
				}
			}
		case *ast.CallExpr:
			for i := 0; i+1 < len(n.Args); i++ {
				a, b := l.info.TypeOf(n.Args[i]), l.info.TypeOf(n.Args[i+1])
				if a != nil && b != nil && types.Identical(a, b) && l.text(n.Args[i]) != l.text(n.Args[i+1]) {
					l.add("swap arguments", n, l.repl(n.Args[i], l.text(n.Args[i+1])), l.repl(n.Args[i+1], l.text(n.Args[i])))
				}
			}
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "append" && len(n.Args) == 2 {
				l.add("no append", n, l.repl(n, l.text(n.Args[0])))
			}
			if l.conv(n) && len(n.Args) == 1 {
				break
			}
			// a call of a string function left out
			if len(n.Args) >= 1 && isStr(l.info.TypeOf(n)) && isStr(l.info.TypeOf(n.Args[0])) {
				l.add("skip call", n, l.repl(n, l.text(n.Args[0])))
			}
		case *ast.SelectorExpr:
			m := map[string]string{"Caller": "Callee", "Callee": "Caller", "In": "Out", "Out": "In", "X": "Y", "Path": "Name", "PkgPath": "Name", "String": "Name", "Filename": "String"}
			if o := m[n.Sel.Name]; o != "" {
				l.add("other field", n, l.repl(n.Sel, o))
			}
		case *ast.CaseClause:
			if len(n.List) > 1 {
				for i := range n.List {
					var rest []string
					for j, e := range n.List {
						if j != i {
							rest = append(rest, l.text(e))
						}
					}
					l.add("drop case", n.List[i], edit{l.off(n.List[0].Pos()), l.off(n.List[len(n.List)-1].End()), strings.Join(rest, ", ")})
				}
			} else if len(n.List) == 1 {
				l.add("drop case", n, edit{l.off(n.Pos()), l.off(n.End()), ""})
			}
		case *ast.RangeStmt:
			l.add("skip loop", n, edit{l.off(n.Body.Lbrace) + 1, l.off(n.Body.Lbrace) + 1, "\nbreak\n"})
		case *ast.KeyValueExpr:
			if cl, ok := parent.(*ast.CompositeLit); ok {
				if _, isStruct := l.info.TypeOf(cl).Underlying().(*types.Struct); isStruct && len(cl.Elts) > 1 {
					end := l.off(n.End())
					for end < len(l.src) && (l.src[end] == ' ' || l.src[end] == ',') {
						end++
					}
					l.add("drop field", n, edit{l.off(n.Pos()), end, ""})
				}
			}
		}
		return true
	})
}

func (l *lister) conv(c *ast.CallExpr) bool {
	tv, ok := l.info.Types[c.Fun]
	return ok && tv.IsType()
}

func isStr(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
