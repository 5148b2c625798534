package main

import (
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

// countingLoops rewrites "for i := range n" over an integer into the loop
// "for i, end := 0, n; i < end; i++" it stands for, so that one form of
// counting loop reaches the evaluator.
func countingLoops(p *packages.Package) {
	info := p.TypesInfo
	for _, f := range p.Syntax {
		astutil.Apply(f, nil, func(cu *astutil.Cursor) bool {
			r, ok := cu.Node().(*ast.RangeStmt)
			if !ok || r.Value != nil || r.Key != nil && r.Tok != token.DEFINE {
				return true
			}
			t := info.TypeOf(r.X)
			if t == nil {
				return true
			}
			if b, ok := t.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
				return true
			}
			var v *types.Var
			key, _ := r.Key.(*ast.Ident)
			if key != nil {
				v, _ = info.Defs[key].(*types.Var)
			}
			if v == nil {
				if b := t.Underlying().(*types.Basic); b.Info()&types.IsUntyped != 0 {
					t = types.Typ[types.Int]
				}
				key = &ast.Ident{NamePos: r.For, Name: "i·"}
				v = types.NewVar(r.For, p.Types, key.Name, t)
				info.Defs[key] = v
			}
			t = v.Type()
			end := &ast.Ident{NamePos: r.For, Name: "end·"}
			ev := types.NewVar(r.For, p.Types, end.Name, t)
			info.Defs[end] = ev
			if tv := info.Types[r.X]; tv.Value != nil {
				tv.Type = t
				info.Types[r.X] = tv
			}
			use := func(x types.Object) *ast.Ident {
				id := &ast.Ident{NamePos: r.For, Name: x.Name()}
				info.Uses[id] = x
				info.Types[id] = types.TypeAndValue{Type: t}
				setMode(info, id, r.X)
				return id
			}
			zero := &ast.BasicLit{ValuePos: r.For, Kind: token.INT, Value: "0"}
			info.Types[zero] = types.TypeAndValue{Type: t, Value: constant.MakeInt64(0)}
			cmp := &ast.BinaryExpr{X: use(v), OpPos: r.For, Op: token.LSS, Y: use(ev)}
			info.Types[cmp] = types.TypeAndValue{Type: types.Typ[types.Bool]}
			cu.Replace(&ast.ForStmt{
				For:  r.For,
				Init: &ast.AssignStmt{Lhs: []ast.Expr{key, end}, TokPos: r.For, Tok: token.DEFINE, Rhs: []ast.Expr{zero, r.X}},
				Cond: cmp,
				Post: &ast.IncDecStmt{X: use(v), TokPos: r.For, Tok: token.INC},
				Body: r.Body,
			})
			return true
		})
	}
}

// setMode gives an identifier made here the mode of a plain value.
func setMode(info *types.Info, id *ast.Ident, like ast.Expr) {
	t := info.Types[id].Type
	if tv, ok := info.Types[like]; ok && tv.Value == nil {
		tv.Type = t
		info.Types[id] = tv
	}
}
