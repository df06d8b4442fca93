package main

import (
	"errors"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// typeOf guesses which expressions are channels; other packages are not looked into.
type chanInfo struct {
	info *types.Info
}

type noImports struct{}

func (noImports) Import(path string) (*types.Package, error) {
	return nil, errors.New("not looked into")
}

func typeInfo(fset *token.FileSet, files []*ast.File) *types.Info {
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	cfg := types.Config{Importer: noImports{}, Error: func(error) {}}
	func() {
		defer func() { _ = recover() }()
		_, _ = cfg.Check("p", fset, files, info)
	}()
	return info
}

func (ci *chanInfo) isChan(e ast.Expr) bool {
	tv, ok := ci.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Chan)
	return ok
}

func (ci *chanInfo) builtin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	o, known := ci.info.Uses[id]
	if !known {
		return true
	}
	_, ok = o.(*types.Builtin)
	return ok
}

func zzCall(fn string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("zzvsync"), Sel: ast.NewIdent(fn)}, Args: args}
}

type chanRewriter struct {
	chanInfo
	n    int
	used bool
	fail string
}

func (r *chanRewriter) fresh(p string) string {
	r.n++
	return fmt.Sprintf("zz%s%d", p, r.n)
}

// file rewrites every use of channels in f; it reports whether there were any.
func (r *chanRewriter) file(f *ast.File) bool {
	r.used = false
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			if x.Recv != nil {
				r.fields(x.Recv)
			}
			r.funcType(x.Type)
			if x.Body != nil {
				r.block(x.Body)
			}
		case *ast.GenDecl:
			r.gen(x)
		}
	}
	return r.used
}

func (r *chanRewriter) gen(d *ast.GenDecl) {
	for _, sp := range d.Specs {
		switch x := sp.(type) {
		case *ast.TypeSpec:
			x.Type = r.expr(x.Type)
		case *ast.ValueSpec:
			if x.Type != nil {
				x.Type = r.expr(x.Type)
			}
			if len(x.Names) == 2 && len(x.Values) == 1 {
				x.Values[0] = r.pair(x.Values[0])
				continue
			}
			r.exprs(x.Values)
		}
	}
}

func (r *chanRewriter) fields(l *ast.FieldList) {
	if l == nil {
		return
	}
	for _, f := range l.List {
		f.Type = r.expr(f.Type)
	}
}

func (r *chanRewriter) funcType(t *ast.FuncType) {
	r.fields(t.TypeParams)
	r.fields(t.Params)
	r.fields(t.Results)
}

func (r *chanRewriter) exprs(es []ast.Expr) {
	for i := range es {
		es[i] = r.expr(es[i])
	}
}

// pair rewrites the right-hand side of v, ok = x.
func (r *chanRewriter) pair(e ast.Expr) ast.Expr {
	x := e
	for {
		p, ok := x.(*ast.ParenExpr)
		if !ok {
			break
		}
		x = p.X
	}
	if u, ok := x.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		r.used = true
		return zzCall("Recv2", r.expr(u.X))
	}
	return r.expr(e)
}

func (r *chanRewriter) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.ChanType:
		r.used = true
		return &ast.StarExpr{X: &ast.IndexExpr{X: &ast.SelectorExpr{X: ast.NewIdent("zzvsync"), Sel: ast.NewIdent("Chan")}, Index: r.expr(x.Value)}}
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			r.used = true
			return zzCall("Recv", r.expr(x.X))
		}
		x.X = r.expr(x.X)
	case *ast.CallExpr:
		if len(x.Args) > 0 && r.builtin(x.Fun, "make") && !isChanType(x.Args[0]) && r.isChan(x.Args[0]) {
			r.fail = "uses a named channel type"
		}
		if len(x.Args) > 0 && r.builtin(x.Fun, "make") {
			if ct, ok := x.Args[0].(*ast.ChanType); ok {
				r.used = true
				c := zzCall("MakeChan")
				c.Fun = &ast.IndexExpr{X: c.Fun, Index: r.expr(ct.Value)}
				for _, a := range x.Args[1:] {
					c.Args = append(c.Args, &ast.CallExpr{Fun: ast.NewIdent("int"), Args: []ast.Expr{r.expr(a)}})
				}
				return c
			}
		}
		for _, b := range []string{"close", "len", "cap"} {
			if len(x.Args) == 1 && r.builtin(x.Fun, b) && (b == "close" || r.isChan(x.Args[0])) {
				r.used = true
				return zzCall(strings.ToUpper(b[:1])+b[1:], r.expr(x.Args[0]))
			}
		}
		x.Fun = r.expr(x.Fun)
		r.exprs(x.Args)
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
	case *ast.StarExpr:
		x.X = r.expr(x.X)
	case *ast.SelectorExpr:
		x.X = r.expr(x.X)
	case *ast.IndexExpr:
		x.X, x.Index = r.expr(x.X), r.expr(x.Index)
	case *ast.IndexListExpr:
		x.X = r.expr(x.X)
		r.exprs(x.Indices)
	case *ast.SliceExpr:
		x.X, x.Low, x.High, x.Max = r.expr(x.X), r.expr(x.Low), r.expr(x.High), r.expr(x.Max)
	case *ast.TypeAssertExpr:
		x.X = r.expr(x.X)
		if x.Type != nil {
			x.Type = r.expr(x.Type)
		}
	case *ast.BinaryExpr:
		x.X, x.Y = r.expr(x.X), r.expr(x.Y)
	case *ast.KeyValueExpr:
		x.Key, x.Value = r.expr(x.Key), r.expr(x.Value)
	case *ast.CompositeLit:
		if x.Type != nil {
			x.Type = r.expr(x.Type)
		}
		r.exprs(x.Elts)
	case *ast.FuncLit:
		r.funcType(x.Type)
		r.block(x.Body)
	case *ast.ArrayType:
		if x.Len != nil {
			x.Len = r.expr(x.Len)
		}
		x.Elt = r.expr(x.Elt)
	case *ast.StructType:
		r.fields(x.Fields)
	case *ast.FuncType:
		r.funcType(x)
	case *ast.InterfaceType:
		r.fields(x.Methods)
	case *ast.MapType:
		x.Key, x.Value = r.expr(x.Key), r.expr(x.Value)
	case *ast.Ellipsis:
		if x.Elt != nil {
			x.Elt = r.expr(x.Elt)
		}
	}
	return e
}

func isChanType(e ast.Expr) bool { _, ok := e.(*ast.ChanType); return ok }

func (r *chanRewriter) block(b *ast.BlockStmt) {
	if b != nil {
		r.stmts(b.List)
	}
}

func (r *chanRewriter) stmts(l []ast.Stmt) {
	for i := range l {
		l[i] = r.stmt(l[i], nil)
	}
}

func (r *chanRewriter) stmt(s ast.Stmt, label *ast.Ident) ast.Stmt {
	switch x := s.(type) {
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok {
			r.gen(g)
		}
	case *ast.LabeledStmt:
		switch y := x.Stmt.(type) {
		case *ast.SelectStmt:
			return r.selectStmt(y, x.Label)
		case *ast.RangeStmt:
			if r.isChan(y.X) {
				x.Stmt = r.stmt(y, nil)
				return x
			}
		}
		x.Stmt = r.stmt(x.Stmt, nil)
	case *ast.ExprStmt:
		x.X = r.expr(x.X)
	case *ast.SendStmt:
		r.used = true
		c := zzCall("Send", r.expr(x.Chan))
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: c, Args: []ast.Expr{r.expr(x.Value)}}}
	case *ast.IncDecStmt:
		x.X = r.expr(x.X)
	case *ast.AssignStmt:
		r.exprs(x.Lhs)
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			x.Rhs[0] = r.pair(x.Rhs[0])
		} else {
			r.exprs(x.Rhs)
		}
	case *ast.GoStmt:
		x.Call = r.callExpr(x.Call)
	case *ast.DeferStmt:
		x.Call = r.callExpr(x.Call)
	case *ast.ReturnStmt:
		r.exprs(x.Results)
	case *ast.BlockStmt:
		r.block(x)
	case *ast.IfStmt:
		if x.Init != nil {
			x.Init = r.stmt(x.Init, nil)
		}
		x.Cond = r.expr(x.Cond)
		r.block(x.Body)
		if x.Else != nil {
			x.Else = r.stmt(x.Else, nil)
		}
	case *ast.SwitchStmt:
		if x.Init != nil {
			x.Init = r.stmt(x.Init, nil)
		}
		if x.Tag != nil {
			x.Tag = r.expr(x.Tag)
		}
		r.block(x.Body)
	case *ast.TypeSwitchStmt:
		if x.Init != nil {
			x.Init = r.stmt(x.Init, nil)
		}
		x.Assign = r.stmt(x.Assign, nil)
		r.block(x.Body)
	case *ast.CaseClause:
		r.exprs(x.List)
		r.stmts(x.Body)
	case *ast.ForStmt:
		if x.Init != nil {
			x.Init = r.stmt(x.Init, nil)
		}
		if x.Cond != nil {
			x.Cond = r.expr(x.Cond)
		}
		if x.Post != nil {
			x.Post = r.stmt(x.Post, nil)
		}
		r.block(x.Body)
	case *ast.RangeStmt:
		if r.isChan(x.X) {
			return r.rangeStmt(x)
		}
		if x.Key != nil {
			x.Key = r.expr(x.Key)
		}
		if x.Value != nil {
			x.Value = r.expr(x.Value)
		}
		x.X = r.expr(x.X)
		r.block(x.Body)
	case *ast.SelectStmt:
		return r.selectStmt(x, nil)
	}
	return s
}

func (r *chanRewriter) callExpr(c *ast.CallExpr) *ast.CallExpr {
	n, ok := r.expr(c).(*ast.CallExpr)
	if !ok {
		r.fail = "uses channels in a way that is not understood"
		return c
	}
	return n
}

func define(tok token.Token, rhs ast.Expr, lhs ...ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: lhs, Tok: tok, Rhs: []ast.Expr{rhs}}
}

// rangeStmt: for c := x; ; { v, ok := Recv2(c); if !ok { break }; body }
func (r *chanRewriter) rangeStmt(x *ast.RangeStmt) ast.Stmt {
	r.used = true
	c, ok := r.fresh("c"), r.fresh("ok")
	var pre []ast.Stmt
	recv := zzCall("Recv2", ast.NewIdent(c))
	switch {
	case x.Key == nil:
		pre = append(pre, define(token.DEFINE, recv, ast.NewIdent("_"), ast.NewIdent(ok)))
	case x.Tok == token.DEFINE:
		pre = append(pre, define(token.DEFINE, recv, x.Key, ast.NewIdent(ok)))
	default:
		pre = append(pre, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent(ok)}, Type: ast.NewIdent("bool")}}}},
			define(token.ASSIGN, recv, r.expr(x.Key), ast.NewIdent(ok)))
	}
	pre = append(pre, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
	r.block(x.Body)
	body := &ast.BlockStmt{List: append(pre, x.Body)}
	return &ast.ForStmt{Init: define(token.DEFINE, r.expr(x.X), ast.NewIdent(c)), Body: body}
}

func (r *chanRewriter) selectStmt(x *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	r.used = true
	if len(x.Body.List) == 0 {
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{zzCall("Forever")}}}
	}
	var out []ast.Stmt
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	call := zzCall("Select")
	hasDefault := "false"
	n := 0
	for _, cl := range x.Body.List {
		cc := cl.(*ast.CommClause)
		body := &ast.CaseClause{}
		if cc.Comm == nil {
			hasDefault = "true"
			r.stmts(cc.Body)
			body.Body = cc.Body
			sw.Body.List = append(sw.Body.List, body)
			continue
		}
		id := r.fresh("case")
		var mk ast.Expr
		var pre []ast.Stmt
		recv := func(e ast.Expr) bool {
			for {
				p, ok := e.(*ast.ParenExpr)
				if !ok {
					break
				}
				e = p.X
			}
			u, ok := e.(*ast.UnaryExpr)
			if !ok || u.Op != token.ARROW {
				r.fail = "uses channels in a way that is not understood"
				return false
			}
			mk = zzCall("CaseRecv", r.expr(u.X))
			return true
		}
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			mk = &ast.CallExpr{Fun: zzCall("CaseSend", r.expr(c.Chan)), Args: []ast.Expr{r.expr(c.Value)}}
		case *ast.ExprStmt:
			if !recv(c.X) {
				return x
			}
		case *ast.AssignStmt:
			if len(c.Rhs) != 1 || !recv(c.Rhs[0]) {
				return x
			}
			got := []string{"Got", "Got2"}[len(c.Lhs)-1]
			r.exprs(c.Lhs)
			pre = append(pre, define(c.Tok, &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(id), Sel: ast.NewIdent(got)}}, c.Lhs...))
		}
		out = append(out, define(token.DEFINE, mk, ast.NewIdent(id)))
		call.Args = append(call.Args, ast.NewIdent(id))
		r.stmts(cc.Body)
		body.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(n)}}
		body.Body = append(pre, cc.Body...)
		sw.Body.List = append(sw.Body.List, body)
		n++
	}
	if hasDefault == "false" {
		// keeps the statement a terminating one
		sw.Body.List[len(sw.Body.List)-1].(*ast.CaseClause).List = nil
	}
	call.Args = append([]ast.Expr{ast.NewIdent(hasDefault)}, call.Args...)
	sw.Tag = call
	var last ast.Stmt = sw
	if label != nil {
		last = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	return &ast.BlockStmt{List: append(out, last)}
}
