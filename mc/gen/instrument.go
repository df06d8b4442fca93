package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const modPath = "github.com/alexander-yu/stream"
const zz = modPath + "/zzverif/"

var swap = map[string]string{
	"sync":         zz + "vsync",
	"sync/atomic":  zz + "vatomic",
	"math/rand":    zz + "vrand",
	"math/rand/v2": zz + "vrand2",
}
var baseName = map[string]string{"sync": "sync", "sync/atomic": "atomic", "math/rand": "rand", "math/rand/v2": "rand"}

// instrument writes copies of the sources under check in which package sync,
// sync/atomic, math/rand and the go statement are replaced, plus functions that
// restore all package-level variables, and registers the copies in the overlay.
func instrument(repl map[string]string) {
	dir := filepath.Join(*out, "inst")
	unsupported := ""
	type pkgInfo struct {
		dir, imp, name string
		resets         int
	}
	pkgs := map[string]*pkgInfo{}
	type parsed struct {
		p, rel string
		src    []byte
		f      *ast.File
		pi     *pkgInfo
	}
	var files []*parsed
	byDir := map[string][]*ast.File{}
	fset := token.NewFileSet()
	for _, p := range goFiles() {
		rel, _ := filepath.Rel(*repo, p)
		src, err := os.ReadFile(p)
		if err != nil {
			fatal(err)
		}
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		if err != nil {
			fatal("parse:", err)
		}
		if f.Name.Name == "main" {
			continue
		}
		d := filepath.Dir(p)
		pi := pkgs[d]
		if pi == nil {
			rd := filepath.Dir(rel)
			imp := modPath
			if rd != "." {
				imp += "/" + filepath.ToSlash(rd)
			}
			pi = &pkgInfo{dir: d, imp: imp, name: f.Name.Name}
			pkgs[d] = pi
		}
		files = append(files, &parsed{p, rel, src, f, pi})
		byDir[d] = append(byDir[d], f)
	}
	infos := map[string]*types.Info{}
	for _, x := range files {
		p, rel, src, f, pi := x.p, x.rel, x.src, x.f, x.pi
		if u := blocking(f); u != "" {
			unsupported = fmt.Sprintf("%s: %s", rel, u)
		}
		usesChans := false
		if channels(byDir[pi.dir]) {
			if *nochan {
				unsupported = "channels"
			} else {
				if infos[pi.dir] == nil {
					infos[pi.dir] = typeInfo(fset, byDir[pi.dir])
				}
				r := &chanRewriter{chanInfo: chanInfo{infos[pi.dir]}}
				usesChans = r.file(f)
				if r.fail != "" {
					unsupported = fmt.Sprintf("%s: %s", rel, r.fail)
				}
				if usesChans {
					// comments have lost their places
					var keep []*ast.CommentGroup
					for _, c := range f.Comments {
						if c.End() < f.Package {
							keep = append(keep, c)
						}
					}
					f.Comments = keep
				}
			}
		}
		changed := rewrite(f, usesChans)
		var extra bytes.Buffer
		if body := resets(f, fset, src); body != "" {
			fmt.Fprintf(&extra, "\nfunc zzReset%d() {\n%s}\n", pi.resets, body)
			pi.resets++
			changed = true
		}
		if !changed {
			continue
		}
		var b bytes.Buffer
		if err := format.Node(&b, fset, f); err != nil {
			fatal("print:", err)
		}
		b.Write(extra.Bytes())
		dst := filepath.Join(dir, rel)
		os.MkdirAll(filepath.Dir(dst), 0o755)
		if err := os.WriteFile(dst, b.Bytes(), 0o644); err != nil {
			fatal(err)
		}
		repl[p] = dst
	}
	var imports, calls string
	var keys []string
	for k := range pkgs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for i, k := range keys {
		pi := pkgs[k]
		if pi.resets == 0 {
			continue
		}
		var b bytes.Buffer
		fmt.Fprintf(&b, "package %s\n\n// ZzReset restores the package-level variables.\nfunc ZzReset() {\n", pi.name)
		for j := 0; j < pi.resets; j++ {
			fmt.Fprintf(&b, "\tzzReset%d()\n", j)
		}
		fmt.Fprintf(&b, "}\n")
		dst := filepath.Join(dir, fmt.Sprintf("zzreset_%d.go", i))
		os.MkdirAll(dir, 0o755)
		if err := os.WriteFile(dst, b.Bytes(), 0o644); err != nil {
			fatal(err)
		}
		repl[filepath.Join(pi.dir, "zz_verif_reset.go")] = dst
		imports += fmt.Sprintf("\tzz%d %q\n", i, pi.imp)
		calls += fmt.Sprintf("\tzz%d.ZzReset()\n", i)
	}
	g := "package main\n\n"
	if imports != "" {
		g += "import (\n" + imports + ")\n\n"
	}
	g += "func resetAll() {\n" + calls + "}\n\n"
	g += fmt.Sprintf("const unsupported = %q\n", unsupported)
	dst := filepath.Join(dir, "zz_resets.go")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(dst, []byte(g), 0o644); err != nil {
		fatal(err)
	}
	repl[filepath.Join(*repo, "zzverif", "conc", "zz_resets.go")] = dst
}

// harnessCopy registers a copy of a harness file with the imports replaced.
func harnessCopy(repl map[string]string, src, dst string) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, src, nil, parser.ParseComments)
	if err != nil {
		fatal("parse:", err)
	}
	swapImports(f, map[string]string{"math/rand": zz + "vrand"})
	var b bytes.Buffer
	if err := format.Node(&b, fset, f); err != nil {
		fatal("print:", err)
	}
	o := filepath.Join(*out, "inst-harness", filepath.Base(src))
	os.MkdirAll(filepath.Dir(o), 0o755)
	if err := os.WriteFile(o, b.Bytes(), 0o644); err != nil {
		fatal(err)
	}
	repl[dst] = o
}

func swapImports(f *ast.File, m map[string]string) bool {
	changed := false
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		to, ok := m[path]
		if !ok {
			continue
		}
		if im.Name == nil {
			im.Name = ast.NewIdent(baseName[path])
		}
		im.Path.Value = strconv.Quote(to)
		im.EndPos = 0
		changed = true
	}
	return changed
}

func channels(fs []*ast.File) bool {
	r := false
	for _, f := range fs {
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ChanType, *ast.SelectStmt, *ast.SendStmt:
				r = true
			case *ast.UnaryExpr:
				r = r || x.Op == token.ARROW
			}
			return !r
		})
	}
	return r
}

func blocking(f *ast.File) string {
	for _, im := range f.Imports {
		switch path, _ := strconv.Unquote(im.Path.Value); path {
		case "context", "golang.org/x/sync/errgroup", "golang.org/x/sync/semaphore", "golang.org/x/sync/singleflight", "os/signal":
			return "uses " + path
		}
	}
	return ""
}

func rewrite(f *ast.File, usesGo bool) bool {
	changed := swapImports(f, swap)
	n := 0
	var block func(list []ast.Stmt) []ast.Stmt
	conv := func(g *ast.GoStmt) ast.Stmt {
		usesGo = true
		// go fn(args) => { z0, z1 := args; vsync.Go(func() { fn(z0, z1) }) }
		call := g.Call
		var pre []ast.Stmt
		tmp := func(e ast.Expr) ast.Expr {
			switch x := e.(type) {
			case *ast.BasicLit:
				return e
			case *ast.Ident:
				if x.Name == "nil" || x.Name == "true" || x.Name == "false" {
					return e
				}
			case *ast.FuncLit:
				return e
			}
			id := ast.NewIdent(fmt.Sprintf("zzgo%d", n))
			n++
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
			return ast.NewIdent(id.Name)
		}
		fun := call.Fun
		switch x := fun.(type) {
		case *ast.FuncLit, *ast.Ident:
		case *ast.SelectorExpr:
			fun = tmp(x)
		default:
			fun = tmp(x)
		}
		nc := &ast.CallExpr{Fun: fun}
		for _, a := range call.Args {
			nc.Args = append(nc.Args, tmp(a))
		}
		if call.Ellipsis.IsValid() {
			nc.Ellipsis = 1
		}
		lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}}}
		goCall := &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("zzvsync"), Sel: ast.NewIdent("Go")}, Args: []ast.Expr{lit}}}
		return &ast.BlockStmt{List: append(pre, goCall)}
	}
	block = func(list []ast.Stmt) []ast.Stmt {
		for i, st := range list {
			if l, ok := st.(*ast.LabeledStmt); ok {
				if g, ok := l.Stmt.(*ast.GoStmt); ok {
					l.Stmt = conv(g)
				}
			}
			if g, ok := st.(*ast.GoStmt); ok {
				list[i] = conv(g)
			}
		}
		return list
	}
	ast.Inspect(f, func(nd ast.Node) bool {
		switch x := nd.(type) {
		case *ast.BlockStmt:
			x.List = block(x.List)
		case *ast.CaseClause:
			x.Body = block(x.Body)
		case *ast.CommClause:
			x.Body = block(x.Body)
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok && id.Name == "runtime" && x.Sel.Name == "Gosched" && id.Obj == nil {
				id.Name = "zzvsync"
				usesGo = true
				f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent("runtime"), Sel: ast.NewIdent("NumCPU")}}}}})
			}
		}
		return true
	})
	if usesGo {
		spec := &ast.ImportSpec{Name: ast.NewIdent("zzvsync"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(zz + "vsync")}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
		changed = true
	}
	return changed
}

// resets lists assignments that restore the package-level variables of a file.
func resets(f *ast.File, fset *token.FileSet, src []byte) string {
	var b strings.Builder
	text := func(e ast.Expr) string {
		var o bytes.Buffer
		if err := format.Node(&o, fset, e); err != nil {
			fatal("print:", err)
		}
		return o.String()
	}
	inits := 0
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			if x.Recv == nil && x.Name.Name == "init" {
				// init bodies run again through a named copy
				x.Name = ast.NewIdent(fmt.Sprintf("zzInit%d_%s", inits, strings.TrimSuffix(filepath.Base(fset.Position(f.Pos()).Filename), ".go")))
				x.Name.Name = strings.Map(func(r rune) rune {
					if r == '-' || r == '.' {
						return '_'
					}
					return r
				}, x.Name.Name)
				fmt.Fprintf(&b, "\t%s()\n", x.Name.Name)
				inits++
			}
		case *ast.GenDecl:
			if x.Tok != token.VAR {
				continue
			}
			for _, sp := range x.Specs {
				v := sp.(*ast.ValueSpec)
				var names []string
				blank := true
				for _, n := range v.Names {
					names = append(names, n.Name)
					if n.Name != "_" {
						blank = false
					}
				}
				if blank {
					continue
				}
				switch {
				case len(v.Values) == 0:
					for _, n := range names {
						if n != "_" {
							fmt.Fprintf(&b, "\t%s = *new(%s)\n", n, text(v.Type))
						}
					}
				case len(v.Values) == 1:
					fmt.Fprintf(&b, "\t%s = %s\n", strings.Join(names, ", "), text(v.Values[0]))
				default:
					for i, n := range names {
						if n != "_" {
							fmt.Fprintf(&b, "\t%s = %s\n", n, text(v.Values[i]))
						}
					}
				}
			}
		}
	}
	if inits > 0 {
		var calls strings.Builder
		for _, l := range strings.Split(b.String(), "\n") {
			if strings.Contains(l, "zzInit") {
				calls.WriteString(l + "\n")
			}
		}
		f.Decls = append(f.Decls, &ast.FuncDecl{Name: ast.NewIdent("init"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: callList(calls.String())}})
	}
	return b.String()
}

func callList(src string) []ast.Stmt {
	var r []ast.Stmt
	for _, l := range strings.Fields(src) {
		r = append(r, &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent(strings.TrimSuffix(l, "()"))}})
	}
	return r
}
