package main

import (
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// countSteps writes copies of the sources in which every function entry and
// every loop iteration is counted, in the code under check and in the standard
// packages that hold data structures and algorithms.
func countSteps(repl map[string]string) {
	n := 0
	put := func(f, txt string) {
		n++
		c := filepath.Join(*out, fmt.Sprintf("w%d_%s", n, filepath.Base(f)))
		if err := os.WriteFile(c, []byte(txt), 0o644); err != nil {
			fatal(err)
		}
		repl[f] = c
	}
	mod := "github.com/alexander-yu/stream"
	for _, f := range goFiles() {
		if txt, ok := counted(f, "zzwcount.N++", `; import zzwcount "`+mod+`/zzverif/wcount"`, true); ok {
			put(f, txt)
		}
	}
	b, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		fatal(err)
	}
	root := strings.TrimSpace(string(b))
	for _, pkg := range []string{"slices", "sort", "container/heap", "container/list", "container/ring"} {
		dir := filepath.Join(root, "src", pkg)
		fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			if txt, ok := counted(f, "ZZSteps++", "", false); ok {
				put(f, txt)
			}
		}
		put(filepath.Join(dir, "zzsteps.go"), "package "+filepath.Base(pkg)+"\n\n// ZZSteps counts steps.\nvar ZZSteps int64\n")
	}
}

func counted(file, stmt, imp string, lens bool) (string, bool) {
	src, err := os.ReadFile(file)
	if err != nil {
		return "", false
	}
	fset := token.NewFileSet()
	af, err := parser.ParseFile(fset, file, src, parser.ParseComments)
	if err != nil {
		return "", false
	}
	for _, g := range af.Comments {
		for _, c := range g.List {
			if c.Pos() < af.Package && constraint.IsGoBuild(c.Text) && strings.Contains(c.Text, "ignore") {
				return "", false
			}
		}
	}
	type ins struct {
		off int
		txt string
		ord int
	}
	var is []ins
	at := func(p token.Pos, txt string) {
		is = append(is, ins{fset.Position(p).Offset, txt, len(is)})
	}
	body := func(b *ast.BlockStmt) {
		if b != nil {
			at(b.Lbrace+1, " "+stmt+"; ")
		}
	}
	shadowed := map[string]bool{}
	ast.Inspect(af, func(n ast.Node) bool {
		if d, ok := n.(*ast.FuncDecl); ok && d.Recv == nil {
			shadowed[d.Name.Name] = true
		}
		return true
	})
	ast.Inspect(af, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			body(x.Body)
		case *ast.FuncLit:
			body(x.Body)
		case *ast.ForStmt:
			body(x.Body)
		case *ast.RangeStmt:
			body(x.Body)
		case *ast.CallExpr:
			id, ok := x.Fun.(*ast.Ident)
			if !lens || !ok || shadowed[id.Name] {
				return true
			}
			wrap := func(e ast.Expr) {
				if i, ok := e.(*ast.Ident); ok && i.Name == "nil" {
					return
				}
				at(e.Pos(), "zzwcount.L(")
				at(e.End(), ")")
			}
			switch {
			case id.Name == "copy" && len(x.Args) == 2:
				wrap(x.Args[0])
			case id.Name == "append" && x.Ellipsis.IsValid() && len(x.Args) == 2:
				wrap(x.Args[1])
			case id.Name == "make" && len(x.Args) >= 2:
				wrap(x)
			}
		}
		return true
	})
	if imp != "" {
		at(af.Name.End(), imp)
	}
	if len(is) == 0 {
		return "", false
	}
	// at one offset closing parentheses come first
	sort.SliceStable(is, func(i, j int) bool {
		if is[i].off != is[j].off {
			return is[i].off < is[j].off
		}
		a, b := is[i].txt == ")", is[j].txt == ")"
		if a != b {
			return a
		}
		return is[i].ord < is[j].ord
	})
	var b strings.Builder
	last := 0
	for _, i := range is {
		b.Write(src[last:i.off])
		b.WriteString(i.txt)
		last = i.off
	}
	b.Write(src[last:])
	if imp != "" {
		b.WriteString("\nvar _ = zzwcount.N\n")
	}
	return b.String(), true
}
