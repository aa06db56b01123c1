// xinst rewrites the library's sources for controlled runs and prints a build overlay:
//
//	map iteration asks xsched for the order,
//	sync is replaced by xsync,
//	every statement is preceded by a scheduling point.
//
// It works on the syntax tree and the types, not on the text.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

func main() {
	repo, out := os.Args[1], os.Args[2]
	points := strings.Contains(os.Args[3], "points")
	maps := strings.Contains(os.Args[3], "maps")
	syncs := strings.Contains(os.Args[3], "sync")
	fset := token.NewFileSet()
	names, _ := filepath.Glob(filepath.Join(repo, "*.go"))
	var files []*ast.File
	var paths []string
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fset, n, nil, 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		files = append(files, f)
		paths = append(paths, n)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "source", nil), Error: func(error) {}}
	pkg, err := conf.Check("github.com/cnsgfk/xbnf", fset, files, info)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	repl := map[string]string{}
	stats := map[string]int{}
	for i, f := range files {
		r := &rewriter{info: info, pkg: pkg, points: points, maps: maps, stats: stats}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
				r.block(fd.Body)
			}
		}
		// function literals in package variables
		for _, d := range f.Decls {
			if gd, ok := d.(*ast.GenDecl); ok {
				r.exprs(gd)
			}
		}
		if syncs {
			for _, im := range f.Imports {
				if p, _ := strconv.Unquote(im.Path.Value); p == "sync" {
					if im.Name == nil {
						im.Name = ast.NewIdent("sync")
					}
					im.Path.Value = strconv.Quote("xmc/xsync")
					stats["sync imports"]++
				}
			}
		}
		if r.used {
			spec := &ast.ImportSpec{Name: ast.NewIdent("xsched"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote("xmc/xsched")}}
			gd := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
			f.Decls = append([]ast.Decl{gd}, f.Decls...)
		}
		name := filepath.Join(out, filepath.Base(paths[i]))
		w, err := os.Create(name)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		if err := (&printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}).Fprint(w, token.NewFileSet(), f); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		w.Close()
		repl[paths[i]] = name
	}
	for _, a := range os.Args[4:] { // extra files: /repo/x.go=/tmp/x.go
		p := strings.SplitN(a, "=", 2)
		repl[p[0]] = p[1]
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644)
	fmt.Fprintln(os.Stderr, "instrumented:", stats)
}

type rewriter struct {
	info         *types.Info
	pkg          *types.Package
	points, maps bool
	used         bool
	stats        map[string]int
	n            int
}

func call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("xsched"), Sel: ast.NewIdent(name)}, Args: args}
}

// exprs instruments the function literals below n.
func (r *rewriter) exprs(n ast.Node) {
	if n == nil {
		return
	}
	ast.Inspect(n, func(x ast.Node) bool {
		if fl, ok := x.(*ast.FuncLit); ok {
			r.block(fl.Body)
			return false
		}
		return true
	})
}

func (r *rewriter) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = r.list(b.List)
	}
}

func (r *rewriter) list(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		if r.points {
			switch s.(type) {
			case *ast.EmptyStmt:
			default:
				out = append(out, &ast.ExprStmt{X: call("Point")})
				r.used = true
				r.stats["points"]++
			}
		}
		out = append(out, r.stmt(s))
	}
	return out
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case *ast.BlockStmt:
		r.block(x)
	case *ast.IfStmt:
		r.part(x.Init)
		r.exprs(x.Cond)
		r.block(x.Body)
		if x.Else != nil {
			x.Else = r.stmt(x.Else)
		}
	case *ast.ForStmt:
		r.part(x.Init)
		if x.Cond != nil {
			r.exprs(x.Cond)
		}
		r.part(x.Post)
		r.block(x.Body)
	case *ast.RangeStmt:
		r.exprs(x.X)
		isMap := false
		var key types.Type
		if tv, ok := r.info.Types[x.X]; ok && r.maps {
			if m, ok := tv.Type.Underlying().(*types.Map); ok {
				isMap, key = true, m.Key()
			}
		}
		r.block(x.Body)
		if isMap {
			r.rangeMap(x, key)
		}
	case *ast.SwitchStmt:
		r.part(x.Init)
		if x.Tag != nil {
			r.exprs(x.Tag)
		}
		r.clauses(x.Body)
	case *ast.TypeSwitchStmt:
		r.part(x.Init)
		r.clauses(x.Body)
	case *ast.SelectStmt:
		r.clauses(x.Body)
	case *ast.LabeledStmt:
		x.Stmt = r.stmt(x.Stmt)
	default:
		r.exprs(s)
	}
	return s
}

func (r *rewriter) part(s ast.Stmt) {
	if s != nil {
		r.exprs(s)
	}
}

func (r *rewriter) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		switch x := c.(type) {
		case *ast.CaseClause:
			for _, e := range x.List {
				r.exprs(e)
			}
			x.Body = r.list(x.Body)
		case *ast.CommClause:
			x.Body = r.list(x.Body)
		}
	}
}

// rangeMap turns "for k, v := range m" into a loop over the keys in a chosen order.
func (r *rewriter) rangeMap(x *ast.RangeStmt, key types.Type) {
	switch x.X.(type) {
	case *ast.Ident, *ast.SelectorExpr:
	default:
		r.stats["map ranges left"]++
		return
	}
	qual := func(p *types.Package) string {
		if p == r.pkg {
			return ""
		}
		return p.Name()
	}
	kt, err := parser.ParseExpr("[]" + types.TypeString(key, qual))
	if err != nil {
		r.stats["map ranges left"]++
		return
	}
	r.n++
	m := x.X
	k := ast.NewIdent(fmt.Sprintf("xschedK%d", r.n))
	ok := ast.NewIdent(fmt.Sprintf("xschedOK%d", r.n))
	blank := func(e ast.Expr) bool {
		id, is := e.(*ast.Ident)
		return e == nil || is && id.Name == "_"
	}
	var pre []ast.Stmt
	pre = append(pre,
		&ast.IfStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), ok}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: m, Index: k}}},
			Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
	if !blank(x.Key) {
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: x.Tok, Rhs: []ast.Expr{k}})
		if x.Tok == token.DEFINE {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{x.Key}})
		}
	}
	if !blank(x.Value) {
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{x.Value}, Tok: x.Tok, Rhs: []ast.Expr{&ast.IndexExpr{X: m, Index: k}}})
		if x.Tok == token.DEFINE {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{x.Value}})
		}
	}
	x.Body.List = append(pre, x.Body.List...)
	x.Key, x.Value, x.Tok = ast.NewIdent("_"), k, token.DEFINE
	x.X = &ast.TypeAssertExpr{X: call("Keys", m), Type: kt}
	r.used = true
	r.stats["map ranges"]++
}
