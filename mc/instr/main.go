// Command instr rewrites the Go sources of a package for schedule
// exploration: package sync is replaced by vsync and a scheduling point is put
// before every statement. It writes the rewritten files and an overlay for
// 'go build -overlay'. Line numbers stay the same.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	pos, end int
	text     string
}

func main() {
	dir, out := os.Args[1], os.Args[2]
	files, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		panic(err)
	}
	replace := map[string]string{}
	total := 0
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		text, k, err := instrument(f, src)
		if err != nil {
			fmt.Fprintln(os.Stderr, "instr:", f, err)
			continue
		}
		total += k
		o := filepath.Join(out, filepath.Base(f))
		if err := os.WriteFile(o, text, 0o644); err != nil {
			panic(err)
		}
		replace[f] = o
	}
	data, _ := json.Marshal(map[string]any{"Replace": replace})
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), data, 0o644); err != nil {
		panic(err)
	}
	fmt.Printf("instrumented files=%d points=%d\n", len(replace), total)
}

func instrument(name string, src []byte) ([]byte, int, error) {
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, 0, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	points := 0
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			edits = append(edits, edit{off(s.Pos()), off(s.Pos()), "vsyncpt.Point(); "})
			points++
		}
	}
	for _, d := range file.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil || (fd.Recv == nil && fd.Name.Name == "init") {
			// package initialisation is never concurrent
			if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
				ast.Inspect(gd, func(x ast.Node) bool {
					if b, ok := x.(*ast.BlockStmt); ok {
						stmts(b.List)
					}
					return true
				})
			}
			continue
		}
		ast.Inspect(fd.Body, func(x ast.Node) bool {
			if b, ok := x.(*ast.GoStmt); ok {
				if fl, ok := b.Call.Fun.(*ast.FuncLit); ok && len(b.Call.Args) == 0 && fl.Type.Results == nil {
					edits = append(edits, edit{off(b.Pos()), off(fl.Pos()), "vsyncpt.Go("})
					edits = append(edits, edit{off(b.Call.Lparen), off(b.Call.Rparen) + 1, ")"})
				}
			}
			return true
		})
		var walk func(n ast.Node) bool
		walk = func(x ast.Node) bool {
			switch b := x.(type) {
			case *ast.SwitchStmt:
				clauses(b.Body, b.Init, b.Tag, walk, stmts)
				return false
			case *ast.TypeSwitchStmt:
				clauses(b.Body, b.Init, nil, walk, stmts)
				return false
			case *ast.SelectStmt:
				clauses(b.Body, nil, nil, walk, stmts)
				return false
			case *ast.BlockStmt:
				stmts(b.List)
			}
			return true
		}
		ast.Inspect(fd.Body, walk)
	}
	// imports
	for _, im := range file.Imports {
		if im.Path.Value == `"sync"` {
			text := `"averif/mc/vsync"`
			if im.Name == nil {
				text = `sync "averif/mc/vsync"`
			}
			edits = append(edits, edit{off(im.Path.Pos()), off(im.Path.End()), text})
		}
	}
	if points > 0 {
		edits = append(edits, edit{off(file.Name.End()), off(file.Name.End()), `; import vsyncpt "averif/mc/vsync"`})
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].pos < edits[j].pos })
	var b strings.Builder
	last := 0
	for _, e := range edits {
		if e.pos < last {
			return nil, 0, fmt.Errorf("overlapping edits at %d", e.pos)
		}
		b.Write(src[last:e.pos])
		b.WriteString(e.text)
		last = e.end
	}
	b.Write(src[last:])
	return []byte(b.String()), points, nil
}

func clauses(body *ast.BlockStmt, init ast.Stmt, tag ast.Expr, walk func(ast.Node) bool, stmts func([]ast.Stmt)) {
	if init != nil {
		ast.Inspect(init, walk)
	}
	if tag != nil {
		ast.Inspect(tag, walk)
	}
	for _, s := range body.List {
		switch cl := s.(type) {
		case *ast.CaseClause:
			stmts(cl.Body)
			for _, e := range cl.List {
				ast.Inspect(e, walk)
			}
			for _, st := range cl.Body {
				ast.Inspect(st, walk)
			}
		case *ast.CommClause:
			stmts(cl.Body)
			if cl.Comm != nil {
				ast.Inspect(cl.Comm, walk)
			}
			for _, st := range cl.Body {
				ast.Inspect(st, walk)
			}
		}
	}
}
