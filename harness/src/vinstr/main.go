// Command vinstr writes copies of Go source files with a call of vyield.Y
// before every statement of every function body, and a go build overlay that
// puts them in the place of the originals. The insertion is textual and keeps
// line numbers. Usage: vinstr OUTDIR PKGDIR...; prints the overlay as JSON.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	outDir := os.Args[1]
	replace := map[string]string{}
	site := 1
	for _, dir := range os.Args[2:] {
		names, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		sort.Strings(names)
		for _, name := range names {
			if strings.HasSuffix(name, "_test.go") {
				continue
			}
			src, err := os.ReadFile(name)
			if err != nil {
				continue
			}
			out, n, err := instrument(name, src, site)
			if err != nil || n == site {
				continue
			}
			site = n
			dst := filepath.Join(outDir, fmt.Sprintf("%d_%s", len(replace), filepath.Base(name)))
			if err := os.WriteFile(dst, out, 0644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			replace[name] = dst
		}
	}
	json.NewEncoder(os.Stdout).Encode(map[string]interface{}{"Replace": replace})
}

func instrument(name string, src []byte, site int) ([]byte, int, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, site, err
	}
	for _, imp := range f.Imports {
		if imp.Path.Value == `"C"` {
			return nil, site, nil
		}
	}
	type insertion struct {
		off  int
		text string
	}
	var ins []insertion
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			ins = append(ins, insertion{off(s.Pos()), fmt.Sprintf("verif_y.Y(%d); ", site)})
			site++
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if ok && (fd.Name.Name == "init" || fd.Body == nil) {
			continue
		}
		ast.Inspect(d, func(n ast.Node) bool {
			switch b := n.(type) {
			case *ast.BlockStmt:
				stmts(b.List)
			case *ast.CaseClause:
				stmts(b.Body)
			case *ast.CommClause:
				stmts(b.Body)
			}
			return true
		})
	}
	if len(ins) == 0 {
		return nil, site, nil
	}
	ins = append(ins, insertion{off(f.Name.End()), `; import verif_y "vharness/vyield"`})
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
	var out []byte
	prev := 0
	for _, i := range ins {
		out = append(out, src[prev:i.off]...)
		out = append(out, i.text...)
		prev = i.off
	}
	return append(out, src[prev:]...), site, nil
}
