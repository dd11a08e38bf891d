// instr copies Go files with a scheduling point before every statement.
//
// usage: instr OUTDIR FILE...   prints one line "FILE\tCOPY" per file.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
)

const vs = "github.com/way-platform/tachograph-go/internal/verifmc/vs"

func main() {
	out := os.Args[1]
	for i, f := range os.Args[2:] {
		src, err := os.ReadFile(f)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, f, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		at := map[int]bool{}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		list := func(l []ast.Stmt) {
			for _, s := range l {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
					continue
				}
				at[off(s.Pos())] = true
			}
		}
		ast.Inspect(file, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			case *ast.CommClause:
				list(x.Body)
			}
			return true
		})
		if len(at) == 0 {
			continue
		}
		var pos []int
		for p := range at {
			pos = append(pos, p)
		}
		sort.Ints(pos)
		var b []byte
		last := off(file.Name.End())
		b = append(b, src[:last]...)
		b = append(b, "; import verifsched \""+vs+"\""...)
		for _, p := range pos {
			b = append(b, src[last:p]...)
			b = append(b, "verifsched.P();"...)
			last = p
		}
		b = append(b, src[last:]...)
		name := filepath.Join(out, fmt.Sprintf("i%d_%s", i, filepath.Base(f)))
		if err := os.WriteFile(name, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		fmt.Printf("%s\t%s\n", f, name)
	}
}
