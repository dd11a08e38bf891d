// mutate lists small changes to Go files, for trying out the checks.
//
// usage: mutate REPO DEADLIST FILE...   prints one JSON object per change:
// file, line, function, byte range, replacement and what it is.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mutant struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
	From int    `json:"from"`
	To   int    `json:"to"`
	New  string `json:"new"`
	What string `json:"what"`
}

var ops = map[token.Token][]string{
	token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"*"}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"},
}

func main() {
	repo := os.Args[1]
	dead := map[string]bool{}
	b, _ := os.ReadFile(os.Args[2])
	for _, l := range strings.Fields(string(b)) {
		dead[l] = true
	}
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[3:] {
		src, err := os.ReadFile(filepath.Join(repo, f))
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		for _, d := range file.Decls {
			name := ""
			if fn, ok := d.(*ast.FuncDecl); ok {
				name = fn.Name.Name
				if dead[f+":"+strconv.Itoa(fset.Position(fn.Pos()).Line)] {
					continue
				}
			}
			put := func(from, to token.Pos, repl, what string) {
				p := fset.Position(from)
				enc.Encode(mutant{f, p.Line, name, p.Offset, fset.Position(to).Offset, repl, what})
			}
			text := func(n ast.Node) string {
				return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
			}
			var visit func(n ast.Node) bool
			visit = func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.ImportSpec:
					return false
				case *ast.CallExpr:
					// Texts of errors do not matter.
					if s := text(x.Fun); s == "fmt.Errorf" || s == "errors.New" || s == "fmt.Sprintf" {
						return false
					}
				case *ast.BinaryExpr:
					for _, o := range ops[x.Op] {
						if x.Op == token.ADD && strings.Contains(text(x), `"`) {
							continue
						}
						put(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, x.Op.String()+" -> "+o+" in "+text(x))
					}
				case *ast.IfStmt:
					if s := text(x.Cond); s != "err != nil" {
						put(x.Cond.Pos(), x.Cond.End(), "("+s+") && false", "never: if "+s)
						put(x.Cond.Pos(), x.Cond.End(), "("+s+") || true", "always: if "+s)
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							put(x.Pos(), x.End(), fmt.Sprint(v+1), x.Value+" -> +1")
							if v > 0 {
								put(x.Pos(), x.End(), fmt.Sprint(v-1), x.Value+" -> -1")
							}
						}
					}
				case *ast.Ident:
					if x.Name == "true" || x.Name == "false" {
						r := "true"
						if x.Name == "true" {
							r = "false"
						}
						put(x.Pos(), x.End(), r, x.Name+" -> "+r)
					}
				case *ast.BlockStmt:
					for _, s := range x.List {
						del(s, put, text)
					}
				case *ast.CaseClause:
					for _, s := range x.Body {
						del(s, put, text)
					}
				}
				return true
			}
			ast.Inspect(d, visit)
		}
	}
}

func del(s ast.Stmt, put func(a, b token.Pos, r, w string), text func(ast.Node) string) {
	switch x := s.(type) {
	case *ast.ExprStmt:
		put(s.Pos(), s.End(), "_ = 0", "delete "+text(s))
	case *ast.AssignStmt:
		if x.Tok != token.DEFINE {
			r := ""
			for _, e := range x.Rhs {
				r += "_ = " + text(e) + "; "
			}
			if len(x.Lhs) != len(x.Rhs) {
				return
			}
			put(s.Pos(), s.End(), r, "delete "+text(s))
		}
	case *ast.IncDecStmt:
		put(s.Pos(), s.End(), "_ = 0", "delete "+text(s))
	case *ast.BranchStmt:
		if x.Tok == token.CONTINUE {
			put(s.Pos(), s.End(), "break", "continue -> break")
		} else if x.Tok == token.BREAK && x.Label == nil {
			put(s.Pos(), s.End(), "_ = 0", "delete break")
		}
	}
}
