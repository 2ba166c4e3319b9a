// Command mutate lists small syntactic mutants of Go files: one JSON object per line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Fn   string `json:"fn"`
	Off  int    `json:"off"`
	Old  string `json:"old"`
	New  string `json:"new"`
	Op   string `json:"op"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, p := range os.Args[1:] {
		src, err := os.ReadFile(p)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			continue
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			continue
		}
		off := func(x token.Pos) int { return fset.Position(x).Offset }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			emit := func(op string, a, b token.Pos, repl string) {
				o, e := off(a), off(b)
				if string(src[o:e]) == repl {
					return
				}
				enc.Encode(mut{p, fset.Position(a).Line, fd.Name.Name, o, string(src[o:e]), repl, op})
			}
			del := func(l []ast.Stmt) {
				for _, s := range l {
					switch x := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt, *ast.DeferStmt:
						emit("delete", s.Pos(), s.End(), "")
					case *ast.AssignStmt:
						if x.Tok != token.DEFINE {
							emit("delete", s.Pos(), s.End(), "")
						}
					case *ast.IfStmt:
						if x.Else == nil {
							emit("delete-if", s.Pos(), s.End(), "")
						}
					}
				}
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BlockStmt:
					del(x.List)
				case *ast.CaseClause:
					del(x.Body)
					if x.List != nil {
						emit("delete-case", x.Pos(), x.End(), "")
					}
				case *ast.BinaryExpr:
					var r []string
					switch x.Op {
					case token.LSS:
						r = []string{"<="}
					case token.LEQ:
						r = []string{"<"}
					case token.GTR:
						r = []string{">="}
					case token.GEQ:
						r = []string{">"}
					case token.EQL:
						r = []string{"!="}
					case token.NEQ:
						r = []string{"=="}
					case token.LAND:
						r = []string{"||"}
						emit("left", x.Pos(), x.End(), string(src[off(x.X.Pos()):off(x.X.End())]))
						emit("right", x.Pos(), x.End(), string(src[off(x.Y.Pos()):off(x.Y.End())]))
					case token.LOR:
						r = []string{"&&"}
						emit("left", x.Pos(), x.End(), string(src[off(x.X.Pos()):off(x.X.End())]))
						emit("right", x.Pos(), x.End(), string(src[off(x.Y.Pos()):off(x.Y.End())]))
					case token.ADD:
						r = []string{"-"}
					case token.SUB:
						r = []string{"+"}
					}
					for _, s := range r {
						emit("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s)
					}
				case *ast.AssignStmt:
					if x.Tok == token.ADD_ASSIGN {
						emit("op", x.TokPos, x.TokPos+2, "=")
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							emit("int", x.Pos(), x.End(), fmt.Sprint(v+1))
							if v > 0 {
								emit("int", x.Pos(), x.End(), fmt.Sprint(v-1))
							}
						}
					}
				case *ast.Ident:
					if x.Name == "true" {
						emit("bool", x.Pos(), x.End(), "false")
					} else if x.Name == "false" {
						emit("bool", x.Pos(), x.End(), "true")
					}
				case *ast.ReturnStmt:
					for _, e := range x.Results {
						if id, ok := e.(*ast.Ident); ok && id.Name == "err" {
							emit("noerr", e.Pos(), e.End(), "nil")
						}
					}
				}
				return true
			})
		}
	}
}
