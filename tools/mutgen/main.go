// mutgen lists small source changes (mutants) of Go files as JSON lines: {file, start, end, text, kind, line}.
// Development aid for tools/mutate.py.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	File  string `json:"file"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	Text  string `json:"text"`
	Kind  string `json:"kind"`
	Line  int    `json:"line"`
}

var swaps = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.GTR: {">=", "<"}, token.LEQ: {"<"}, token.GEQ: {">"},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(a, b token.Pos, t, kind string) {
			enc.Encode(mutant{name, off(a), off(b), t, kind, fset.Position(a).Line})
		}
		raw := func(a, b int, t, kind string, line int) { enc.Encode(mutant{name, a, b, t, kind, line}) }
		var stmts func(list []ast.Stmt)
		stmts = func(list []ast.Stmt) {
			for _, s := range list {
				switch x := s.(type) {
				case *ast.ExprStmt:
					emit(x.Pos(), x.End(), "_ = 0", "del-call")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						blank := "_ = 0"
						var names []string
						for range x.Lhs {
							names = append(names, "_")
						}
						if len(x.Rhs) == len(x.Lhs) || len(x.Rhs) == 1 {
							var r []string
							for _, e := range x.Rhs {
								r = append(r, text(e))
							}
							blank = strings.Join(names, ", ") + " = " + strings.Join(r, ", ")
						}
						emit(x.Pos(), x.End(), blank, "del-assign")
					}
				case *ast.IncDecStmt:
					emit(x.Pos(), x.End(), "_ = 0", "del-inc")
				case *ast.BranchStmt:
					if x.Label == nil && x.Tok == token.CONTINUE {
						emit(x.Pos(), x.End(), "break", "continue-break")
						emit(x.Pos(), x.End(), "_ = 0", "del-continue")
					} else if x.Label == nil && x.Tok == token.BREAK {
						emit(x.Pos(), x.End(), "_ = 0", "del-break")
					}
				case *ast.ReturnStmt:
					for _, r := range x.Results {
						if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
							emit(r.Pos(), r.End(), "nil", "return-nil")
						}
					}
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.Field:
				if x.Tag != nil {
					ast.Inspect(x.Type, func(ast.Node) bool { return true })
					return false
				}
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
				for i, e := range x.List {
					if len(x.List) > 1 {
						if i == 0 {
							emit(e.Pos(), x.List[1].Pos(), "", "del-case-value")
						} else {
							emit(x.List[i-1].End(), e.End(), "", "del-case-value")
						}
					}
				}
			case *ast.IfStmt:
				c := text(x.Cond)
				emit(x.Cond.Pos(), x.Cond.End(), "("+c+") && false", "if-false")
				emit(x.Cond.Pos(), x.Cond.End(), "("+c+") || true", "if-true")
			case *ast.BinaryExpr:
				for _, t := range swaps[x.Op] {
					raw(off(x.OpPos), off(x.OpPos)+len(x.Op.String()), t, "op "+x.Op.String()+" "+t, fset.Position(x.OpPos).Line)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x.Pos(), x.End(), text(x.X), "drop-right")
					emit(x.Pos(), x.End(), text(x.Y), "drop-left")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit(x.Pos(), x.End(), text(x.X), "drop-not")
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					if v, err := strconv.Atoi(x.Value); err == nil {
						emit(x.Pos(), x.End(), fmt.Sprint(v+1), "int+1")
					}
				case token.STRING:
					v, err := strconv.Unquote(x.Value)
					if err != nil {
						break
					}
					if strings.HasPrefix(x.Value, "`") && strings.Contains(v, "\n") {
						lines := strings.SplitAfter(x.Value, "\n")
						at := off(x.Pos())
						for _, l := range lines {
							if t := strings.TrimSpace(l); t != "" && !strings.Contains(l, "`") {
								raw(at, at+len(l), "", "tmpl-del-line "+t, fset.Position(x.Pos()).Line)
							}
							at += len(l)
						}
						break
					}
					if v == "" {
						emit(x.Pos(), x.End(), `"x"`, "str-x")
					} else {
						emit(x.Pos(), x.End(), `""`, "str-empty")
						if len(v) > 3 {
							emit(x.Pos(), x.End(), strconv.Quote(v[:len(v)-1]), "str-cut")
						}
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x.Pos(), x.End(), "false", "bool")
				} else if x.Name == "false" {
					emit(x.Pos(), x.End(), "true", "bool")
				}
			case *ast.CallExpr:
				if len(x.Args) >= 1 && x.Ellipsis == token.NoPos {
					emit(x.Pos(), x.End(), text(x.Args[0]), "unwrap "+text(x.Fun))
				}
				if len(x.Args) == 2 {
					emit(x.Args[0].Pos(), x.Args[1].End(), text(x.Args[1])+", "+text(x.Args[0]), "swap-args "+text(x.Fun))
				}
				if len(x.Args) >= 1 {
					if s, ok := x.Fun.(*ast.SelectorExpr); ok {
						switch s.Sel.Name {
						case "HasPrefix":
							emit(s.Sel.Pos(), s.Sel.End(), "HasSuffix", "call")
						case "EqualFold":
							emit(x.Pos(), x.End(), text(x.Args[0])+" == "+text(x.Args[1]), "fold")
						}
					}
				}
			case *ast.CompositeLit:
				for i, e := range x.Elts {
					a, b := e.Pos(), e.End()
					if i+1 < len(x.Elts) {
						b = x.Elts[i+1].Pos()
					}
					emit(a, b, "", "del-elem")
				}
			case *ast.SliceExpr:
				if x.Low != nil || x.High != nil {
					emit(x.Pos(), x.End(), text(x.X), "drop-slice")
				}
			}
			return true
		})
	}
}
