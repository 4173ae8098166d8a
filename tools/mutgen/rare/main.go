// rare lists changes that need two conditions at once (a condition of the code and one on another value in scope), as
// JSON lines for tools/mutate.py: cd /repo && rare ./...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
)

type mutant struct {
	File  string `json:"file"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	Text  string `json:"text"`
	Kind  string `json:"kind"`
	Line  int    `json:"line"`
}

var column = []string{"E.Size <= 255", "E.Size > 0", "E.Scale == 0", `E.DefaultValue == ""`, `E.Description == ""`, "!E.PrimaryKey", "!E.UniqueKey",
	"!E.NotNull", "E.NotNull", "!E.AutoIncremental", "E.Ref == nil", "len(E.Values) < 3", "len(E.Name) > 2", "len(E.Name) < 14", `E.OnUpdate == ""`,
	`E.Type != "int64"`, `E.Type != "varchar"`, `E.Type != "datetime"`, `E.Type != "decimal"`, `E.Type != "boolean"`, `E.Type != "enum"`, `E.Type != "text16"`,
	`(E.Ref == nil || E.Ref.Relationship != "1:1")`, `E.Type != "int8"`, `E.Type != "double"`, `E.Name != "id"`}
var table = []string{"len(E.Columns) < 7", "len(E.Columns) > 1", `E.Group != ""`, `E.Group == ""`, `E.ClassName == ""`, `E.Description == ""`, "len(E.Indices) < 2",
	"len(E.Indices) == 0", "E.PrimaryKeyNameSet().Size() < 2", "E.PrimaryKeyNameSet().Size() < 3", "E.PrimaryKeyNameSet().Size() > 0", "E.UniqueKeyNameSet().Size() < 2", "E.UniqueKeyNameSet().Size() > 0"}

func conds(name string, t types.Type, depth int) []string {
	var list []string
	s := t.String()
	switch {
	case strings.HasSuffix(s, "octopus.Column"):
		list = column
	case strings.HasSuffix(s, "octopus.Table"):
		list = table
	case s == "int":
		list = []string{"E < 4", "E != 1"}
	case s == "string":
		list = []string{"len(E) < 20", `E != ""`}
	case s == "bool":
		list = []string{"E", "!E"}
	default:
		if _, ok := t.Underlying().(*types.Slice); ok {
			list = []string{"len(E) < 4", "len(E) < 2"}
		} else if p, ok := t.(*types.Pointer); ok && depth == 0 {
			if st, ok := p.Elem().Underlying().(*types.Struct); ok {
				var out []string
				for i := 0; i < st.NumFields(); i++ {
					f := st.Field(i)
					ft := f.Type().String()
					if strings.HasSuffix(ft, "octopus.Column") || strings.HasSuffix(ft, "octopus.Table") || ft == "bool" || ft == "string" && f.Name() != "Name" {
						out = append(out, conds(name+"."+f.Name(), f.Type(), 1)...)
					}
				}
				return out
			}
		}
	}
	var out []string
	for _, c := range list {
		out = append(out, strings.ReplaceAll(c, "E", name))
		if strings.Contains(c, "E.E") {
			panic(c)
		}
	}
	return out
}

func main() {
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps}
	pkgs, err := packages.Load(cfg, os.Args[1:]...)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	for _, pkg := range pkgs {
		for _, f := range pkg.Syntax {
			file := pkg.Fset.Position(f.Pos()).Filename
			src, _ := os.ReadFile(file)
			off := func(p token.Pos) int { return pkg.Fset.Position(p).Offset }
			scope := pkg.Types.Scope()
			vars := func(pos token.Pos) []string {
				var out []string
				seen := map[string]bool{}
				for s := scope.Innermost(pos); s != nil && s != scope && s != pkg.TypesInfo.Scopes[f]; s = s.Parent() {
					for _, n := range s.Names() {
						o := s.Lookup(n)
						v, ok := o.(*types.Var)
						if !ok || o.Pos() >= pos || seen[n] || n == "_" || n == "err" {
							continue
						}
						seen[n] = true
						out = append(out, conds(n, v.Type(), 0)...)
					}
				}
				return out
			}
			emit := func(a, b token.Pos, t, kind string) {
				enc.Encode(mutant{file, off(a), off(b), t, kind, pkg.Fset.Position(a).Line})
			}
			text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			ast.Inspect(f, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.IfStmt:
					if strings.Contains(text(x.Cond), "err ") {
						return true
					}
					for _, c := range vars(x.Cond.Pos()) {
						emit(x.Cond.Pos(), x.Cond.End(), fmt.Sprintf("(%s) && %s", text(x.Cond), c), "and")
						emit(x.Cond.Pos(), x.Cond.End(), fmt.Sprintf("(%s) || !(%s)", text(x.Cond), c), "or")
					}
				case *ast.AssignStmt:
					if x.Tok != token.ASSIGN && x.Tok != token.ADD_ASSIGN {
						return true
					}
					for _, c := range vars(x.Pos()) {
						emit(x.Pos(), x.End(), fmt.Sprintf("if %s { %s }", c, text(x)), "guard")
					}
				case *ast.ExprStmt:
					for _, c := range vars(x.Pos()) {
						emit(x.Pos(), x.End(), fmt.Sprintf("if %s { %s }", c, text(x)), "guard")
					}
				case *ast.RangeStmt:
					if _, ok := pkg.TypesInfo.TypeOf(x.X).Underlying().(*types.Slice); ok {
						emit(x.X.Pos(), x.X.End(), fmt.Sprintf("%s[:min(len(%s), 4)]", text(x.X), text(x.X)), "first4")
						emit(x.X.Pos(), x.X.End(), fmt.Sprintf("%s[max(0, len(%s)-6):]", text(x.X), text(x.X)), "last6")
					}
					for _, c := range vars(x.Body.Pos() + 1) {
						emit(x.Body.Lbrace, x.Body.Lbrace+1, fmt.Sprintf("{ if !(%s) { break };", c), "break")
					}
				}
				return true
			})
		}
	}
}
