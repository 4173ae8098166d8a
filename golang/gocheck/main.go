// gocheck parses and type-checks one generated Go file against stubs of the packages
// GORM models use, and prints what it found as JSON.
//
//	gocheck FILE [stub source of structs outside the file]
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"strconv"
)

var stubs = map[string]string{
	"github.com/jinzhu/gorm": `package gorm
type Model struct { ID uint; CreatedAt int64; UpdatedAt int64; DeletedAt *int64 }`,
	"gorm.io/gorm": `package gorm
type Model struct { ID uint; CreatedAt int64; UpdatedAt int64; DeletedAt *int64 }`,
	"gopkg.in/guregu/null.v4": `package null
type String struct { S string }
type Bool struct { B bool }
type Int struct { I int64 }
type Float struct { F float64 }
type Time struct { T int64 }`,
	"github.com/shopspring/decimal": `package decimal
type Decimal struct { V int64 }
type NullDecimal struct { D Decimal; Valid bool }`,
	"time": `package time
type Time struct { W int64 }`,
	"encoding/json": `package json
type RawMessage []byte`,
}

type imp struct{ fset *token.FileSet }

func (m imp) Import(path string) (*types.Package, error) {
	src, ok := stubs[path]
	if !ok {
		return nil, fmt.Errorf("unknown package %s", path)
	}
	f, err := parser.ParseFile(m.fset, path+".go", src, 0)
	if err != nil {
		return nil, err
	}
	return (&types.Config{}).Check(path, m.fset, []*ast.File{f}, nil)
}

type Field struct {
	Name  string `json:"name"`
	Type  string `json:"type"`
	Tag   string `json:"tag"`
	Embed bool   `json:"embed"`
}
type Struct struct {
	Name      string  `json:"name"`
	Fields    []Field `json:"fields"`
	TableName *string `json:"table"`
	Receiver  string  `json:"receiver"`
}
type Out struct {
	Package string    `json:"package"`
	Imports []string  `json:"imports"`
	Structs []*Struct `json:"structs"`
	Errors  []string  `json:"errors"`
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	out := Out{Imports: []string{}, Structs: []*Struct{}, Errors: []string{}}
	f, err := parser.ParseFile(fset, "model.go", src, parser.ParseComments|parser.AllErrors)
	if err != nil {
		out.Errors = append(out.Errors, err.Error())
		json.NewEncoder(os.Stdout).Encode(out)
		return
	}
	out.Package = f.Name.Name
	by := map[string]*Struct{}
	text := func(n ast.Node) string {
		return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.ImportSpec:
					p, _ := strconv.Unquote(s.Path.Value)
					out.Imports = append(out.Imports, p)
				case *ast.TypeSpec:
					st, ok := s.Type.(*ast.StructType)
					if !ok {
						out.Errors = append(out.Errors, "type "+s.Name.Name+" is not a struct")
						continue
					}
					r := &Struct{Name: s.Name.Name, Fields: []Field{}}
					for _, fl := range st.Fields.List {
						tag := ""
						if fl.Tag != nil {
							tag, _ = strconv.Unquote(fl.Tag.Value)
						}
						if len(fl.Names) == 0 {
							r.Fields = append(r.Fields, Field{text(fl.Type), text(fl.Type), tag, true})
						}
						for _, n := range fl.Names {
							r.Fields = append(r.Fields, Field{n.Name, text(fl.Type), tag, false})
						}
					}
					out.Structs = append(out.Structs, r)
					by[r.Name] = r
				default:
					out.Errors = append(out.Errors, "unexpected declaration "+text(d))
				}
			}
		case *ast.FuncDecl:
			if d.Name.Name == "TableName" && d.Recv != nil && len(d.Body.List) == 1 {
				recv := text(d.Recv.List[0].Type)
				name := recv
				if name[0] == '*' {
					name = name[1:]
				}
				if ret, ok := d.Body.List[0].(*ast.ReturnStmt); ok && by[name] != nil && len(ret.Results) == 1 {
					if lit, ok := ret.Results[0].(*ast.BasicLit); ok {
						v, _ := strconv.Unquote(lit.Value)
						by[name].TableName = &v
						by[name].Receiver = recv
						continue
					}
				}
			}
			out.Errors = append(out.Errors, "unexpected function "+text(d))
		}
	}
	files := []*ast.File{f}
	if len(os.Args) > 2 {
		g, err := parser.ParseFile(fset, "stub.go", "package "+f.Name.Name+"\n"+os.Args[2], 0)
		if err != nil {
			panic(err)
		}
		files = append(files, g)
	}
	conf := types.Config{Importer: imp{fset}, Error: func(err error) { out.Errors = append(out.Errors, err.Error()) }}
	conf.Check("p", fset, files, nil)
	json.NewEncoder(os.Stdout).Encode(out)
}
