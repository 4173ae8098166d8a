From 210bc871f2f4e910f46981f5cebb9f72660b3cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:43 +0000
Subject: [PATCH 001/103] fix: report schema validation errors when loading an
 octopus file

---
 format/octopus/io.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/format/octopus/io.go b/format/octopus/io.go
index 52042dc..26b894b 100644
--- a/format/octopus/io.go
+++ b/format/octopus/io.go
@@ -17,7 +17,9 @@ func LoadSchema(filename string) (*Schema, error) {
 	if schema, err := reader.ToSchema(); err != nil {
 		return nil, err
 	} else {
-		schema.Normalize()
+		if err := schema.Normalize(); err != nil {
+			return nil, err
+		}
 		return schema, nil
 	}
 }
-- 
2.43.0


From 3b311a20956d838f6655c96ec449251858aec574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:08 +0000
Subject: [PATCH 002/103] fix: import column-level UNIQUE from mysql DDL

---
 format/mysql/importer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index 1f4333d..02b0ccb 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -162,6 +162,8 @@ func (x *TableX) column(
 		case ast.ColumnOptionPrimaryKey:
 			column.PrimaryKey = true
 			column.NotNull = true
+		case ast.ColumnOptionUniqKey:
+			column.UniqueKey = true
 		case ast.ColumnOptionNotNull:
 			column.NotNull = true
 		case ast.ColumnOptionAutoIncrement:
-- 
2.43.0


From 8f6f5e7d3340a1da058005231653c8e0213fa013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:10 +0000
Subject: [PATCH 003/103] fix: tell binary and character string types apart
 when importing mysql DDL

---
 format/mysql/importer.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index 02b0ccb..38d849c 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -7,6 +7,7 @@ import (
 	"github.com/lechuckroh/octopus-db-tools/util"
 	"github.com/pingcap/parser"
 	"github.com/pingcap/parser/ast"
+	"github.com/pingcap/parser/charset"
 	"github.com/pingcap/parser/mysql"
 	_ "github.com/pingcap/parser/test_driver"
 	"io"
@@ -47,9 +48,7 @@ func (c *Importer) ImportSql(sql string) (*octopus.Schema, error) {
 
 	p := parser.New()
 
-	charset := ""
-	collation := ""
-	stmtNodes, _, err := p.Parse(sql, charset, collation)
+	stmtNodes, _, err := p.Parse(sql, "", "")
 	if err != nil {
 		return nil, err
 	}
@@ -268,6 +267,9 @@ func (x *TableX) columnType(colDef *ast.ColumnDef) (string, uint16, uint16) {
 	case mysql.TypeNewDate:
 		return octopus.ColTypeDate, 0, 0
 	case mysql.TypeVarchar:
+		if colDef.Tp.Charset == charset.CharsetBin {
+			return octopus.ColTypeVarbinary, size, 0
+		}
 		return octopus.ColTypeVarchar, size, 0
 	case mysql.TypeBit:
 		if colDef.Tp.Flen == 1 {
@@ -308,7 +310,7 @@ func (x *TableX) columnType(colDef *ast.ColumnDef) (string, uint16, uint16) {
 			return octopus.ColTypeBlob16, 0, 0
 		}
 	case mysql.TypeString:
-		if colDef.Tp.Flag == mysql.BinaryFlag {
+		if colDef.Tp.Charset == charset.CharsetBin {
 			return octopus.ColTypeBinary, size, 0
 		}
 		return octopus.ColTypeChar, size, 0
-- 
2.43.0


From 286519d0db1936ff15db90d4ced91b0596e8d3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:11 +0000
Subject: [PATCH 004/103] fix: import negative default values from mysql DDL

---
 format/mysql/importer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index 38d849c..a5cd468 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -9,6 +9,7 @@ import (
 	"github.com/pingcap/parser/ast"
 	"github.com/pingcap/parser/charset"
 	"github.com/pingcap/parser/mysql"
+	"github.com/pingcap/parser/opcode"
 	_ "github.com/pingcap/parser/test_driver"
 	"io"
 	"io/ioutil"
@@ -174,6 +175,11 @@ func (x *TableX) column(
 				column.SetDefaultValue(colOption.Expr.(ast.ValueExpr).GetValue())
 			case *ast.FuncCallExpr:
 				column.SetDefaultValueFn(colOption.Expr.(*ast.FuncCallExpr).FnName.String())
+			case *ast.UnaryOperationExpr:
+				expr := colOption.Expr.(*ast.UnaryOperationExpr)
+				if value, ok := expr.V.(ast.ValueExpr); ok && expr.Op == opcode.Minus {
+					column.SetDefaultValue(fmt.Sprintf("-%v", value.GetValue()))
+				}
 			default:
 				fmt.Printf("unhandled default value. column: %s, expr: %v", name, colOption.Expr)
 			}
-- 
2.43.0


From 17b40257229e79b6afa65bac4dd5749ffce236d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:13 +0000
Subject: [PATCH 005/103] fix: do not crash on functional key parts when
 importing mysql DDL

---
 format/mysql/importer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index a5cd468..b930440 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -96,12 +96,18 @@ func (x *TableX) Enter(in ast.Node) (ast.Node, bool) {
 			case ast.ConstraintIndex:
 				var idxCols []string
 				for _, key := range cst.Keys {
+					if key.Column == nil {
+						continue
+					}
 					idxCols = append(idxCols, key.Column.Name.String())
 				}
 				indices = append(indices, &octopus.Index{Name: cst.Name, Columns: idxCols})
 				break
 			case ast.ConstraintUniq:
 				for _, key := range cst.Keys {
+					if key.Column == nil {
+						continue
+					}
 					uniqSet.Add(key.Column.Name.String())
 				}
 			case ast.ConstraintUniqKey:
-- 
2.43.0


From 91a18439bd13fa75a2540e3f2e4606a4b7bf2d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:14 +0000
Subject: [PATCH 006/103] fix: keep the size of binary columns in exported
 mysql DDL

---
 format/mysql/exporter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/mysql/exporter.go b/format/mysql/exporter.go
index ce395c6..4138048 100644
--- a/format/mysql/exporter.go
+++ b/format/mysql/exporter.go
@@ -138,7 +138,7 @@ func (c *Exporter) formatColumnType(colType string, col *octopus.Column) string
 func (c *Exporter) ToMysqlColumnType(col *octopus.Column) string {
 	switch col.Type {
 	case octopus.ColTypeBinary:
-		return "binary"
+		return c.formatColumnType("binary", col)
 	case octopus.ColTypeBit:
 		return c.formatColumnType("bit", col)
 	case octopus.ColTypeBlob8:
@@ -194,7 +194,7 @@ func (c *Exporter) ToMysqlColumnType(col *octopus.Column) string {
 	case octopus.ColTypeTime:
 		return "time"
 	case octopus.ColTypeVarbinary:
-		return "varbinary"
+		return c.formatColumnType("varbinary", col)
 	case octopus.ColTypeVarchar:
 		return c.formatColumnType("varchar", col)
 	case octopus.ColTypeYear:
-- 
2.43.0


From 7ecdd69f632a4fff7f556b7e469db69366443399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:16 +0000
Subject: [PATCH 007/103] fix: do not write an empty index name to mysql DDL

---
 format/mysql/exporter.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/format/mysql/exporter.go b/format/mysql/exporter.go
index 4138048..f79c498 100644
--- a/format/mysql/exporter.go
+++ b/format/mysql/exporter.go
@@ -101,8 +101,12 @@ func (c *Exporter) exportTable(
 	}
 
 	for _, index := range table.Indices {
-		definitions = append(definitions, fmt.Sprintf("INDEX %s (%s)",
-			c.quote(index.Name), util.QuoteAndJoin(index.Columns, "`", ", ")))
+		indexName := ""
+		if index.Name != "" {
+			indexName = c.quote(index.Name) + " "
+		}
+		definitions = append(definitions, fmt.Sprintf("INDEX %s(%s)",
+			indexName, util.QuoteAndJoin(index.Columns, "`", ", ")))
 	}
 
 	// append ',' except last
-- 
2.43.0


From 01deb74f8dc6cbd115b5eca6ebc7f8f2d170e0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:44 +0000
Subject: [PATCH 008/103] fix: skip mysql indices which have no plain column

---
 format/mysql/importer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index b930440..46fd5a9 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -101,6 +101,9 @@ func (x *TableX) Enter(in ast.Node) (ast.Node, bool) {
 					}
 					idxCols = append(idxCols, key.Column.Name.String())
 				}
+				if len(idxCols) == 0 {
+					break
+				}
 				indices = append(indices, &octopus.Index{Name: cst.Name, Columns: idxCols})
 				break
 			case ast.ConstraintUniq:
-- 
2.43.0


From fb84dbe099862bbadd4feb0ed2affc3e9b7234b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:46 +0000
Subject: [PATCH 009/103] fix: escape string literals in exported mysql DDL

---
 format/mysql/exporter.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/format/mysql/exporter.go b/format/mysql/exporter.go
index f79c498..57cf2dd 100644
--- a/format/mysql/exporter.go
+++ b/format/mysql/exporter.go
@@ -128,6 +128,19 @@ func (c *Exporter) quote(name string) string {
 	return fmt.Sprintf("`%s`", name)
 }
 
+// stringLiteral returns escaped SQL string literal.
+func (c *Exporter) stringLiteral(s string) string {
+	return "'" + strings.NewReplacer("\\", "\\\\", "'", "''").Replace(s) + "'"
+}
+
+func (c *Exporter) stringLiterals(values []string) string {
+	var literals []string
+	for _, value := range values {
+		literals = append(literals, c.stringLiteral(value))
+	}
+	return strings.Join(literals, ", ")
+}
+
 func (c *Exporter) formatColumnType(colType string, col *octopus.Column) string {
 	if col.Size > 0 {
 		if col.Scale > 0 {
@@ -166,7 +179,7 @@ func (c *Exporter) ToMysqlColumnType(col *octopus.Column) string {
 	case octopus.ColTypeDouble:
 		return c.formatColumnType("double", col)
 	case octopus.ColTypeEnum:
-		return "enum(" + util.QuoteAndJoin(col.Values, "'", ", ") + ")"
+		return "enum(" + c.stringLiterals(col.Values) + ")"
 	case octopus.ColTypeFloat:
 		return c.formatColumnType("float", col)
 	case octopus.ColTypeGeometry:
@@ -186,7 +199,7 @@ func (c *Exporter) ToMysqlColumnType(col *octopus.Column) string {
 	case octopus.ColTypePoint:
 		return "point"
 	case octopus.ColTypeSet:
-		return "set(" + util.QuoteAndJoin(col.Values, "'", ", ") + ")"
+		return "set(" + c.stringLiterals(col.Values) + ")"
 	case octopus.ColTypeText8:
 		return "tinytext"
 	case octopus.ColTypeText16:
@@ -225,7 +238,7 @@ func (c *Exporter) ColumnConstraints(column *octopus.Column) string {
 			defaultValue = defaultValue + "()"
 		} else {
 			if util.IsStringType(column.Type) {
-				defaultValue = fmt.Sprintf("'%s'", defaultValue)
+				defaultValue = c.stringLiteral(defaultValue)
 			}
 		}
 		constraints = append(constraints, "DEFAULT "+defaultValue)
@@ -237,14 +250,14 @@ func (c *Exporter) ColumnConstraints(column *octopus.Column) string {
 			onUpdate = onUpdate + "()"
 		} else {
 			if util.IsStringType(column.Type) {
-				onUpdate = fmt.Sprintf("'%s'", onUpdate)
+				onUpdate = c.stringLiteral(onUpdate)
 			}
 		}
 		constraints = append(constraints, "ON UPDATE "+onUpdate)
 	}
 
 	if column.Description != "" {
-		constraints = append(constraints, fmt.Sprintf("COMMENT '%s'", column.Description))
+		constraints = append(constraints, "COMMENT "+c.stringLiteral(column.Description))
 	}
 
 	return strings.Join(constraints, " ")
-- 
2.43.0


From a9de78731e108cb3c4230a1b6c61ad6df6f04758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:47 +0000
Subject: [PATCH 010/103] fix: quote date, time, enum, set and text literals in
 exported mysql DDL

---
 format/mysql/exporter.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/format/mysql/exporter.go b/format/mysql/exporter.go
index 57cf2dd..10da878 100644
--- a/format/mysql/exporter.go
+++ b/format/mysql/exporter.go
@@ -133,6 +133,16 @@ func (c *Exporter) stringLiteral(s string) string {
 	return "'" + strings.NewReplacer("\\", "\\\\", "'", "''").Replace(s) + "'"
 }
 
+// isQuotedType checks if literals of column type should be quoted.
+func (c *Exporter) isQuotedType(colType string) bool {
+	switch colType {
+	case octopus.ColTypeDate, octopus.ColTypeDateTime, octopus.ColTypeTime,
+		octopus.ColTypeEnum, octopus.ColTypeSet:
+		return true
+	}
+	return util.IsStringType(colType) || octopus.IsColTypeString(colType)
+}
+
 func (c *Exporter) stringLiterals(values []string) string {
 	var literals []string
 	for _, value := range values {
@@ -237,7 +247,7 @@ func (c *Exporter) ColumnConstraints(column *octopus.Column) string {
 		if fn {
 			defaultValue = defaultValue + "()"
 		} else {
-			if util.IsStringType(column.Type) {
+			if c.isQuotedType(column.Type) {
 				defaultValue = c.stringLiteral(defaultValue)
 			}
 		}
@@ -249,7 +259,7 @@ func (c *Exporter) ColumnConstraints(column *octopus.Column) string {
 		if fn {
 			onUpdate = onUpdate + "()"
 		} else {
-			if util.IsStringType(column.Type) {
+			if c.isQuotedType(column.Type) {
 				onUpdate = c.stringLiteral(onUpdate)
 			}
 		}
-- 
2.43.0


From d1e5c91d407ad2de9c09364645812e97fcbcaa91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:47 +0000
Subject: [PATCH 011/103] fix: write db.json when init has no --output, as
 documented

---
 format/octopus/cli.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/format/octopus/cli.go b/format/octopus/cli.go
index 961cf49..58343de 100644
--- a/format/octopus/cli.go
+++ b/format/octopus/cli.go
@@ -67,10 +67,10 @@ func InitAction(c *cli.Context) error {
 
 var InitCliFlags = []cli.Flag{
 	&cli.StringFlag{
-		Name:        FlagOutput,
-		Aliases:     []string{"o"},
-		Usage:       "init octopus schema to `FILE`",
-		EnvVars:     []string{"OCTOPUS_OUTPUT"},
-		DefaultText: "db.json",
+		Name:    FlagOutput,
+		Aliases: []string{"o"},
+		Usage:   "init octopus schema to `FILE`",
+		EnvVars: []string{"OCTOPUS_OUTPUT"},
+		Value:   "db.json",
 	},
 }
-- 
2.43.0


From 21392fac9730ae2e08c647c8e92641811b5dca21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:21 +0000
Subject: [PATCH 012/103] fix: match key columns case-insensitively when
 importing mysql DDL

---
 format/mysql/importer.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index 46fd5a9..27ed32e 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -89,7 +89,7 @@ func (x *TableX) Enter(in ast.Node) (ast.Node, bool) {
 			switch cst.Tp {
 			case ast.ConstraintPrimaryKey:
 				for _, key := range cst.Keys {
-					pkSet.Add(key.Column.Name.String())
+					pkSet.Add(key.Column.Name.L)
 				}
 			case ast.ConstraintKey:
 				break
@@ -111,7 +111,7 @@ func (x *TableX) Enter(in ast.Node) (ast.Node, bool) {
 					if key.Column == nil {
 						continue
 					}
-					uniqSet.Add(key.Column.Name.String())
+					uniqSet.Add(key.Column.Name.L)
 				}
 			case ast.ConstraintUniqKey:
 				break
@@ -160,8 +160,8 @@ func (x *TableX) column(
 		Type:       colType,
 		Size:       colLength,
 		Scale:      colScale,
-		PrimaryKey: pkSet.Contains(name),
-		UniqueKey:  uniqSet.Contains(name),
+		PrimaryKey: pkSet.Contains(colDef.Name.Name.L),
+		UniqueKey:  uniqSet.Contains(colDef.Name.Name.L),
 		NotNull:    false,
 		Values:     x.columnValues(colType, colDef),
 	}
-- 
2.43.0


From 3f5f350dbabb065f759cd93b29a38fedf29b6e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:23 +0000
Subject: [PATCH 013/103] fix: import mysql primary key columns as not null

---
 format/mysql/importer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index 27ed32e..d371ad5 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -162,7 +162,7 @@ func (x *TableX) column(
 		Scale:      colScale,
 		PrimaryKey: pkSet.Contains(colDef.Name.Name.L),
 		UniqueKey:  uniqSet.Contains(colDef.Name.Name.L),
-		NotNull:    false,
+		NotNull:    pkSet.Contains(colDef.Name.Name.L),
 		Values:     x.columnValues(colType, colDef),
 	}
 
-- 
2.43.0


From 2698a4aa136b87682e6dd0e50f2b4705ceb8b445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:40 +0000
Subject: [PATCH 014/103] fix: keep the letter case of column names when
 importing mysql DDL

---
 format/mysql/importer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index d371ad5..8d779ad 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -153,7 +153,7 @@ func (x *TableX) column(
 	pkSet *util.StringSet,
 	uniqSet *util.StringSet,
 ) *octopus.Column {
-	name := colDef.Name.String()
+	name := colDef.Name.Name.String()
 	colType, colLength, colScale := x.columnType(colDef)
 	column := octopus.Column{
 		Name:       name,
-- 
2.43.0


From 833f005b30ecb5ad9db3c50527cf96da5d65e722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:06 +0000
Subject: [PATCH 015/103] fix: export the onUpdate value of a column to xlsx

---
 format/xlsx/exporter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/xlsx/exporter.go b/format/xlsx/exporter.go
index 5a82235..c555688 100644
--- a/format/xlsx/exporter.go
+++ b/format/xlsx/exporter.go
@@ -264,7 +264,7 @@ func getColumnAttributes(column *octopus.Column) []string {
 		attrs = append(attrs, attrDefault+"="+column.DefaultValue)
 	}
 	if column.OnUpdate != "" {
-		attrs = append(attrs, attrOnUpdate+"="+column.DefaultValue)
+		attrs = append(attrs, attrOnUpdate+"="+column.OnUpdate)
 	}
 
 	return attrs
-- 
2.43.0


From 30e8a8b24001d3742839aa6acb759b7de5090ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:07 +0000
Subject: [PATCH 016/103] fix: strip the relationship marker from the
 referenced table of xlsx references

---
 format/xlsx/importer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/xlsx/importer.go b/format/xlsx/importer.go
index e2c282f..b2f67eb 100644
--- a/format/xlsx/importer.go
+++ b/format/xlsx/importer.go
@@ -215,7 +215,7 @@ func parseReference(s string) *octopus.Reference {
 					relationship = octopus.RefManyToOne
 				}
 				return &octopus.Reference{
-					Table:        table,
+					Table:        strings.TrimLeft(table, "><-"),
 					Column:       column,
 					Relationship: relationship,
 				}
-- 
2.43.0


From d723fad5c212e7438ed7121e9727a0c38a48560b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:08 +0000
Subject: [PATCH 017/103] fix: export the relationship of references to xlsx

---
 format/xlsx/exporter.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/format/xlsx/exporter.go b/format/xlsx/exporter.go
index c555688..de0cd17 100644
--- a/format/xlsx/exporter.go
+++ b/format/xlsx/exporter.go
@@ -272,7 +272,16 @@ func getColumnAttributes(column *octopus.Column) []string {
 
 func getColumnReference(column *octopus.Column) string {
 	if ref := column.Ref; ref != nil {
-		return fmt.Sprintf("%s.%s", ref.Table, ref.Column)
+		marker := ""
+		switch ref.Relationship {
+		case octopus.RefManyToOne:
+			marker = ">"
+		case octopus.RefOneToMany:
+			marker = "<"
+		case octopus.RefOneToOne:
+			marker = "-"
+		}
+		return fmt.Sprintf("%s%s.%s", marker, ref.Table, ref.Column)
 	}
 	return ""
 }
-- 
2.43.0


From 747f26bf8863ac05fd3a9cb7d2344709200cbc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:10 +0000
Subject: [PATCH 018/103] fix: parse sized column types whose name has a digit

---
 util/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/types.go b/util/types.go
index 18b0ede..e456b5b 100644
--- a/util/types.go
+++ b/util/types.go
@@ -64,7 +64,7 @@ func IsDateType(typ string) bool {
 // ParseType parses column type
 // returns name, size, scale
 func ParseType(str string) (string, uint16, uint16) {
-	r := regexp.MustCompile(`(?m)([a-zA-Z]+)\(([0-9]+)[\s,]*([0-9]*)\)`)
+	r := regexp.MustCompile(`(?m)([a-zA-Z][a-zA-Z0-9]*)\(([0-9]+)[\s,]*([0-9]*)\)`)
 	groups, _ := MatchRegexGroups(r, str)
 	groupCount := len(groups)
 
-- 
2.43.0


From f44f27e335a779404f84c265cefd2716c6b49cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:11 +0000
Subject: [PATCH 019/103] fix: accept the documented autoinc attribute when
 importing xlsx

---
 format/xlsx/importer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/xlsx/importer.go b/format/xlsx/importer.go
index b2f67eb..d384239 100644
--- a/format/xlsx/importer.go
+++ b/format/xlsx/importer.go
@@ -162,7 +162,7 @@ func readGroupSheet(groupName string, sheet *xlsx.Sheet) ([]*octopus.Table, erro
 				NotNull:         util.IfThenElseBool(useNotNullColumn, nullableValue != "", nullableValue == ""),
 				PrimaryKey:      keyValue == keyPrimary,
 				UniqueKey:       keyValue == keyUnique,
-				AutoIncremental: attrMap[attrAutoInc] == "true",
+				AutoIncremental: attrMap[attrAutoInc] == "true" || attrMap[strings.ToLower(attrAutoInc)] == "true",
 				DefaultValue:    attrMap[attrDefault],
 				OnUpdate:        attrMap[attrOnUpdate],
 				Ref:             ref,
-- 
2.43.0


From be35a7a0285ed639eaf724f8c71908cd9962460a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:09 +0000
Subject: [PATCH 020/103] fix: read numeric column lengths of StarUML files

---
 util/string.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/util/string.go b/util/string.go
index da1bcbd..736f414 100644
--- a/util/string.go
+++ b/util/string.go
@@ -18,6 +18,8 @@ func ToInt(value interface{}, defaultValue int) int {
 		return i
 	case int:
 		return value.(int)
+	case float64:
+		return int(value.(float64))
 	default:
 		return defaultValue
 	}
-- 
2.43.0


From 2bbf3690ca21b51e0fefb3c7a09538ed191915dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:10 +0000
Subject: [PATCH 021/103] fix: report unresolved StarUML column references
 instead of crashing

---
 format/staruml/importer.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/format/staruml/importer.go b/format/staruml/importer.go
index d036f72..b3e6731 100644
--- a/format/staruml/importer.go
+++ b/format/staruml/importer.go
@@ -3,6 +3,7 @@ package staruml
 import (
 	"encoding/json"
 	"errors"
+	"fmt"
 	"github.com/lechuckroh/octopus-db-tools/format/octopus"
 	"github.com/lechuckroh/octopus-db-tools/util"
 	"io/ioutil"
@@ -80,7 +81,15 @@ func (c *Importer) toSchema() (*octopus.Schema, error) {
 
 			if erdColumn.ReferenceTo != nil {
 				targetColumn := c.findById(erdColumn.ReferenceTo.Ref)
+				if targetColumn == nil || targetColumn.Parent == nil {
+					return nil, fmt.Errorf("table: '%s', column: '%s': reference not found",
+						erdEntity.Name, erdColumn.Name)
+				}
 				targetTable := c.findById(targetColumn.Parent.Ref)
+				if targetTable == nil {
+					return nil, fmt.Errorf("table: '%s', column: '%s': referenced table not found",
+						erdEntity.Name, erdColumn.Name)
+				}
 				column.Ref = &octopus.Reference{
 					Table:  targetTable.Name,
 					Column: targetColumn.Name,
-- 
2.43.0


From f5251d76a3f0b7eab5c9a986fe10e5fdfe07bf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:11 +0000
Subject: [PATCH 022/103] fix: import the default value of octopus v1 columns

---
 format/ojson/importer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/ojson/importer.go b/format/ojson/importer.go
index a02c5dc..c9d60c1 100644
--- a/format/ojson/importer.go
+++ b/format/ojson/importer.go
@@ -82,7 +82,7 @@ func (c *Importer) fromOjsonColumn(column1 *Column) *octopus.Column {
 		PrimaryKey:      column1.PrimaryKey,
 		UniqueKey:       column1.UniqueKey,
 		AutoIncremental: column1.AutoIncremental,
-		DefaultValue:    column1.Description,
+		DefaultValue:    column1.DefaultValue,
 		Ref:             ref,
 	}
 }
-- 
2.43.0


From 11cae0815a3b0afdff8984a20399f5674c97d292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:13 +0000
Subject: [PATCH 023/103] fix: import the class name of octopus v1 tables

---
 format/ojson/importer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/ojson/importer.go b/format/ojson/importer.go
index c9d60c1..c89aeae 100644
--- a/format/ojson/importer.go
+++ b/format/ojson/importer.go
@@ -61,6 +61,7 @@ func (c *Importer) fromOjsonTable(table1 *Table) *octopus.Table {
 		Columns:     columns,
 		Description: table1.Description,
 		Group:       table1.Group,
+		ClassName:   table1.ClassName,
 	}
 }
 
-- 
2.43.0


From f8c44baecb373f556b0f495a80c1a7e1edce0151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:14 +0000
Subject: [PATCH 024/103] fix: report invalid octopus v1 columns instead of
 crashing

---
 format/ojson/importer.go |  4 +++-
 format/ojson/table.go    | 10 +++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/format/ojson/importer.go b/format/ojson/importer.go
index c89aeae..b115eaa 100644
--- a/format/ojson/importer.go
+++ b/format/ojson/importer.go
@@ -34,7 +34,9 @@ func (c *Importer) ImportJSON(data []byte) (*octopus.Schema, error) {
 	if err := schema1.FromJson(data); err != nil {
 		return nil, err
 	}
-	schema1.Normalize()
+	if err := schema1.Normalize(); err != nil {
+		return nil, err
+	}
 
 	var tables []*octopus.Table
 	for _, table1 := range schema1.Tables {
diff --git a/format/ojson/table.go b/format/ojson/table.go
index af3bba3..9b3321c 100644
--- a/format/ojson/table.go
+++ b/format/ojson/table.go
@@ -2,6 +2,7 @@ package ojson
 
 import (
 	"encoding/json"
+	"fmt"
 	"github.com/lechuckroh/octopus-db-tools/util"
 	"io/ioutil"
 	"log"
@@ -119,7 +120,9 @@ func (s *Schema) ToFile(filename string) error {
 }
 
 func (s *Schema) ToJson() ([]byte, error) {
-	s.Normalize()
+	if err := s.Normalize(); err != nil {
+		return nil, err
+	}
 	return json.MarshalIndent(s, "", "  ")
 }
 
@@ -136,7 +139,7 @@ func (s *Schema) FromJson(data []byte) error {
 }
 
 // Normalize converts colume types to lowercase
-func (s *Schema) Normalize() {
+func (s *Schema) Normalize() error {
 	sort.Sort(TableSlice(s.Tables))
 
 	for _, table := range s.Tables {
@@ -146,7 +149,7 @@ func (s *Schema) Normalize() {
 
 				// validate
 				if err := column.Validate(true); err != nil {
-					log.Panicf("table: %s, %s", table.Name, err.Error())
+					return fmt.Errorf("table: %s, %w", table.Name, err)
 				}
 			} else {
 				log.Printf("unknown column type: '%s', table: %s, column: %s",
@@ -154,6 +157,7 @@ func (s *Schema) Normalize() {
 			}
 		}
 	}
+	return nil
 }
 
 // normalizeColumnType converts column type to octopus generalized column type
-- 
2.43.0


From 22d84908d3a9207397ae3eb18d373a3abc06e866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:11 +0000
Subject: [PATCH 025/103] fix: apply the groups option to DBML export

---
 format/dbml/exporter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/format/dbml/exporter.go b/format/dbml/exporter.go
index 454524a..d7c4e06 100644
--- a/format/dbml/exporter.go
+++ b/format/dbml/exporter.go
@@ -33,6 +33,11 @@ func (c *Exporter) exportToString() ([]byte, error) {
 	definedTables := make(map[string]bool)
 
 	for _, table := range c.schema.Tables {
+		// filter table
+		if c.option.TableFilter != nil && !c.option.TableFilter(table) {
+			continue
+		}
+
 		result = append(result, fmt.Sprintf("Table %s {", table.Name))
 
 		for _, column := range table.Columns {
-- 
2.43.0


From 64d433b32c2a654a5172d48d6525484ea0dcbdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:12 +0000
Subject: [PATCH 026/103] fix: write valid default values to DBML

---
 format/dbml/exporter.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/format/dbml/exporter.go b/format/dbml/exporter.go
index d7c4e06..89ac13c 100644
--- a/format/dbml/exporter.go
+++ b/format/dbml/exporter.go
@@ -3,7 +3,6 @@ package dbml
 import (
 	"fmt"
 	"github.com/lechuckroh/octopus-db-tools/format/octopus"
-	"github.com/lechuckroh/octopus-db-tools/util"
 	"io"
 	"strings"
 )
@@ -56,9 +55,11 @@ func (c *Exporter) exportToString() ([]byte, error) {
 				params = append(params, "not null")
 			}
 			if column.DefaultValue != "" {
-				defaultValue := column.DefaultValue
-				if util.IsStringType(column.Type) {
-					defaultValue = fmt.Sprintf("'%s'", defaultValue)
+				defaultValue, isFn := column.GetDefaultValue()
+				if isFn {
+					defaultValue = fmt.Sprintf("`%s`", defaultValue)
+				} else if !octopus.IsColTypeNumeric(column.Type) && column.Type != octopus.ColTypeBoolean {
+					defaultValue = fmt.Sprintf("'%s'", escape(defaultValue, "'"))
 				}
 				params = append(params, fmt.Sprintf("default: %s", defaultValue))
 			}
@@ -105,6 +106,11 @@ func (c *Exporter) exportToString() ([]byte, error) {
 	return []byte(strings.Join(result, "\n")), nil
 }
 
+// escape escapes a text to be enclosed in quotation marks.
+func escape(text string, quotationMark string) string {
+	return strings.NewReplacer("\\", "\\\\", quotationMark, "\\"+quotationMark).Replace(text)
+}
+
 func getRelationshipType(ref *octopus.Reference) string {
 	switch ref.Relationship {
 	case octopus.RefManyToOne:
-- 
2.43.0


From 2b9313602f3149366ac16fe384168325260370cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:13 +0000
Subject: [PATCH 027/103] fix: escape column notes in DBML

---
 format/dbml/exporter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/dbml/exporter.go b/format/dbml/exporter.go
index 89ac13c..34b7582 100644
--- a/format/dbml/exporter.go
+++ b/format/dbml/exporter.go
@@ -77,7 +77,7 @@ func (c *Exporter) exportToString() ([]byte, error) {
 				}
 			}
 			if column.Description != "" {
-				params = append(params, fmt.Sprintf("note: \"%s\"", column.Description))
+				params = append(params, fmt.Sprintf("note: \"%s\"", escape(column.Description, "\"")))
 			}
 
 			columnType := column.Type
-- 
2.43.0


From b4ef41b538c170fcd55d27a9f3cc0916a39ac657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:15 +0000
Subject: [PATCH 028/103] fix: strip the function marker from default values in
 QuickDBD export

---
 format/quickdbd/exporter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/quickdbd/exporter.go b/format/quickdbd/exporter.go
index 213e9b1..8424a2f 100644
--- a/format/quickdbd/exporter.go
+++ b/format/quickdbd/exporter.go
@@ -55,8 +55,8 @@ func getColumnDef(col *octopus.Column) string {
 	if !col.NotNull {
 		params = append(params, "NULLABLE")
 	}
-	if col.DefaultValue != "" {
-		params = append(params, fmt.Sprintf("default=%s", col.DefaultValue))
+	if defaultValue, _ := col.GetDefaultValue(); defaultValue != "" {
+		params = append(params, fmt.Sprintf("default=%s", defaultValue))
 	}
 	if ref := col.Ref; ref != nil {
 		rel := getRelationshipType(ref)
-- 
2.43.0


From 9f6b7d3bfc8f953b7c0a989a8aa7e8bb22dddfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:16 +0000
Subject: [PATCH 029/103] fix: keep descriptions with line breaks on one line
 in QuickDBD export

---
 format/quickdbd/exporter.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/format/quickdbd/exporter.go b/format/quickdbd/exporter.go
index 8424a2f..a29af4d 100644
--- a/format/quickdbd/exporter.go
+++ b/format/quickdbd/exporter.go
@@ -33,7 +33,7 @@ func (c *Exporter) Export(wr io.Writer) error {
 
 func getTableDef(table *octopus.Table) string {
 	if table.Description != "" {
-		return fmt.Sprintf("%s # %s", table.Name, table.Description)
+		return fmt.Sprintf("%s # %s", table.Name, singleLine(table.Description))
 	} else {
 		return table.Name
 	}
@@ -63,12 +63,17 @@ func getColumnDef(col *octopus.Column) string {
 		params = append(params, fmt.Sprintf("FK %s %s.%s", rel, ref.Table, ref.Column))
 	}
 	if col.Description != "" {
-		params = append(params, fmt.Sprintf("# %s", col.Description))
+		params = append(params, fmt.Sprintf("# %s", singleLine(col.Description)))
 	}
 
 	return fmt.Sprintf("%s %s", col.Name, strings.Join(params, " "))
 }
 
+// singleLine replaces line breaks because a comment extends to the end of line.
+func singleLine(text string) string {
+	return strings.NewReplacer("\r\n", " ", "\n", " ", "\r", " ").Replace(text)
+}
+
 func getRelationshipType(ref *octopus.Reference) string {
 	switch ref.Relationship {
 	case octopus.RefManyToOne:
-- 
2.43.0


From b9c339643fb7f0b049fb755c34659bad1fc4c12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:11 +0000
Subject: [PATCH 030/103] fix: escape line breaks in DBML notes

---
 format/dbml/exporter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/dbml/exporter.go b/format/dbml/exporter.go
index 34b7582..401bba6 100644
--- a/format/dbml/exporter.go
+++ b/format/dbml/exporter.go
@@ -108,7 +108,7 @@ func (c *Exporter) exportToString() ([]byte, error) {
 
 // escape escapes a text to be enclosed in quotation marks.
 func escape(text string, quotationMark string) string {
-	return strings.NewReplacer("\\", "\\\\", quotationMark, "\\"+quotationMark).Replace(text)
+	return strings.NewReplacer("\\", "\\\\", quotationMark, "\\"+quotationMark, "\r\n", "\\n", "\n", "\\n").Replace(text)
 }
 
 func getRelationshipType(ref *octopus.Reference) string {
-- 
2.43.0


From eea9437e9cf3f0bc63f86ff23bdc893465314361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:24 +0000
Subject: [PATCH 031/103] fix: do not crash on prefix or annotation entries
 without a group

---
 format/common/annotation.go | 3 +++
 format/common/prefix.go     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/format/common/annotation.go b/format/common/annotation.go
index bb5d0e3..eacf633 100644
--- a/format/common/annotation.go
+++ b/format/common/annotation.go
@@ -15,6 +15,9 @@ func NewAnnotationMapper(annotation string) *AnnotationMapper {
 	if strings.Contains(annotation, ":") {
 		for _, annoToken := range strings.Split(annotation, ",") {
 			kv := strings.SplitN(annoToken, ":", 2)
+			if len(kv) < 2 {
+				continue
+			}
 			group := kv[0]
 			annotations := strings.Split(kv[1], ";")
 			annoMap[group] = annotations
diff --git a/format/common/prefix.go b/format/common/prefix.go
index ffa9990..4122303 100644
--- a/format/common/prefix.go
+++ b/format/common/prefix.go
@@ -15,6 +15,9 @@ func NewPrefixMapper(prefix string) *PrefixMapper {
 	if strings.Contains(prefix, ":") {
 		for _, prefixToken := range strings.Split(prefix, ",") {
 			kv := strings.SplitN(prefixToken, ":", 2)
+			if len(kv) < 2 {
+				continue
+			}
 			group := kv[0]
 			prefixValue := kv[1]
 			prefixMap[group] = prefixValue
-- 
2.43.0


From db1fae0c3deca4103a94da54f71fa371e9d57977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:25 +0000
Subject: [PATCH 032/103] fix: pass the relation tag options to the protobuf
 generator

---
 format/protobuf/cli.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/format/protobuf/cli.go b/format/protobuf/cli.go
index a5c0da8..74854de 100644
--- a/format/protobuf/cli.go
+++ b/format/protobuf/cli.go
@@ -2,10 +2,12 @@ package protobuf
 
 import (
 	"bytes"
+	"fmt"
 	"github.com/lechuckroh/octopus-db-tools/format/common"
 	"github.com/lechuckroh/octopus-db-tools/format/octopus"
 	"github.com/lechuckroh/octopus-db-tools/util"
 	"github.com/urfave/cli/v2"
+	"strconv"
 	"strings"
 )
 
@@ -27,6 +29,13 @@ func Action(c *cli.Context) error {
 		return err
 	}
 
+	relationTagStart := -1
+	if value := c.String(FlogRelationTagStart); value != "" {
+		if relationTagStart, err = strconv.Atoi(value); err != nil {
+			return fmt.Errorf("invalid %s: '%s'", FlogRelationTagStart, value)
+		}
+	}
+
 	gen := newGenerator(
 		schema,
 		&Option{
@@ -36,8 +45,8 @@ func Action(c *cli.Context) error {
 			Package:          c.String(FlagPackage),
 			GoPackage:        c.String(FlagGoPackage),
 			FilePath:         c.String(FlagOutput),
-			RelationTagStart: -1,
-			RelationTagDecr:  false,
+			RelationTagStart: relationTagStart,
+			RelationTagDecr:  c.Bool(FlogRelationTagDecr),
 		},
 	)
 	buf := new(bytes.Buffer)
-- 
2.43.0


From 1ff182409bbdadd5fdaf9c34b27ee075481cb48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:27 +0000
Subject: [PATCH 033/103] fix: number protobuf relation tags downwards when
 relationTagDecr is set

---
 format/protobuf/generator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/format/protobuf/generator.go b/format/protobuf/generator.go
index 52fb0ac..ad4cc41 100644
--- a/format/protobuf/generator.go
+++ b/format/protobuf/generator.go
@@ -218,7 +218,11 @@ func (t *Generator) newPbMessage(table *octopus.Table) *PbMessage {
 
 	// update tag of relations
 	for i, relation := range relations {
-		relation.Tag = relTagStart + i
+		if relTagDecr {
+			relation.Tag = relTagStart - i
+		} else {
+			relation.Tag = relTagStart + i
+		}
 	}
 
 	return &PbMessage{
-- 
2.43.0


From f555ef29bef43f2ad12f1f2095765e74b1fa5b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:28 +0000
Subject: [PATCH 034/103] fix: do not generate protobuf relations to messages
 which are not defined

---
 format/protobuf/generator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/format/protobuf/generator.go b/format/protobuf/generator.go
index ad4cc41..94381cb 100644
--- a/format/protobuf/generator.go
+++ b/format/protobuf/generator.go
@@ -188,6 +188,11 @@ func (t *Generator) newPbMessage(table *octopus.Table) *PbMessage {
 		// reference
 		if ref := column.Ref; ref != nil {
 			refTable := t.schema.TableByName(ref.Table)
+			if refTable == nil || (t.option.TableFilter != nil && !t.option.TableFilter(refTable)) {
+				log.Printf("referenced table is not generated: '%s', table: '%s', column: '%s'",
+					ref.Table, table.Name, column.Name)
+				continue
+			}
 			refMessageType := t.messageNameMemoizer(refTable)
 			refName := strcase.ToLowerCamel(refMessageType)
 			repeated := ref.Relationship == octopus.RefOneToMany
-- 
2.43.0


From e7082ef3393dff5d7b2caff428664c35e719682e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:29 +0000
Subject: [PATCH 035/103] fix: generate repeated fields for one to many
 protobuf relations

---
 format/protobuf/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/protobuf/generator.go b/format/protobuf/generator.go
index 94381cb..7fcfa76 100644
--- a/format/protobuf/generator.go
+++ b/format/protobuf/generator.go
@@ -116,7 +116,7 @@ message {{.Name}} {
   {{.Type}} {{.Name}} = {{.Tag}};
   {{- end}}
   {{- range .Relations}}
-  {{.Type}} {{.Name}} = {{.Tag}};
+  {{if .Repeated}}repeated {{end}}{{.Type}} {{.Name}} = {{.Tag}};
   {{- end}}
 }
 {{end}}`
-- 
2.43.0


From c44495ff31aceac0087ccfe37095ec9a5c0f8a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:30 +0000
Subject: [PATCH 036/103] fix: make protobuf relation field names unique in a
 message

---
 format/protobuf/generator.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/format/protobuf/generator.go b/format/protobuf/generator.go
index 7fcfa76..0885d63 100644
--- a/format/protobuf/generator.go
+++ b/format/protobuf/generator.go
@@ -206,6 +206,19 @@ func (t *Generator) newPbMessage(table *octopus.Table) *PbMessage {
 		}
 	}
 
+	// relation names should be unique in the message
+	names := util.NewStringSet()
+	for _, field := range fields {
+		names.Add(field.Name)
+	}
+	for _, relation := range relations {
+		refName := relation.Name
+		for i := 2; names.Contains(relation.Name); i++ {
+			relation.Name = fmt.Sprintf("%s%d", refName, i)
+		}
+		names.Add(relation.Name)
+	}
+
 	// shift tag start if tag range is overlapped
 	relationCount := len(relations)
 	relTagStart := t.option.RelationTagStart
-- 
2.43.0


From 409574a3d7f560d7b0b3c2b33272a775c86e0271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:32 +0000
Subject: [PATCH 037/103] fix: map every column type to a protobuf type

---
 format/protobuf/generator.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/format/protobuf/generator.go b/format/protobuf/generator.go
index 0885d63..97d8b68 100644
--- a/format/protobuf/generator.go
+++ b/format/protobuf/generator.go
@@ -257,6 +257,16 @@ func newPbField(tag int, column *octopus.Column) *PbField {
 
 	columnType := strings.ToLower(column.Type)
 	switch columnType {
+	case octopus.ColTypeDate:
+		fallthrough
+	case octopus.ColTypeTime:
+		fallthrough
+	case octopus.ColTypeEnum:
+		fallthrough
+	case octopus.ColTypeSet:
+		fallthrough
+	case octopus.ColTypeJSON:
+		fallthrough
 	case octopus.ColTypeChar:
 		fallthrough
 	case octopus.ColTypeVarchar:
@@ -273,6 +283,8 @@ func newPbField(tag int, column *octopus.Column) *PbField {
 		fieldType = "bool"
 	case octopus.ColTypeInt64:
 		fieldType = "int64"
+	case octopus.ColTypeYear:
+		fallthrough
 	case octopus.ColTypeInt8:
 		fallthrough
 	case octopus.ColTypeInt16:
@@ -290,6 +302,24 @@ func newPbField(tag int, column *octopus.Column) *PbField {
 	case octopus.ColTypeDateTime:
 		fieldType = "google.protobuf.Timestamp"
 		imp = "google/protobuf/timestamp.proto"
+	case octopus.ColTypeBinary:
+		fallthrough
+	case octopus.ColTypeVarbinary:
+		fallthrough
+	case octopus.ColTypeBit:
+		fallthrough
+	case octopus.ColTypeBlob8:
+		fallthrough
+	case octopus.ColTypeBlob16:
+		fallthrough
+	case octopus.ColTypeBlob24:
+		fallthrough
+	case octopus.ColTypeBlob32:
+		fallthrough
+	case octopus.ColTypeGeometry:
+		fallthrough
+	case octopus.ColTypePoint:
+		fieldType = "bytes"
 	default:
 		fieldType = column.Type
 		log.Printf("unsupported columnType: %s", columnType)
-- 
2.43.0


From 6d67abac3251eb3784a1cf43bacf5e9cf1f7b9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:25 +0000
Subject: [PATCH 038/103] fix: embed GORM models in a fixed order, custom ones
 first

---
 format/gorm/gorm_model.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/format/gorm/gorm_model.go b/format/gorm/gorm_model.go
index 0259bad..741580e 100644
--- a/format/gorm/gorm_model.go
+++ b/format/gorm/gorm_model.go
@@ -3,9 +3,12 @@ package gorm
 import (
 	"github.com/lechuckroh/octopus-db-tools/util"
 	"regexp"
+	"sort"
 	"strings"
 )
 
+const defaultEmbeddedModel = "gorm.Model"
+
 type EmbeddedModel struct {
 	ColumnNames []string
 }
@@ -54,6 +57,13 @@ func (m EmbeddedModels) Names() []string {
 	for name, _ := range m {
 		names = append(names, name)
 	}
+	// custom models take precedence over the default one
+	sort.Slice(names, func(i, j int) bool {
+		if isDefault := names[j] == defaultEmbeddedModel; isDefault != (names[i] == defaultEmbeddedModel) {
+			return isDefault
+		}
+		return names[i] < names[j]
+	})
 	return names
 }
 
@@ -70,7 +80,7 @@ func registerEmbeddedModel(name string, columnNames []string) {
 
 // registerEmbeddedModel registers default embedded struct definitions
 func registerDefaultEmbeddedModels() {
-	registerEmbeddedModel("gorm.Model", []string{"id", "created_at", "updated_at", "deleted_at"})
+	registerEmbeddedModel(defaultEmbeddedModel, []string{"id", "created_at", "updated_at", "deleted_at"})
 }
 
 // extractEmbeddedModels extracts matching EmbeddedModels
@@ -82,7 +92,8 @@ func extractEmbeddedModels(fields []*GoField) EmbeddedModels {
 	}
 
 	result := EmbeddedModels{}
-	for name, model := range embeddedModels {
+	for _, name := range embeddedModels.Names() {
+		model := embeddedModels[name]
 		if columnNameSet.ContainsAll(model.ColumnNames) {
 			result[name] = model
 			columnNameSet.RemoveAll(model.ColumnNames)
-- 
2.43.0


From 747b579c8bfec6502260de185504dcc5088ddd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:26 +0000
Subject: [PATCH 039/103] fix: disable an embedded GORM model defined without
 columns, as documented

---
 format/gorm/gorm_model.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/format/gorm/gorm_model.go b/format/gorm/gorm_model.go
index 741580e..45dab6b 100644
--- a/format/gorm/gorm_model.go
+++ b/format/gorm/gorm_model.go
@@ -94,7 +94,8 @@ func extractEmbeddedModels(fields []*GoField) EmbeddedModels {
 	result := EmbeddedModels{}
 	for _, name := range embeddedModels.Names() {
 		model := embeddedModels[name]
-		if columnNameSet.ContainsAll(model.ColumnNames) {
+		// model without columns is disabled
+		if len(model.ColumnNames) > 0 && columnNameSet.ContainsAll(model.ColumnNames) {
 			result[name] = model
 			columnNameSet.RemoveAll(model.ColumnNames)
 		}
-- 
2.43.0


From 80ff76450f81cbe4ff39591d742b1d9ba5660bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:27 +0000
Subject: [PATCH 040/103] fix: import the null package in GORM models only if
 it is used

---
 format/gorm/gorm.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/format/gorm/gorm.go b/format/gorm/gorm.go
index d66b8c2..e677069 100644
--- a/format/gorm/gorm.go
+++ b/format/gorm/gorm.go
@@ -97,10 +97,6 @@ func NewGoField(column *octopus.Column) *GoField {
 	var fieldType string
 	importSet := util.NewStringSet()
 	nullable := !column.NotNull
-	if nullable {
-		importSet.Add("gopkg.in/guregu/null.v4")
-	}
-
 	columnType := strings.ToLower(column.Type)
 	switch columnType {
 	case octopus.ColTypeChar:
@@ -201,6 +197,10 @@ func NewGoField(column *octopus.Column) *GoField {
 		fieldType = "interface{}"
 	}
 
+	if strings.HasPrefix(fieldType, "null.") {
+		importSet.Add("gopkg.in/guregu/null.v4")
+	}
+
 	fieldName, ok := util.ToUpperCamel(column.Name)
 	overrideName := !ok
 
-- 
2.43.0


From dbcc033eb3fe86636235c572a02e57b946856fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:28 +0000
Subject: [PATCH 041/103] fix: make association field names unique in a GORM
 struct

---
 format/gorm/gorm.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/format/gorm/gorm.go b/format/gorm/gorm.go
index e677069..d2d9bb1 100644
--- a/format/gorm/gorm.go
+++ b/format/gorm/gorm.go
@@ -1,6 +1,7 @@
 package gorm
 
 import (
+	"fmt"
 	"github.com/lechuckroh/octopus-db-tools/format/octopus"
 	"github.com/lechuckroh/octopus-db-tools/util"
 	"regexp"
@@ -64,6 +65,19 @@ func NewGoStruct(
 			}
 		}
 	}
+
+	// association field names should be unique in the struct
+	names := util.NewStringSet()
+	for _, field := range fields {
+		names.Add(field.Name)
+	}
+	for _, associationField := range associationFields {
+		for i := 2; names.Contains(associationField.Name); i++ {
+			associationField.Name = fmt.Sprintf("%s%d", associationField.Type, i)
+		}
+		names.Add(associationField.Name)
+	}
+
 	embeddedModels := extractEmbeddedModels(fields)
 
 	// exclude embedded fields
-- 
2.43.0


From 02ab179a0dba99f18f7a8ffd8a08f49b1857ebc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:30 +0000
Subject: [PATCH 042/103] fix: avoid a GORM struct field having the name of the
 TableName method

---
 format/gorm/gorm.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/format/gorm/gorm.go b/format/gorm/gorm.go
index d2d9bb1..932b618 100644
--- a/format/gorm/gorm.go
+++ b/format/gorm/gorm.go
@@ -228,6 +228,11 @@ func NewGoField(column *octopus.Column) *GoField {
 		fieldName = "_" + fieldName
 		overrideName = true
 	}
+	// struct has a method of the same name
+	if fieldName == "TableName" {
+		fieldName = "TableName_"
+		overrideName = true
+	}
 
 	return &GoField{
 		Column:       column,
-- 
2.43.0


From 2b0e0e7ba0b39bb85e058ed3769d4238929ca7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:31 +0000
Subject: [PATCH 043/103] fix: use pointers for recursive GORM associations

---
 format/gorm/generator.go | 28 +++++++++++++++++++++++++++-
 format/gorm/gorm.go      |  2 ++
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/format/gorm/generator.go b/format/gorm/generator.go
index f83e439..f6d3e66 100644
--- a/format/gorm/generator.go
+++ b/format/gorm/generator.go
@@ -267,7 +267,9 @@ func (g *Generator) GenerateStruct(
 		if associationField.Array {
 			fieldType = "[]" + associationField.Type
 		}
-		if g.option.PointerAssociation {
+		// struct cannot contain itself
+		recursive := !associationField.Array && g.isRecursive(goStruct.table, associationField.Table)
+		if g.option.PointerAssociation || recursive {
 			fieldType = "*" + fieldType
 		}
 
@@ -312,6 +314,30 @@ func (c *{{.Struct.Name}}) TableName() string { return "{{.Table.Name}}" }
 	return tmpl.Execute(wr, &data)
 }
 
+// isRecursive checks if struct of the table is contained in struct of refTable.
+func (g *Generator) isRecursive(table *octopus.Table, refTable *octopus.Table) bool {
+	visited := map[*octopus.Table]bool{}
+	var contains func(t *octopus.Table) bool
+	contains = func(t *octopus.Table) bool {
+		if t == table {
+			return true
+		}
+		if visited[t] {
+			return false
+		}
+		visited[t] = true
+		for _, column := range t.Columns {
+			if ref := column.Ref; ref != nil && ref.Relationship != octopus.RefOneToMany {
+				if next, _ := g.schema.FindReference(*ref); next != nil && contains(next) {
+					return true
+				}
+			}
+		}
+		return false
+	}
+	return contains(refTable)
+}
+
 func gormTag(tags []string) string {
 	if len(tags) > 0 {
 		return fmt.Sprintf("`gorm:\"%s\"`", strings.Join(tags, ";"))
diff --git a/format/gorm/gorm.go b/format/gorm/gorm.go
index 932b618..3ef3e80 100644
--- a/format/gorm/gorm.go
+++ b/format/gorm/gorm.go
@@ -11,6 +11,7 @@ import (
 type GoAssocationField struct {
 	Name       string
 	Type       string
+	Table      *octopus.Table
 	Array      bool
 	ForeignKey string
 	Reference  string
@@ -58,6 +59,7 @@ func NewGoStruct(
 				associationFields = append(associationFields, &GoAssocationField{
 					Name:       refType,
 					Type:       refType,
+					Table:      refTable,
 					Array:      ref.Relationship == octopus.RefOneToMany,
 					ForeignKey: field.Name,
 					Reference:  NewGoField(refColumn).Name,
-- 
2.43.0


From ea94be0f31dde88429f944dd08856932b0230dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:41 +0000
Subject: [PATCH 044/103] fix: list column names in JPA unique constraints

---
 format/jpa/kotlin-gen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 4c2bcc2..3f3b2fd 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -230,7 +230,7 @@ data class {{.IdClassName}}(
 	// unique constraint
 	var uniqueFieldNames []string
 	for _, field := range class.UniqueFields {
-		uniqueFieldNames = append(uniqueFieldNames, util.Quote(field.Name, "\""))
+		uniqueFieldNames = append(uniqueFieldNames, util.Quote(field.Column.Name, "\""))
 	}
 
 	// imports
-- 
2.43.0


From 0b94895e71abc8cc60b866bc505cdee684284afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:42 +0000
Subject: [PATCH 045/103] fix: write each JPA entity annotation on its own line

---
 format/jpa/kotlin-gen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 3f3b2fd..f031ed2 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -155,7 +155,7 @@ package {{.Package}}
 {{end}}
 {{range .JavaImports}}import {{.}}
 {{end}}
-{{range .Annotations}}{{.}}{{end}}
+{{join .Annotations "\n"}}
 @Entity
 {{- if .HasUniqueFields}}
 @Table(name="{{.Table.Name}}", uniqueConstraints = [
-- 
2.43.0


From 39dea440aad0c21081ddaa61e298adc4f168fd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:44 +0000
Subject: [PATCH 046/103] fix: write JPA entities without a package to the
 output directory

---
 format/jpa/kotlin-gen.go | 8 ++++----
 util/io.go               | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index f031ed2..9f78472 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -149,9 +149,9 @@ func (c *KtGenerator) GenerateEntityClass(
 
 	// template
 	tplText := `{{"" -}}
-package {{.Package}}
+{{if .Package}}package {{.Package}}
 
-{{range .Imports}}import {{.}}
+{{end}}{{range .Imports}}import {{.}}
 {{end}}
 {{range .JavaImports}}import {{.}}
 {{end}}
@@ -374,8 +374,8 @@ func (c *KtGenerator) generateRepository(
 	tplString := `{{"" -}}
 package {{.ReposPackage}}
 
-import {{.EntityPackage}}.*
-import org.springframework.data.jpa.repository.JpaRepository
+{{if .EntityPackage}}import {{.EntityPackage}}.*
+{{end}}import org.springframework.data.jpa.repository.JpaRepository
 import org.springframework.stereotype.Repository
 
 @Repository
diff --git a/util/io.go b/util/io.go
index 6625fff..3a13c24 100644
--- a/util/io.go
+++ b/util/io.go
@@ -10,10 +10,10 @@ import (
 
 // MkdirPackage creates nested package directories.
 func MkdirPackage(basedir, pkgName string) (string, error) {
-	if pkgName == "" {
-		return "", nil
+	dir := basedir
+	if pkgName != "" {
+		dir = path.Join(append([]string{basedir}, strings.Split(pkgName, ".")...)...)
 	}
-	dir := path.Join(append([]string{basedir}, strings.Split(pkgName, ".")...)...)
 	if err := os.MkdirAll(dir, 0777); err != nil {
 		return "", err
 	}
-- 
2.43.0


From 7c88703c6fc00ad47db4ca00ec33dbd0798fbeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:45 +0000
Subject: [PATCH 047/103] fix: do not crash on JPA repositories of tables
 without primary key

---
 format/jpa/kotlin-gen.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 9f78472..5d4067b 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -341,6 +341,10 @@ func (c *KtGenerator) generateRepositories(outputPath string) error {
 	}
 
 	for _, class := range classes {
+		// repository requires an id type
+		if len(class.PKFields) == 0 {
+			continue
+		}
 		buf := new(bytes.Buffer)
 		if err := c.generateRepository(buf, class, outputPackage, reposPackage); err != nil {
 			return err
-- 
2.43.0


From dfcf100488d2328dc2e73330f3930e78f1effa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:47 +0000
Subject: [PATCH 048/103] fix: use a non-null id type in JPA repositories

---
 format/jpa/kotlin-gen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 5d4067b..1ee8e1c 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -397,7 +397,7 @@ interface {{.ClassName}}Repository : JpaRepository<{{.ClassName}}, {{.IdClassNam
 	if pkFieldCount > 1 {
 		idClassName = class.Name + "PK"
 	} else {
-		idClassName = class.PKFields[0].Type
+		idClassName = strings.TrimSuffix(class.PKFields[0].Type, "?")
 	}
 
 	data := struct {
-- 
2.43.0


From ddfde8765b09feb4ddb373bb590b0d87dcbbb380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:48 +0000
Subject: [PATCH 049/103] fix: write valid Kotlin for JPA columns without a
 default value

---
 format/jpa/kotlin-gen.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 1ee8e1c..575f185 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -173,15 +173,9 @@ data class {{.Class.Name}}(
     {{- range $annotations}}
         {{. -}}
     {{end}}
-    {{- if .Column.NotNull}}
-		{{- if eq . $.IdEntityField}}
-        override var {{.Name}}: {{.Type}} = {{.DefaultValue}},
-		{{- else}}
-        var {{.Name}}: {{.Type}} = {{.DefaultValue}}{{if hasNext . $.Class.Fields}},{{end}}
-		{{- end}}
-    {{- else}}
-        var {{.Name}}: {{.Type}}{{if hasNext . $.Class.Fields}},{{end}}
-    {{- end}}
+        {{if eq . $.IdEntityField}}override {{end}}var {{.Name}}: {{.Type}}
+    {{- if .DefaultValue}} = {{.DefaultValue}}{{end}}
+    {{- if hasNext . $.Class.Fields}},{{end}}
 {{end}}
 {{- if eq .SuperClass ""}}
 )
-- 
2.43.0


From da95d451e4417aa10554d3d1d14f67f73b97a845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:06 +0000
Subject: [PATCH 050/103] fix: write valid Kotlin for JPA id classes with
 nullable columns

---
 format/jpa/kotlin-gen.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 575f185..f427e67 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -184,9 +184,12 @@ data class {{.Class.Name}}(
 {{- end}}
 
 {{- if ne .IdClassName ""}}
+
 data class {{.IdClassName}}(
 {{- range .Class.PKFields}}
-        var {{.Name}}: {{.Type}} = {{.DefaultValue}}{{if hasNext . $.Class.PKFields}},{{end}}
+        var {{.Name}}: {{.Type}}
+    {{- if .DefaultValue}} = {{.DefaultValue}}{{else if not .Column.NotNull}} = null{{end}}
+    {{- if hasNext . $.Class.PKFields}},{{end}}
 {{- end}}
 ): Serializable
 {{- end}}
-- 
2.43.0


From 47d0edfaa19645dd8aaf304f95832d147d38b719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:08 +0000
Subject: [PATCH 051/103] fix: resolve JPA virtual relations to tables of other
 groups

---
 format/jpa/kotlin-gen.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index f427e67..68bde3b 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -29,6 +29,7 @@ type KtOption struct {
 type KtGenerator struct {
 	schema  *octopus.Schema
 	classes []*KotlinClass
+	refs    []*KotlinClass
 	option  *KtOption
 }
 
@@ -38,17 +39,21 @@ func NewKtGenerator(
 ) *KtGenerator {
 	// populate KotlinClass
 	var classes []*KotlinClass
+	var refs []*KotlinClass
 	for _, table := range schema.Tables {
+		class := NewKotlinClass(table, option)
+		refs = append(refs, class)
 		// TODO: move to Generate() function
 		if option.TableFilter != nil && !option.TableFilter(table) {
 			continue
 		}
-		classes = append(classes, NewKotlinClass(table, option))
+		classes = append(classes, class)
 	}
 
 	return &KtGenerator{
 		schema:  schema,
 		classes: classes,
+		refs:    refs,
 		option:  option,
 	}
 }
@@ -278,7 +283,7 @@ data class {{.IdClassName}}(
 }
 
 func (c *KtGenerator) getClassNameByTableName(tableName string) string {
-	for _, cls := range c.classes {
+	for _, cls := range c.refs {
 		if cls.table.Name == tableName {
 			return cls.Name
 		}
-- 
2.43.0


From 78e08ab29ad40cc20214143a27094ff01f5ed489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:09 +0000
Subject: [PATCH 052/103] fix: quote Kotlin keywords in JPA property names

---
 format/jpa/kotlin.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/format/jpa/kotlin.go b/format/jpa/kotlin.go
index 0558cb6..cb95a65 100644
--- a/format/jpa/kotlin.go
+++ b/format/jpa/kotlin.go
@@ -163,6 +163,9 @@ func NewKotlinField(column *octopus.Column) *KotlinField {
 	}
 
 	fieldName, ok := util.ToLowerCamel(column.Name)
+	if isKotlinKeyword(fieldName) {
+		fieldName = "`" + fieldName + "`"
+	}
 
 	return &KotlinField{
 		Column:       column,
@@ -173,3 +176,14 @@ func NewKotlinField(column *octopus.Column) *KotlinField {
 		Imports:      importSet.Slice(),
 	}
 }
+
+// isKotlinKeyword returns whether a name is a hard keyword of Kotlin.
+func isKotlinKeyword(name string) bool {
+	switch name {
+	case "as", "break", "class", "continue", "do", "else", "false", "for", "fun", "if", "in",
+		"interface", "is", "null", "object", "package", "return", "super", "this", "throw",
+		"true", "try", "typealias", "typeof", "val", "var", "when", "while":
+		return true
+	}
+	return false
+}
-- 
2.43.0


From 929b61616883145f5b80f4bf72179ac8771938b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:10 +0000
Subject: [PATCH 053/103] fix: accept useUTC of sqlalchemy as a flag, as
 documented

---
 format/sqlalchemy/cli.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/sqlalchemy/cli.go b/format/sqlalchemy/cli.go
index db5ddac..793c188 100644
--- a/format/sqlalchemy/cli.go
+++ b/format/sqlalchemy/cli.go
@@ -75,7 +75,7 @@ var CliFlags = []cli.Flag{
 		Usage:   "set unique constraint name suffix",
 		EnvVars: []string{"OCTOPUS_UNIQUE_NAME_SUFFIX"},
 	},
-	&cli.StringFlag{
+	&cli.BoolFlag{
 		Name:    FlagUseUTC,
 		Aliases: []string{"t"},
 		Usage:   "use UTC for audit column default value",
-- 
2.43.0


From 5835c0e1e67d6209ba58fe280e69285288e4ba4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:12 +0000
Subject: [PATCH 054/103] fix: apply composite unique constraints in sqlalchemy
 models

---
 format/sqlalchemy/generator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/sqlalchemy/generator.go b/format/sqlalchemy/generator.go
index 109da63..d23b762 100644
--- a/format/sqlalchemy/generator.go
+++ b/format/sqlalchemy/generator.go
@@ -86,7 +86,7 @@ func (c *Generator) Generate(outputPath string) error {
 		uniqueCstName := table.Name + uniqueNameSuffix
 		var uniqueFieldNames []string
 		for _, field := range class.UniqueFields {
-			uniqueFieldNames = append(uniqueFieldNames, util.Quote(field.Name, "'"))
+			uniqueFieldNames = append(uniqueFieldNames, util.Quote(field.Column.Name, "'"))
 		}
 
 		// class
@@ -96,7 +96,7 @@ func (c *Generator) Generate(outputPath string) error {
 		)
 
 		if len(uniqueFieldNames) > 1 {
-			appendLine(indent + fmt.Sprintf("UniqueConstraint(%s, name='%s')", strings.Join(uniqueFieldNames, ", "), uniqueCstName))
+			appendLine(indent + fmt.Sprintf("__table_args__ = (UniqueConstraint(%s, name='%s'),)", strings.Join(uniqueFieldNames, ", "), uniqueCstName))
 			saImportSet.Add("UniqueConstraint")
 		}
 		appendLine("")
-- 
2.43.0


From e87f780cb656bee3545ddb6b1dd25b78b68ba2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:13 +0000
Subject: [PATCH 055/103] fix: do not make each column of a composite unique
 constraint unique in sqlalchemy models

---
 format/sqlalchemy/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/sqlalchemy/generator.go b/format/sqlalchemy/generator.go
index d23b762..f3cf87a 100644
--- a/format/sqlalchemy/generator.go
+++ b/format/sqlalchemy/generator.go
@@ -157,7 +157,7 @@ func (c *Generator) Generate(outputPath string) error {
 				attributes = append(attributes, "primary_key=True")
 			}
 			// Unique
-			if column.UniqueKey {
+			if column.UniqueKey && len(uniqueFieldNames) == 1 {
 				attributes = append(attributes, "unique=True")
 			}
 			// auto_increment
-- 
2.43.0


From 29f95ee83cf3fc7c2e6d5e1c89c9b83d655d310d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:15 +0000
Subject: [PATCH 056/103] fix: do not pass a scale to sqlalchemy Float columns

---
 format/sqlalchemy/generator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/format/sqlalchemy/generator.go b/format/sqlalchemy/generator.go
index f3cf87a..c2df1eb 100644
--- a/format/sqlalchemy/generator.go
+++ b/format/sqlalchemy/generator.go
@@ -120,7 +120,8 @@ func (c *Generator) Generate(outputPath string) error {
 				if column.Size > 0 {
 					colAttrs = append(colAttrs, fmt.Sprintf("precision=%d", column.Size))
 				}
-				if column.Scale > 0 {
+				// Float has no scale
+				if column.Scale > 0 && lcColumnType == octopus.ColTypeDecimal {
 					colAttrs = append(colAttrs, fmt.Sprintf("scale=%d", column.Scale))
 				}
 
-- 
2.43.0


From f092172ff2a9aca80885474b969d58fa3d4f1978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:16 +0000
Subject: [PATCH 057/103] fix: write valid sqlalchemy columns for types without
 a generic type

---
 format/sqlalchemy/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/sqlalchemy/generator.go b/format/sqlalchemy/generator.go
index c2df1eb..74c490f 100644
--- a/format/sqlalchemy/generator.go
+++ b/format/sqlalchemy/generator.go
@@ -150,7 +150,7 @@ func (c *Generator) Generate(outputPath string) error {
 					}
 				}
 				importSet.Add("from datetime import datetime")
-			} else {
+			} else if field.Type != "" {
 				attributes = append(attributes, field.Type)
 			}
 			// PK
-- 
2.43.0


From b9badbd41875399b7d73dd543cb1aab58f9c4f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:18 +0000
Subject: [PATCH 058/103] fix: import Column in every sqlalchemy file

---
 format/sqlalchemy/generator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/sqlalchemy/generator.go b/format/sqlalchemy/generator.go
index 74c490f..7cce6cb 100644
--- a/format/sqlalchemy/generator.go
+++ b/format/sqlalchemy/generator.go
@@ -193,6 +193,7 @@ func (c *Generator) Generate(outputPath string) error {
 			// reset slice
 			contents = make([]string, 0)
 			saImportSet.Clear()
+			saImportSet.Add("Column")
 			importSet.Clear()
 		}
 	}
-- 
2.43.0


From 73fdfa81be923c234ab57f190b5e359b42fa055d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:41 +0000
Subject: [PATCH 059/103] fix: define TZDateTime in every sqlalchemy file which
 uses it

---
 format/sqlalchemy/generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/sqlalchemy/generator.go b/format/sqlalchemy/generator.go
index 7cce6cb..08242bb 100644
--- a/format/sqlalchemy/generator.go
+++ b/format/sqlalchemy/generator.go
@@ -182,6 +182,9 @@ func (c *Generator) Generate(outputPath string) error {
 			contents = append(contents, classLines...)
 		} else {
 			contents = append(contents, c.getHeaderLines(importSet.Slice(), saImportSet.Slice())...)
+			if useTZDateTime {
+				contents = append(contents, c.getTZDateTimeLines()...)
+			}
 			contents = append(contents, classLines...)
 			contents = append(contents, "")
 
@@ -195,6 +198,7 @@ func (c *Generator) Generate(outputPath string) error {
 			saImportSet.Clear()
 			saImportSet.Add("Column")
 			importSet.Clear()
+			useTZDateTime = false
 		}
 	}
 
-- 
2.43.0


From 621b7ae223ab337a9e61d8c9bbf321ed84b9ed5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:43 +0000
Subject: [PATCH 060/103] fix: do not use names reserved by Python or
 sqlalchemy as sqlalchemy attributes

---
 format/sqlalchemy/sqlalchemy.go | 7 ++++++-
 util/python.go                  | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/format/sqlalchemy/sqlalchemy.go b/format/sqlalchemy/sqlalchemy.go
index 17f7e4a..8554a75 100644
--- a/format/sqlalchemy/sqlalchemy.go
+++ b/format/sqlalchemy/sqlalchemy.go
@@ -131,7 +131,7 @@ func NewSaField(column *octopus.Column) *SaField {
 	fieldName, ok := util.ToLowerSnake(column.Name)
 
 	// check python reserved words
-	reservedWord := util.IsPythonReservedWord(fieldName)
+	reservedWord := util.IsPythonReservedWord(fieldName) || isSaReservedName(fieldName)
 	if reservedWord {
 		fieldName = fieldName + "_"
 	}
@@ -144,3 +144,8 @@ func NewSaField(column *octopus.Column) *SaField {
 		Imports:      importSet.Slice(),
 	}
 }
+
+// isSaReservedName returns whether a name has another meaning in the body of a declarative class.
+func isSaReservedName(name string) bool {
+	return name == "metadata" || name == "registry" || name == "datetime"
+}
diff --git a/util/python.go b/util/python.go
index d3e50b1..6aab77c 100644
--- a/util/python.go
+++ b/util/python.go
@@ -4,6 +4,8 @@ var pythonReservedWords = [...]string{
 	"and",
 	"as",
 	"assert",
+	"async",
+	"await",
 	"break",
 	"class",
 	"continue",
-- 
2.43.0


From 015a2a918aa98b10381762f6acc2f6c362f89276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:00 +0000
Subject: [PATCH 061/103] fix: write true boolean defaults to liquibase
 changelogs

---
 format/liquibase/generator.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/format/liquibase/generator.go b/format/liquibase/generator.go
index fd59005..60a44e0 100644
--- a/format/liquibase/generator.go
+++ b/format/liquibase/generator.go
@@ -411,7 +411,7 @@ func newLqDefaultValue(column *octopus.Column) (*LqDefaultValue, error) {
 	if util.IsStringType(column.Type) {
 		result.DefaultValue = column.DefaultValue
 	} else if util.IsBooleanType(column.Type) {
-		result.DefaultValueBoolean = NewBool(column.DefaultValue == "true")
+		result.DefaultValueBoolean = NewBool(parseBool(column.DefaultValue))
 	} else if util.IsNumericType(column.Type) {
 		if util.IsIntType(column.Type) {
 			if num, err := strconv.Atoi(column.DefaultValue); err != nil {
@@ -435,6 +435,11 @@ func newLqDefaultValue(column *octopus.Column) (*LqDefaultValue, error) {
 	return &result, nil
 }
 
+func parseBool(s string) bool {
+	value, err := strconv.ParseBool(s)
+	return err == nil && value
+}
+
 type LqColumn struct {
 	Name                string         `yaml:"name"`
 	Type                string         `yaml:"type"`
-- 
2.43.0


From 561a702c5cb586f49f0272f46a5940eac903481c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:01 +0000
Subject: [PATCH 062/103] fix: write numeric defaults of sized integer types to
 liquibase changelogs

---
 format/liquibase/generator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/liquibase/generator.go b/format/liquibase/generator.go
index 60a44e0..384dc02 100644
--- a/format/liquibase/generator.go
+++ b/format/liquibase/generator.go
@@ -412,8 +412,8 @@ func newLqDefaultValue(column *octopus.Column) (*LqDefaultValue, error) {
 		result.DefaultValue = column.DefaultValue
 	} else if util.IsBooleanType(column.Type) {
 		result.DefaultValueBoolean = NewBool(parseBool(column.DefaultValue))
-	} else if util.IsNumericType(column.Type) {
-		if util.IsIntType(column.Type) {
+	} else if octopus.IsColTypeNumeric(column.Type) {
+		if !octopus.IsColTypeDecimal(column.Type) {
 			if num, err := strconv.Atoi(column.DefaultValue); err != nil {
 				return nil, err
 			} else {
-- 
2.43.0


From b35321dd501732929033e6d3e2a6eb5ec0834a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:03 +0000
Subject: [PATCH 063/103] fix: write function defaults as computed values to
 liquibase changelogs

---
 format/liquibase/generator.go | 65 +++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 29 deletions(-)

diff --git a/format/liquibase/generator.go b/format/liquibase/generator.go
index 384dc02..85f86d6 100644
--- a/format/liquibase/generator.go
+++ b/format/liquibase/generator.go
@@ -307,13 +307,14 @@ func newAddAutoIncrement(table *octopus.Table, column *octopus.Column) *LqAddAut
 }
 
 type LqAddDefaultValue struct {
-	TableName           string      `yaml:"tableName"`
-	ColumnName          string      `yaml:"columnName"`
-	ColumnDataType      string      `yaml:"columnDataType,omitempty"`
-	DefaultValue        string      `yaml:"defaultValue,omitempty"`
-	DefaultValueBoolean *bool       `yaml:"defaultValueBoolean,omitempty"`
-	DefaultValueNumeric interface{} `yaml:"defaultValueNumeric,omitempty"`
-	DefaultValueDate    string      `yaml:"defaultValueDate,omitempty"`
+	TableName            string      `yaml:"tableName"`
+	ColumnName           string      `yaml:"columnName"`
+	ColumnDataType       string      `yaml:"columnDataType,omitempty"`
+	DefaultValue         string      `yaml:"defaultValue,omitempty"`
+	DefaultValueBoolean  *bool       `yaml:"defaultValueBoolean,omitempty"`
+	DefaultValueNumeric  interface{} `yaml:"defaultValueNumeric,omitempty"`
+	DefaultValueDate     string      `yaml:"defaultValueDate,omitempty"`
+	DefaultValueComputed string      `yaml:"defaultValueComputed,omitempty"`
 }
 
 func newAddDefaultValue(table *octopus.Table, column *octopus.Column) (*LqAddDefaultValue, error) {
@@ -321,13 +322,14 @@ func newAddDefaultValue(table *octopus.Table, column *octopus.Column) (*LqAddDef
 		return nil, err
 	} else {
 		return &LqAddDefaultValue{
-			TableName:           table.Name,
-			ColumnName:          column.Name,
-			ColumnDataType:      getLiquibaseType(column),
-			DefaultValue:        dv.DefaultValue,
-			DefaultValueBoolean: dv.DefaultValueBoolean,
-			DefaultValueNumeric: dv.DefaultValueNumeric,
-			DefaultValueDate:    dv.DefaultValueDate,
+			TableName:            table.Name,
+			ColumnName:           column.Name,
+			ColumnDataType:       getLiquibaseType(column),
+			DefaultValue:         dv.DefaultValue,
+			DefaultValueBoolean:  dv.DefaultValueBoolean,
+			DefaultValueNumeric:  dv.DefaultValueNumeric,
+			DefaultValueDate:     dv.DefaultValueDate,
+			DefaultValueComputed: dv.DefaultValueComputed,
 		}, nil
 	}
 }
@@ -399,16 +401,19 @@ func newDropUniqueConstraint(table *octopus.Table, uniqueConstraintName string)
 // ----------------------------------------------------------------------------
 
 type LqDefaultValue struct {
-	DefaultValue        string      `yaml:"defaultValue,omitempty"`
-	DefaultValueBoolean *bool       `yaml:"defaultValueBoolean,omitempty"`
-	DefaultValueNumeric interface{} `yaml:"defaultValueNumeric,omitempty"`
-	DefaultValueDate    string      `yaml:"defaultValueDate,omitempty"`
+	DefaultValue         string      `yaml:"defaultValue,omitempty"`
+	DefaultValueBoolean  *bool       `yaml:"defaultValueBoolean,omitempty"`
+	DefaultValueNumeric  interface{} `yaml:"defaultValueNumeric,omitempty"`
+	DefaultValueDate     string      `yaml:"defaultValueDate,omitempty"`
+	DefaultValueComputed string      `yaml:"defaultValueComputed,omitempty"`
 }
 
 func newLqDefaultValue(column *octopus.Column) (*LqDefaultValue, error) {
 	result := LqDefaultValue{}
 
-	if util.IsStringType(column.Type) {
+	if value, fn := column.GetDefaultValue(); fn {
+		result.DefaultValueComputed = value
+	} else if util.IsStringType(column.Type) {
 		result.DefaultValue = column.DefaultValue
 	} else if util.IsBooleanType(column.Type) {
 		result.DefaultValueBoolean = NewBool(parseBool(column.DefaultValue))
@@ -441,16 +446,17 @@ func parseBool(s string) bool {
 }
 
 type LqColumn struct {
-	Name                string         `yaml:"name"`
-	Type                string         `yaml:"type"`
-	AutoIncrement       *bool          `yaml:"autoIncrement,omitempty"`
-	Constraints         *LqConstraints `yaml:"constraints,omitempty"`
-	Remarks             string         `yaml:"remarks,omitempty"`
-	DefaultValue        string         `yaml:"defaultValue,omitempty"`
-	DefaultValueBoolean *bool          `yaml:"defaultValueBoolean,omitempty"`
-	DefaultValueNumeric interface{}    `yaml:"defaultValueNumeric,omitempty"`
-	DefaultValueDate    string         `yaml:"defaultValueDate,omitempty"`
-	AfterColumn         string         `yaml:"afterColumn,omitempty"`
+	Name                 string         `yaml:"name"`
+	Type                 string         `yaml:"type"`
+	AutoIncrement        *bool          `yaml:"autoIncrement,omitempty"`
+	Constraints          *LqConstraints `yaml:"constraints,omitempty"`
+	Remarks              string         `yaml:"remarks,omitempty"`
+	DefaultValue         string         `yaml:"defaultValue,omitempty"`
+	DefaultValueBoolean  *bool          `yaml:"defaultValueBoolean,omitempty"`
+	DefaultValueNumeric  interface{}    `yaml:"defaultValueNumeric,omitempty"`
+	DefaultValueDate     string         `yaml:"defaultValueDate,omitempty"`
+	DefaultValueComputed string         `yaml:"defaultValueComputed,omitempty"`
+	AfterColumn          string         `yaml:"afterColumn,omitempty"`
 }
 
 func newLqColumn(column *octopus.Column, createSeparatePK bool, createSeparateUq bool) (*LqColumn, error) {
@@ -492,6 +498,7 @@ func newLqColumn(column *octopus.Column, createSeparatePK bool, createSeparateUq
 			lc.DefaultValueBoolean = dv.DefaultValueBoolean
 			lc.DefaultValueNumeric = dv.DefaultValueNumeric
 			lc.DefaultValueDate = dv.DefaultValueDate
+			lc.DefaultValueComputed = dv.DefaultValueComputed
 		}
 	}
 	return &lc, nil
-- 
2.43.0


From c2f6d431574b09f0a5862eb17c2cdd2b4aa15bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:04 +0000
Subject: [PATCH 064/103] fix: write the values of enum and set columns to
 liquibase changelogs

---
 format/liquibase/generator.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/format/liquibase/generator.go b/format/liquibase/generator.go
index 85f86d6..f512227 100644
--- a/format/liquibase/generator.go
+++ b/format/liquibase/generator.go
@@ -616,6 +616,14 @@ func getLiquibaseType(column *octopus.Column) string {
 		fallthrough
 	case octopus.ColTypeBlob32:
 		typ = "blob"
+	case octopus.ColTypeEnum:
+		fallthrough
+	case octopus.ColTypeSet:
+		var values []string
+		for _, value := range column.Values {
+			values = append(values, "'"+strings.ReplaceAll(value, "'", "''")+"'")
+		}
+		return fmt.Sprintf("%s(%s)", column.Type, strings.Join(values, ","))
 	default:
 		typ = column.Type
 	}
-- 
2.43.0


From e43e647a30205afbc1da2efb162d94d64f65fe3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:06 +0000
Subject: [PATCH 065/103] fix: strip the function marker from the null value of
 liquibase constraints

---
 format/liquibase/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/liquibase/generator.go b/format/liquibase/generator.go
index f512227..c64f151 100644
--- a/format/liquibase/generator.go
+++ b/format/liquibase/generator.go
@@ -274,7 +274,7 @@ func newAddNotNullConstraint(table *octopus.Table, column *octopus.Column) *LqAd
 		TableName:        table.Name,
 		ColumnName:       column.Name,
 		ColumnDataType:   getLiquibaseType(column),
-		DefaultNullValue: column.DefaultValue,
+		DefaultNullValue: strings.TrimPrefix(column.DefaultValue, octopus.FnPrefix),
 	}
 }
 
-- 
2.43.0


From a7f62b7ab72b761563aacadad58598a9ffc411e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:08 +0000
Subject: [PATCH 066/103] fix: write empty remarks when a comment is removed in
 liquibase diff

---
 format/liquibase/generator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/liquibase/generator.go b/format/liquibase/generator.go
index c64f151..842a261 100644
--- a/format/liquibase/generator.go
+++ b/format/liquibase/generator.go
@@ -163,7 +163,7 @@ func newRenameTable(newTableName string, oldTableName string) *LqRenameTable {
 
 type LqSetTableRemarks struct {
 	TableName string `yaml:"tableName"`
-	Remarks   string `yaml:"remarks,omitempty"`
+	Remarks   string `yaml:"remarks"`
 }
 
 func newSetTableRemarks(table *octopus.Table) *LqSetTableRemarks {
@@ -221,7 +221,7 @@ func newDropColumn(table *octopus.Table, columnName string) *LqDropColumn {
 type LqSetColumnRemarks struct {
 	TableName  string `yaml:"tableName"`
 	ColumnName string `yaml:"columnName"`
-	Remarks    string `yaml:"remarks,omitempty"`
+	Remarks    string `yaml:"remarks"`
 }
 
 func newSetColumnRemarks(table *octopus.Table, column *octopus.Column) *LqSetColumnRemarks {
-- 
2.43.0


From d239d639ea2d09026985a4d5a01df405e3f30a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:09 +0000
Subject: [PATCH 067/103] fix: apply uniqueNameSuffix to liquibase diff

---
 format/diff/cli.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/format/diff/cli.go b/format/diff/cli.go
index 54e7ca0..d9aba94 100644
--- a/format/diff/cli.go
+++ b/format/diff/cli.go
@@ -70,11 +70,12 @@ func LiquibaseAction(c *cli.Context) error {
 
 	return liquibase.NewDiff(
 		&liquibase.DiffOption{
-			Author:      c.String(FlagAuthor),
-			DiffFrom:    fromSchema,
-			DiffTo:      toSchema,
-			TableFilter: octopus.GetTableFilterFn(c.String(FlagGroups)),
-			UseComments: c.Bool(FlagUseComments),
+			Author:           c.String(FlagAuthor),
+			DiffFrom:         fromSchema,
+			DiffTo:           toSchema,
+			TableFilter:      octopus.GetTableFilterFn(c.String(FlagGroups)),
+			UniqueNameSuffix: c.String(FlagUniqueNameSuffix),
+			UseComments:      c.Bool(FlagUseComments),
 		},
 	).Generate(c.String(FlagOutput))
 }
-- 
2.43.0


From 6e58dbb77d31031c2708979f3de8e7c2cdd755c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:11 +0000
Subject: [PATCH 068/103] fix: drop and add liquibase unique constraints only
 if they exist

---
 format/liquibase/diff.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index 1c6594c..18af50e 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -226,7 +226,7 @@ func (c *Diff) diffTable(
 	uniqueChanged := !uqSet.Equals(oldUqSet)
 
 	// drop unique constraint
-	if uniqueChanged {
+	if uniqueChanged && oldUqSet.Size() > 0 {
 		uniqueConstraintName := table.Name + uniqueNameSuffix
 		changeSet := newLqChangeSet(id.bumpMinor(), author)
 		changeSet.Append("dropUniqueConstraint", newDropUniqueConstraint(table, uniqueConstraintName))
@@ -289,13 +289,11 @@ func (c *Diff) diffTable(
 	}
 
 	// add unique constraint
-	if uniqueChanged {
+	if uniqueChanged && uqSet.Size() > 0 {
 		uniqueConstraintName := table.Name + uniqueNameSuffix
 		changeSet := newLqChangeSet(id.bumpMinor(), author)
-		if uqSet.Size() > 0 {
-			uniqueColumeNames := uqSet.Join(", ")
-			changeSet.Append("addUniqueConstraint", newAddUniqueConstraint(table, uniqueColumeNames, uniqueConstraintName))
-		}
+		uniqueColumeNames := uqSet.Join(", ")
+		changeSet.Append("addUniqueConstraint", newAddUniqueConstraint(table, uniqueColumeNames, uniqueConstraintName))
 		changeSets = append(changeSets, changeSet)
 	}
 
-- 
2.43.0


From 4107287ae44663cb8d45cf44d6af345ed4780063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:12 +0000
Subject: [PATCH 069/103] fix: do not drop tables of other groups in schema
 diff

---
 format/diff/diff.go      | 10 +++++++++-
 format/liquibase/diff.go | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index 258bd25..cb8890d 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -35,7 +35,15 @@ func getDiff(option *Option) (*Result, error) {
 	var addedTables []*octopus.Table
 	renamedTableMap := make(map[*octopus.Table]*octopus.Table)
 	removedTableNames := util.NewStringSet()
-	for name := range fromTableByName {
+	for name, table := range fromTableByName {
+		// filter table
+		if option.TableFilter != nil && !option.TableFilter(table) {
+			continue
+		}
+		// moved out of the groups
+		if option.DiffTo.TableByName(name) != nil {
+			continue
+		}
 		removedTableNames.Add(name)
 	}
 
diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index 18af50e..fb67135 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -53,7 +53,15 @@ func (c *Diff) generate() ([]byte, error) {
 	var addedTables []*octopus.Table
 	renamedTableMap := make(map[*octopus.Table]*octopus.Table)
 	removedTableNames := util.NewStringSet()
-	for name := range fromTableByName {
+	for name, table := range fromTableByName {
+		// filter table
+		if option.TableFilter != nil && !option.TableFilter(table) {
+			continue
+		}
+		// moved out of the groups
+		if option.DiffTo.TableByName(name) != nil {
+			continue
+		}
 		removedTableNames.Add(name)
 	}
 
-- 
2.43.0


From 37a1fedf3b7e70c017f14f19058849514c0128ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:14 +0000
Subject: [PATCH 070/103] fix: write renamed tables and columns in a fixed
 order in schema diff

---
 format/diff/diff.go      | 12 ++++++++++--
 format/liquibase/diff.go | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index cb8890d..93fc0f3 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -101,7 +101,11 @@ func getDiff(option *Option) (*Result, error) {
 	}
 
 	// renamed tables
-	for newTable, oldTable := range renamedTableMap {
+	for _, newTable := range addedTables {
+		oldTable, ok := renamedTableMap[newTable]
+		if !ok {
+			continue
+		}
 		id.bumpMajor()
 
 		// drop old unique constraint
@@ -232,7 +236,11 @@ func diffTable(
 	}
 
 	// renamed columns
-	for newColumn, oldColumn := range renamedColumnMap {
+	for _, newColumn := range addedColumns {
+		oldColumn, ok := renamedColumnMap[newColumn]
+		if !ok {
+			continue
+		}
 		changeSet := newDiffChangeSet(id.bumpMinor(), author)
 		changeSet.Add(&RenameColumn{Table: table, OldColumn: oldColumn, NewColumn: newColumn})
 		changeSets = append(changeSets, changeSet)
diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index fb67135..89197f7 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -119,7 +119,11 @@ func (c *Diff) generate() ([]byte, error) {
 	}
 
 	// renamed tables
-	for newTable, oldTable := range renamedTableMap {
+	for _, newTable := range addedTables {
+		oldTable, ok := renamedTableMap[newTable]
+		if !ok {
+			continue
+		}
 		id.bumpMajor()
 
 		// drop old unique constraint
@@ -249,7 +253,11 @@ func (c *Diff) diffTable(
 	}
 
 	// renamed columns
-	for newColumn, oldColumn := range renamedColumnMap {
+	for _, newColumn := range addedColumns {
+		oldColumn, ok := renamedColumnMap[newColumn]
+		if !ok {
+			continue
+		}
 		changeSet := newLqChangeSet(id.bumpMinor(), author)
 		changeSet.Append("renameColumn", newRenameColumn(table, newColumn, oldColumn))
 		changeSets = append(changeSets, changeSet)
-- 
2.43.0


From 3224593da8548f5f953398a07075f86f9392260b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:15 +0000
Subject: [PATCH 071/103] fix: report added columns in flyway and markdown diff

---
 format/diff/diff.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index 93fc0f3..9839432 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -265,6 +265,7 @@ func diffTable(
 				AfterColumn:  nil,
 			})
 		}
+		changeSets = append(changeSets, changeSet)
 	}
 
 	// primary key
-- 
2.43.0


From d2a051ce41347d17a1ba4e9053e4af1d14c87d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:17 +0000
Subject: [PATCH 072/103] fix: drop removed columns after the primary key is
 changed in schema diff

---
 format/diff/diff.go      | 14 +++++++-------
 format/liquibase/diff.go | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index 9839432..bf52937 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -228,13 +228,6 @@ func diffTable(
 		changeSets = append(changeSets, changeSet)
 	}
 
-	// removed columns
-	for _, columnName := range removedColumnNameSet.Slice() {
-		changeSet := newDiffChangeSet(id.bumpMinor(), author)
-		changeSet.Add(&DropColumn{Table: table, ColumnName: columnName})
-		changeSets = append(changeSets, changeSet)
-	}
-
 	// renamed columns
 	for _, newColumn := range addedColumns {
 		oldColumn, ok := renamedColumnMap[newColumn]
@@ -277,6 +270,13 @@ func diffTable(
 		changeSets = append(changeSets, changeSet)
 	}
 
+	// removed columns
+	for _, columnName := range removedColumnNameSet.Slice() {
+		changeSet := newDiffChangeSet(id.bumpMinor(), author)
+		changeSet.Add(&DropColumn{Table: table, ColumnName: columnName})
+		changeSets = append(changeSets, changeSet)
+	}
+
 	// unique constraint
 	if uniqueChanged && uqSet.Size() > 0{
 		changeSet := newDiffChangeSet(id.bumpMinor(), author)
diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index 89197f7..5b5fcba 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -245,13 +245,6 @@ func (c *Diff) diffTable(
 		changeSets = append(changeSets, changeSet)
 	}
 
-	// removed columns
-	for _, columnName := range removedColumnNameSet.Slice() {
-		changeSet := newLqChangeSet(id.bumpMinor(), author)
-		changeSet.Append("dropColumn", newDropColumn(table, columnName))
-		changeSets = append(changeSets, changeSet)
-	}
-
 	// renamed columns
 	for _, newColumn := range addedColumns {
 		oldColumn, ok := renamedColumnMap[newColumn]
@@ -304,6 +297,13 @@ func (c *Diff) diffTable(
 		changeSets = append(changeSets, changeSet)
 	}
 
+	// removed columns
+	for _, columnName := range removedColumnNameSet.Slice() {
+		changeSet := newLqChangeSet(id.bumpMinor(), author)
+		changeSet.Append("dropColumn", newDropColumn(table, columnName))
+		changeSets = append(changeSets, changeSet)
+	}
+
 	// add unique constraint
 	if uniqueChanged && uqSet.Size() > 0 {
 		uniqueConstraintName := table.Name + uniqueNameSuffix
-- 
2.43.0


From 7e37b08f73d7ee673f1e7db106e52c1f1de463ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:18 +0000
Subject: [PATCH 073/103] fix: keep the primary key when its columns are
 renamed in schema diff

---
 format/diff/diff.go      | 7 +++++++
 format/liquibase/diff.go | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index bf52937..9c8f875 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -264,6 +264,13 @@ func diffTable(
 	// primary key
 	pkSet := table.PrimaryKeyNameSet()
 	oldPkSet := oldTable.PrimaryKeyNameSet()
+	// primary key follows renamed columns
+	for _, column := range addedColumns {
+		if oldColumn, ok := renamedColumnMap[column]; ok && oldColumn.PrimaryKey {
+			oldPkSet.Remove(oldColumn.Name)
+			oldPkSet.Add(column.Name)
+		}
+	}
 	if !pkSet.Equals(oldPkSet) {
 		changeSet := newDiffChangeSet(id.bumpMinor(), author)
 		changeSet.Add(&UpdatePrimaryKey{OldTable: oldTable, NewTable: table})
diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index 5b5fcba..b21339d 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -285,6 +285,13 @@ func (c *Diff) diffTable(
 	// primary key
 	pkSet := table.PrimaryKeyNameSet()
 	oldPkSet := oldTable.PrimaryKeyNameSet()
+	// primary key follows renamed columns
+	for _, column := range addedColumns {
+		if oldColumn, ok := renamedColumnMap[column]; ok && oldColumn.PrimaryKey {
+			oldPkSet.Remove(oldColumn.Name)
+			oldPkSet.Add(column.Name)
+		}
+	}
 	if !pkSet.Equals(oldPkSet) {
 		changeSet := newLqChangeSet(id.bumpMinor(), author)
 		if oldPkSet.Size() > 0 {
-- 
2.43.0


From c2d1306191dbd2c8824f5fc1aec6db882153bac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:20 +0000
Subject: [PATCH 074/103] fix: report changed enum and set values in schema
 diff

---
 format/diff/diff.go      |  3 ++-
 format/diff/markdown.go  | 10 +++++++++-
 format/liquibase/diff.go |  3 ++-
 format/octopus/column.go | 16 +++++++++++++++-
 4 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index 9c8f875..07078f5 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -314,7 +314,8 @@ func diffColumn(
 		changeSets = append(changeSets, changeSet)
 	}
 
-	if column.Type != oldColumn.Type || column.Size != oldColumn.Size || column.Scale != oldColumn.Scale {
+	if column.Type != oldColumn.Type || column.Size != oldColumn.Size || column.Scale != oldColumn.Scale ||
+		!column.EqualValues(oldColumn) {
 		changeSet := newDiffChangeSet(id.bumpMinor(), author)
 		changeSet.Add(&ChangeColumnType{Table: table, OldColumn: oldColumn, NewColumn: column})
 		changeSets = append(changeSets, changeSet)
diff --git a/format/diff/markdown.go b/format/diff/markdown.go
index ebc8aa0..1b6eef9 100644
--- a/format/diff/markdown.go
+++ b/format/diff/markdown.go
@@ -2,6 +2,7 @@ package diff
 
 import (
 	"fmt"
+	"github.com/lechuckroh/octopus-db-tools/format/octopus"
 	"github.com/lechuckroh/octopus-db-tools/util"
 	"io"
 	"reflect"
@@ -201,7 +202,14 @@ func (w *MarkdownChangeSetWriter) toSetColumnCommentMD(c *SetColumnComment) (str
 
 func (w *MarkdownChangeSetWriter) toChangeColumnTypeMD(c *ChangeColumnType) (string, error) {
 	return fmt.Sprintf("change column type: `%s` :`%s` → `%s`",
-		c.NewColumn.Name, c.OldColumn.Format(), c.NewColumn.Format()), nil
+		c.NewColumn.Name, formatColumnType(c.OldColumn), formatColumnType(c.NewColumn)), nil
+}
+
+func formatColumnType(column *octopus.Column) string {
+	if len(column.Values) > 0 {
+		return fmt.Sprintf("%s(%s)", column.Type, strings.Join(column.Values, ", "))
+	}
+	return column.Format()
 }
 
 func (w *MarkdownChangeSetWriter) toRenameColumnMD(c *RenameColumn) (string, error) {
diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index b21339d..4674174 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -340,7 +340,8 @@ func (c *Diff) diffColumn(
 		changeSets = append(changeSets, changeSet)
 	}
 
-	if column.Type != oldColumn.Type || column.Size != oldColumn.Size || column.Scale != oldColumn.Scale {
+	if column.Type != oldColumn.Type || column.Size != oldColumn.Size || column.Scale != oldColumn.Scale ||
+		!column.EqualValues(oldColumn) {
 		changeSet := newLqChangeSet(id.bumpMinor(), author)
 		changeSet.Append("modifyDataType", newModifyDataType(table, column))
 		changeSets = append(changeSets, changeSet)
diff --git a/format/octopus/column.go b/format/octopus/column.go
index 8aae547..4a2d83b 100644
--- a/format/octopus/column.go
+++ b/format/octopus/column.go
@@ -94,7 +94,21 @@ func (c *Column) IsRenamed(target *Column, excludeDescription bool) bool {
 		c.UniqueKey == target.UniqueKey &&
 		c.AutoIncremental == target.AutoIncremental &&
 		c.DefaultValue == target.DefaultValue &&
-		c.OnUpdate == target.OnUpdate
+		c.OnUpdate == target.OnUpdate &&
+		c.EqualValues(target)
+}
+
+// EqualValues checks if permitted values of two columns are the same.
+func (c *Column) EqualValues(target *Column) bool {
+	if len(c.Values) != len(target.Values) {
+		return false
+	}
+	for i, value := range c.Values {
+		if value != target.Values[i] {
+			return false
+		}
+	}
+	return true
 }
 
 func (c *Column) Validate(autoCorrect bool) error {
-- 
2.43.0


From 405614960657f84067d0727d86441ba945c6ebad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:22 +0000
Subject: [PATCH 075/103] fix: compare comments of renamed tables in schema
 diff

---
 format/diff/diff.go      | 7 +++++++
 format/liquibase/diff.go | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index 07078f5..0d59329 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -125,6 +125,13 @@ func getDiff(option *Option) (*Result, error) {
 			result.Add(changeSet)
 		}
 
+		// table comment
+		if useComments && newTable.Description != oldTable.Description {
+			changeSet := newDiffChangeSet(id.bumpMinor(), author)
+			changeSet.Add(&SetTableComment{Table: newTable})
+			result.Add(changeSet)
+		}
+
 		// add new unique constraint
 		newUqSet := newTable.UniqueKeyNameSet()
 		if newUqSet.Size() > 0 {
diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index 4674174..c254b34 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -140,6 +140,13 @@ func (c *Diff) generate() ([]byte, error) {
 			result.AddChangeSet(changeSet)
 		}
 
+		// table remarks
+		if useComments && newTable.Description != oldTable.Description {
+			changeSet := newLqChangeSet(id.bumpMinor(), author)
+			changeSet.Append("setTableRemarks", newSetTableRemarks(newTable))
+			result.AddChangeSet(changeSet)
+		}
+
 		// add new unique constraint
 		newUqSet := newTable.UniqueKeyNameSet()
 		if newUqSet.Size() > 0 {
-- 
2.43.0


From 6a46c184e40b06aff3ae5bda46e5af5bc8510a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:16 +0000
Subject: [PATCH 076/103] fix: write changed column types to flyway diff

---
 format/diff/mysql.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/format/diff/mysql.go b/format/diff/mysql.go
index 120f678..62b97d1 100644
--- a/format/diff/mysql.go
+++ b/format/diff/mysql.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"github.com/lechuckroh/octopus-db-tools/format/mysql"
+	"github.com/lechuckroh/octopus-db-tools/format/octopus"
 	"reflect"
 	"strings"
 )
@@ -60,6 +61,21 @@ func (b *MysqlQueryBuilder) ToSQL(change interface{}) ([]string, error) {
 	}
 }
 
+func (b *MysqlQueryBuilder) columnDefinition(column *octopus.Column) string {
+	definition := column.Name + " " + b.mysqlExporter.ToMysqlColumnType(column)
+	if constraints := b.mysqlExporter.ColumnConstraints(column); constraints != "" {
+		definition += " " + constraints
+	}
+	return definition
+}
+
+// toModifyColumnSQL returns statement to set the whole definition of the column.
+func (b *MysqlQueryBuilder) toModifyColumnSQL(table *octopus.Table, column *octopus.Column) []string {
+	return []string{
+		fmt.Sprintf("ALTER TABLE %s MODIFY COLUMN %s;", table.Name, b.columnDefinition(column)),
+	}
+}
+
 func (b *MysqlQueryBuilder) toCreateTableSQL(c *CreateTable) ([]string, error) {
 	buf := new(bytes.Buffer)
 	if err := b.mysqlExporter.ExportTable(buf, c.Table); err != nil {
@@ -136,8 +152,7 @@ func (b *MysqlQueryBuilder) toSetColumnCommentSQL(c *SetColumnComment) ([]string
 }
 
 func (b *MysqlQueryBuilder) toChangeColumnTypeSQL(c *ChangeColumnType) ([]string, error) {
-	// TODO
-	return nil, nil
+	return b.toModifyColumnSQL(c.Table, c.NewColumn), nil
 }
 
 func (b *MysqlQueryBuilder) toRenameColumnSQL(c *RenameColumn) ([]string, error) {
-- 
2.43.0


From e6aadafbbd0d537a5805137174057c8a64702ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:18 +0000
Subject: [PATCH 077/103] fix: write changed column comments to flyway diff

---
 format/diff/mysql.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/format/diff/mysql.go b/format/diff/mysql.go
index 62b97d1..10f2b86 100644
--- a/format/diff/mysql.go
+++ b/format/diff/mysql.go
@@ -147,8 +147,7 @@ func (b *MysqlQueryBuilder) toDropColumnSQL(c *DropColumn) ([]string, error) {
 }
 
 func (b *MysqlQueryBuilder) toSetColumnCommentSQL(c *SetColumnComment) ([]string, error) {
-	// TODO
-	return nil, nil
+	return b.toModifyColumnSQL(c.Table, c.Column), nil
 }
 
 func (b *MysqlQueryBuilder) toChangeColumnTypeSQL(c *ChangeColumnType) ([]string, error) {
-- 
2.43.0


From 38ec3630b14feada35e0c38a7322ccac6bbb013d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:20 +0000
Subject: [PATCH 078/103] fix: write changed default values to flyway diff

---
 format/diff/mysql.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/format/diff/mysql.go b/format/diff/mysql.go
index 10f2b86..e478219 100644
--- a/format/diff/mysql.go
+++ b/format/diff/mysql.go
@@ -193,6 +193,5 @@ func (b *MysqlQueryBuilder) toSetAutoIncrementSQL(c *SetAutoIncrement) ([]string
 }
 
 func (b *MysqlQueryBuilder) toSetDefaultValueSQL(c *SetDefaultValue) ([]string, error) {
-	// TODO
-	return nil, nil
+	return b.toModifyColumnSQL(c.Table, c.Column), nil
 }
-- 
2.43.0


From bc5c8880f647002cb7746cde158bcbdae9c59c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:21 +0000
Subject: [PATCH 079/103] fix: keep other column attributes when nullability
 changes in flyway diff

---
 format/diff/mysql.go | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/format/diff/mysql.go b/format/diff/mysql.go
index e478219..be9bf97 100644
--- a/format/diff/mysql.go
+++ b/format/diff/mysql.go
@@ -160,17 +160,7 @@ func (b *MysqlQueryBuilder) toRenameColumnSQL(c *RenameColumn) ([]string, error)
 }
 
 func (b *MysqlQueryBuilder) toSetNotNullConstraintSQL(c *SetNotNullConstraint) ([]string, error) {
-	tableName := c.Table.Name
-	column := c.Column
-	columnType := b.mysqlExporter.ToMysqlColumnType(column)
-
-	var sql string
-	if column.NotNull {
-		sql = fmt.Sprintf("ALTER TABLE %s MODIFY %s %s NOT NULL;", tableName, column.Name, columnType)
-	} else {
-		sql = fmt.Sprintf("ALTER TABLE %s MODIFY %s %s;", tableName, column.Name, columnType)
-	}
-	return []string{sql}, nil
+	return b.toModifyColumnSQL(c.Table, c.Column), nil
 }
 
 func (b *MysqlQueryBuilder) toSetAutoIncrementSQL(c *SetAutoIncrement) ([]string, error) {
-- 
2.43.0


From 6d37f5824e23d2a608bb81fadeec049705c6dc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:23 +0000
Subject: [PATCH 080/103] fix: remove auto increment without adding a primary
 key in flyway diff

---
 format/diff/mysql.go | 17 +----------------
 1 file changed, 1 insertion(+), 16 deletions(-)

diff --git a/format/diff/mysql.go b/format/diff/mysql.go
index be9bf97..bd0f716 100644
--- a/format/diff/mysql.go
+++ b/format/diff/mysql.go
@@ -164,22 +164,7 @@ func (b *MysqlQueryBuilder) toSetNotNullConstraintSQL(c *SetNotNullConstraint) (
 }
 
 func (b *MysqlQueryBuilder) toSetAutoIncrementSQL(c *SetAutoIncrement) ([]string, error) {
-	tableName := c.Table.Name
-	column := c.Column
-	columnName := column.Name
-	columnType := b.mysqlExporter.ToMysqlColumnType(column)
-
-	var sql string
-	if c.Column.AutoIncremental {
-		sql = strings.Join([]string{
-			fmt.Sprintf("ALTER TABLE %s MODIFY COLUMN %s %s", tableName, columnName, columnType),
-			b.mysqlExporter.ColumnConstraints(column),
-		}, " ") + ";"
-	} else {
-		sql = fmt.Sprintf("ALTER TABLE %s MODIFY COLUMN %s %s AUTO_INCREMENT PRIMARY KEY;",
-			tableName, columnName, columnType)
-	}
-	return []string{sql}, nil
+	return b.toModifyColumnSQL(c.Table, c.Column), nil
 }
 
 func (b *MysqlQueryBuilder) toSetDefaultValueSQL(c *SetDefaultValue) ([]string, error) {
-- 
2.43.0


From fd13693bba8f7852b0b0207ebebec05faab05430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:24 +0000
Subject: [PATCH 081/103] fix: write valid statements for added columns to
 flyway diff

---
 format/diff/mysql.go | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/format/diff/mysql.go b/format/diff/mysql.go
index bd0f716..ee71eb0 100644
--- a/format/diff/mysql.go
+++ b/format/diff/mysql.go
@@ -129,16 +129,9 @@ func (b *MysqlQueryBuilder) toSetTableCommentSQL(c *SetTableComment) ([]string,
 }
 
 func (b *MysqlQueryBuilder) toAddColumnSQL(c *AddColumn) ([]string, error) {
-	tableName := c.Table.Name
-	column := c.Column
-	columnType := b.mysqlExporter.ToMysqlColumnType(column)
-	colConstraints := b.mysqlExporter.ColumnConstraints(column)
-
-	sql := fmt.Sprintf("ALTER TABLE %s MODIFY ADD %s %s", tableName, column.Name, columnType)
-	if colConstraints != "" {
-		sql += " " + colConstraints
-	}
-	return []string{sql + ";"}, nil
+	return []string{
+		fmt.Sprintf("ALTER TABLE %s ADD COLUMN %s;", c.Table.Name, b.columnDefinition(c.Column)),
+	}, nil
 }
 
 func (b *MysqlQueryBuilder) toDropColumnSQL(c *DropColumn) ([]string, error) {
-- 
2.43.0


From 25112ce881b41590a5826efc807e427a13e03f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:26 +0000
Subject: [PATCH 082/103] fix: write removed columns to flyway diff

---
 format/diff/mysql.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/format/diff/mysql.go b/format/diff/mysql.go
index ee71eb0..b51f218 100644
--- a/format/diff/mysql.go
+++ b/format/diff/mysql.go
@@ -135,8 +135,9 @@ func (b *MysqlQueryBuilder) toAddColumnSQL(c *AddColumn) ([]string, error) {
 }
 
 func (b *MysqlQueryBuilder) toDropColumnSQL(c *DropColumn) ([]string, error) {
-	// TODO
-	return nil, nil
+	return []string{
+		fmt.Sprintf("ALTER TABLE %s DROP COLUMN %s;", c.Table.Name, c.ColumnName),
+	}, nil
 }
 
 func (b *MysqlQueryBuilder) toSetColumnCommentSQL(c *SetColumnComment) ([]string, error) {
-- 
2.43.0


From 0eaf52997689915707bea1893317a00270dc9103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:27 +0000
Subject: [PATCH 083/103] fix: write renamed columns to flyway diff

---
 format/diff/mysql.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/format/diff/mysql.go b/format/diff/mysql.go
index b51f218..159da41 100644
--- a/format/diff/mysql.go
+++ b/format/diff/mysql.go
@@ -149,8 +149,10 @@ func (b *MysqlQueryBuilder) toChangeColumnTypeSQL(c *ChangeColumnType) ([]string
 }
 
 func (b *MysqlQueryBuilder) toRenameColumnSQL(c *RenameColumn) ([]string, error) {
-	// TODO
-	return nil, nil
+	return []string{
+		fmt.Sprintf("ALTER TABLE %s CHANGE COLUMN %s %s;",
+			c.Table.Name, c.OldColumn.Name, b.columnDefinition(c.NewColumn)),
+	}, nil
 }
 
 func (b *MysqlQueryBuilder) toSetNotNullConstraintSQL(c *SetNotNullConstraint) ([]string, error) {
-- 
2.43.0


From 3a1909619922a215f795ab2fd62a5d8806f3b75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:29 +0000
Subject: [PATCH 084/103] fix: write changed unique constraints to flyway diff

---
 format/diff/mysql.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/format/diff/mysql.go b/format/diff/mysql.go
index 159da41..b03369d 100644
--- a/format/diff/mysql.go
+++ b/format/diff/mysql.go
@@ -114,13 +114,22 @@ func (b *MysqlQueryBuilder) toUpdatePrimaryKeySQL(c *UpdatePrimaryKey) ([]string
 }
 
 func (b *MysqlQueryBuilder) toCreateUniqueConstraintSQL(c *CreateUniqueConstraint) ([]string, error) {
-	// TODO
-	return nil, nil
+	var columnNames []string
+	for _, column := range c.Table.Columns {
+		if column.UniqueKey {
+			columnNames = append(columnNames, fmt.Sprintf("`%s`", column.Name))
+		}
+	}
+	return []string{
+		fmt.Sprintf("ALTER TABLE %s ADD UNIQUE KEY `%s` (%s);",
+			c.Table.Name, c.ConstraintName, strings.Join(columnNames, ", ")),
+	}, nil
 }
 
 func (b *MysqlQueryBuilder) toDropUniqueConstraintSQL(c *DropUniqueConstraint) ([]string, error) {
-	// TODO
-	return nil, nil
+	return []string{
+		fmt.Sprintf("ALTER TABLE %s DROP INDEX `%s`;", c.Table.Name, c.ConstraintName),
+	}, nil
 }
 
 func (b *MysqlQueryBuilder) toSetTableCommentSQL(c *SetTableComment) ([]string, error) {
-- 
2.43.0


From cd7cd656b0cb968c0fb3e3ffb7b38ef09e3004c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:31 +0000
Subject: [PATCH 085/103] fix: write changed table comments to flyway diff

---
 format/diff/mysql.go     |  6 ++++--
 format/mysql/exporter.go | 12 ++++++------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/format/diff/mysql.go b/format/diff/mysql.go
index b03369d..704fba1 100644
--- a/format/diff/mysql.go
+++ b/format/diff/mysql.go
@@ -133,8 +133,10 @@ func (b *MysqlQueryBuilder) toDropUniqueConstraintSQL(c *DropUniqueConstraint) (
 }
 
 func (b *MysqlQueryBuilder) toSetTableCommentSQL(c *SetTableComment) ([]string, error) {
-	// TODO
-	return nil, nil
+	return []string{
+		fmt.Sprintf("ALTER TABLE %s COMMENT = %s;",
+			c.Table.Name, b.mysqlExporter.StringLiteral(c.Table.Description)),
+	}, nil
 }
 
 func (b *MysqlQueryBuilder) toAddColumnSQL(c *AddColumn) ([]string, error) {
diff --git a/format/mysql/exporter.go b/format/mysql/exporter.go
index 10da878..21cf471 100644
--- a/format/mysql/exporter.go
+++ b/format/mysql/exporter.go
@@ -128,8 +128,8 @@ func (c *Exporter) quote(name string) string {
 	return fmt.Sprintf("`%s`", name)
 }
 
-// stringLiteral returns escaped SQL string literal.
-func (c *Exporter) stringLiteral(s string) string {
+// StringLiteral returns escaped SQL string literal.
+func (c *Exporter) StringLiteral(s string) string {
 	return "'" + strings.NewReplacer("\\", "\\\\", "'", "''").Replace(s) + "'"
 }
 
@@ -146,7 +146,7 @@ func (c *Exporter) isQuotedType(colType string) bool {
 func (c *Exporter) stringLiterals(values []string) string {
 	var literals []string
 	for _, value := range values {
-		literals = append(literals, c.stringLiteral(value))
+		literals = append(literals, c.StringLiteral(value))
 	}
 	return strings.Join(literals, ", ")
 }
@@ -248,7 +248,7 @@ func (c *Exporter) ColumnConstraints(column *octopus.Column) string {
 			defaultValue = defaultValue + "()"
 		} else {
 			if c.isQuotedType(column.Type) {
-				defaultValue = c.stringLiteral(defaultValue)
+				defaultValue = c.StringLiteral(defaultValue)
 			}
 		}
 		constraints = append(constraints, "DEFAULT "+defaultValue)
@@ -260,14 +260,14 @@ func (c *Exporter) ColumnConstraints(column *octopus.Column) string {
 			onUpdate = onUpdate + "()"
 		} else {
 			if c.isQuotedType(column.Type) {
-				onUpdate = c.stringLiteral(onUpdate)
+				onUpdate = c.StringLiteral(onUpdate)
 			}
 		}
 		constraints = append(constraints, "ON UPDATE "+onUpdate)
 	}
 
 	if column.Description != "" {
-		constraints = append(constraints, "COMMENT "+c.stringLiteral(column.Description))
+		constraints = append(constraints, "COMMENT "+c.StringLiteral(column.Description))
 	}
 
 	return strings.Join(constraints, " ")
-- 
2.43.0


From 81df887fb714183a492617736379af623ed4c527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:32 +0000
Subject: [PATCH 086/103] fix: drop the primary key in flyway diff only if the
 table had one

---
 format/diff/mysql.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/format/diff/mysql.go b/format/diff/mysql.go
index 704fba1..ed63198 100644
--- a/format/diff/mysql.go
+++ b/format/diff/mysql.go
@@ -102,8 +102,9 @@ func (b *MysqlQueryBuilder) toUpdatePrimaryKeySQL(c *UpdatePrimaryKey) ([]string
 	tableName := table.Name
 	pkColumnNames := table.PrimaryKeyNameSet().Slice()
 
-	result := []string{
-		fmt.Sprintf("ALTER TABLE %s DROP PRIMARY KEY;", tableName),
+	var result []string
+	if c.OldTable.PrimaryKeyNameSet().Size() > 0 {
+		result = append(result, fmt.Sprintf("ALTER TABLE %s DROP PRIMARY KEY;", tableName))
 	}
 
 	if len(pkColumnNames) > 0 {
-- 
2.43.0


From 5b774fdef1c8bae671169389b0a52922bc15d8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:58 +0000
Subject: [PATCH 087/103] fix: report changed on update values in flyway and
 markdown diff

---
 format/diff/changeset.go |  9 +++++++++
 format/diff/diff.go      |  6 ++++++
 format/diff/markdown.go  | 11 +++++++++++
 format/diff/mysql.go     |  6 ++++++
 4 files changed, 32 insertions(+)

diff --git a/format/diff/changeset.go b/format/diff/changeset.go
index 6515177..da9ae3e 100644
--- a/format/diff/changeset.go
+++ b/format/diff/changeset.go
@@ -197,6 +197,15 @@ func (c *SetAutoIncrement) DepTable() *octopus.Table {
 	return c.Table
 }
 
+type SetOnUpdate struct {
+	Table  *octopus.Table
+	Column *octopus.Column
+}
+
+func (c *SetOnUpdate) DepTable() *octopus.Table {
+	return c.Table
+}
+
 type SetDefaultValue struct {
 	Table  *octopus.Table
 	Column *octopus.Column
diff --git a/format/diff/diff.go b/format/diff/diff.go
index 0d59329..f3c987a 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -352,5 +352,11 @@ func diffColumn(
 		changeSets = append(changeSets, changeSet)
 	}
 
+	if column.OnUpdate != oldColumn.OnUpdate {
+		changeSet := newDiffChangeSet(id.bumpMinor(), author)
+		changeSet.Add(&SetOnUpdate{Table: table, Column: column})
+		changeSets = append(changeSets, changeSet)
+	}
+
 	return changeSets, nil
 }
diff --git a/format/diff/markdown.go b/format/diff/markdown.go
index 1b6eef9..0d188d6 100644
--- a/format/diff/markdown.go
+++ b/format/diff/markdown.go
@@ -151,6 +151,8 @@ func (w *MarkdownChangeSetWriter) toMarkdownLine(change Change) (string, error)
 		return w.toSetAutoIncrementMD(change.(*SetAutoIncrement))
 	case *SetDefaultValue:
 		return w.toSetDefaultValueMD(change.(*SetDefaultValue))
+	case *SetOnUpdate:
+		return w.toSetOnUpdateMD(change.(*SetOnUpdate))
 	default:
 		return "", fmt.Errorf("unhandled change type: %v", reflect.TypeOf(change))
 	}
@@ -240,3 +242,12 @@ func (w *MarkdownChangeSetWriter) toSetDefaultValueMD(c *SetDefaultValue) (strin
 		return fmt.Sprintf("update default value: `%s` : `%s`", c.Column.Name, defaultValue), nil
 	}
 }
+
+func (w *MarkdownChangeSetWriter) toSetOnUpdateMD(c *SetOnUpdate) (string, error) {
+	onUpdate := c.Column.OnUpdate
+	if onUpdate == "" {
+		return fmt.Sprintf("remove on update: `%s`", c.Column.Name), nil
+	} else {
+		return fmt.Sprintf("update on update: `%s` : `%s`", c.Column.Name, onUpdate), nil
+	}
+}
diff --git a/format/diff/mysql.go b/format/diff/mysql.go
index ed63198..da5daaf 100644
--- a/format/diff/mysql.go
+++ b/format/diff/mysql.go
@@ -56,6 +56,8 @@ func (b *MysqlQueryBuilder) ToSQL(change interface{}) ([]string, error) {
 		return b.toSetAutoIncrementSQL(change.(*SetAutoIncrement))
 	case *SetDefaultValue:
 		return b.toSetDefaultValueSQL(change.(*SetDefaultValue))
+	case *SetOnUpdate:
+		return b.toSetOnUpdateSQL(change.(*SetOnUpdate))
 	default:
 		return nil, fmt.Errorf("unhandled change type: %v", reflect.TypeOf(change))
 	}
@@ -178,3 +180,7 @@ func (b *MysqlQueryBuilder) toSetAutoIncrementSQL(c *SetAutoIncrement) ([]string
 func (b *MysqlQueryBuilder) toSetDefaultValueSQL(c *SetDefaultValue) ([]string, error) {
 	return b.toModifyColumnSQL(c.Table, c.Column), nil
 }
+
+func (b *MysqlQueryBuilder) toSetOnUpdateSQL(c *SetOnUpdate) ([]string, error) {
+	return b.toModifyColumnSQL(c.Table, c.Column), nil
+}
-- 
2.43.0


From b02bc00b1aad3ea3c0672177e3d8742f99ce718c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:13 +0000
Subject: [PATCH 088/103] fix: replace the primary key in one statement in
 flyway diff

---
 format/diff/mysql.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/format/diff/mysql.go b/format/diff/mysql.go
index da5daaf..d88c117 100644
--- a/format/diff/mysql.go
+++ b/format/diff/mysql.go
@@ -100,20 +100,16 @@ func (b *MysqlQueryBuilder) toRenameTableSQL(c *RenameTable) ([]string, error) {
 }
 
 func (b *MysqlQueryBuilder) toUpdatePrimaryKeySQL(c *UpdatePrimaryKey) ([]string, error) {
-	table := c.NewTable
-	tableName := table.Name
-	pkColumnNames := table.PrimaryKeyNameSet().Slice()
-
-	var result []string
+	var clauses []string
 	if c.OldTable.PrimaryKeyNameSet().Size() > 0 {
-		result = append(result, fmt.Sprintf("ALTER TABLE %s DROP PRIMARY KEY;", tableName))
+		clauses = append(clauses, "DROP PRIMARY KEY")
 	}
-
-	if len(pkColumnNames) > 0 {
-		result = append(result,
-			fmt.Sprintf("ALTER TABLE %s ADD PRIMARY KEY (%s);", tableName, strings.Join(pkColumnNames, ",")))
+	if pkColumnNames := c.NewTable.PrimaryKeyNameSet().Slice(); len(pkColumnNames) > 0 {
+		clauses = append(clauses, fmt.Sprintf("ADD PRIMARY KEY (%s)", strings.Join(pkColumnNames, ",")))
 	}
-	return result, nil
+	return []string{
+		fmt.Sprintf("ALTER TABLE %s %s;", c.NewTable.Name, strings.Join(clauses, ", ")),
+	}, nil
 }
 
 func (b *MysqlQueryBuilder) toCreateUniqueConstraintSQL(c *CreateUniqueConstraint) ([]string, error) {
-- 
2.43.0


From 08d7488fd802186d04a6982ad7799505a4f5fa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:59 +0000
Subject: [PATCH 089/103] fix: xlsx export of the same schema differs between
 runs

---
 format/xlsx/exporter.go | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/format/xlsx/exporter.go b/format/xlsx/exporter.go
index de0cd17..cccd651 100644
--- a/format/xlsx/exporter.go
+++ b/format/xlsx/exporter.go
@@ -1,10 +1,14 @@
 package xlsx
 
 import (
+	"archive/zip"
+	"bytes"
 	"fmt"
 	"github.com/lechuckroh/octopus-db-tools/format/octopus"
 	"github.com/lechuckroh/octopus-db-tools/util"
 	"github.com/tealeg/xlsx"
+	"io/ioutil"
+	"sort"
 	"strings"
 )
 
@@ -55,7 +59,36 @@ func (c *Exporter) Export(filename string) error {
 		}
 	}
 
-	return file.Save(filename)
+	return saveFile(file, filename)
+}
+
+// saveFile writes parts of the workbook in a fixed order.
+func saveFile(file *xlsx.File, filename string) error {
+	parts, err := file.MarshallParts()
+	if err != nil {
+		return err
+	}
+	var names []string
+	for name := range parts {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+
+	buf := new(bytes.Buffer)
+	zipWriter := zip.NewWriter(buf)
+	for _, name := range names {
+		part, err := zipWriter.Create(name)
+		if err != nil {
+			return err
+		}
+		if _, err = part.Write([]byte(parts[name])); err != nil {
+			return err
+		}
+	}
+	if err = zipWriter.Close(); err != nil {
+		return err
+	}
+	return ioutil.WriteFile(filename, buf.Bytes(), 0644)
 }
 
 func fillMetaSheet(sheet *xlsx.Sheet, schema *octopus.Schema) error {
-- 
2.43.0


From 91d2add87599cdc2be3d73578248e1abdb619afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:46 +0000
Subject: [PATCH 090/103] fix: names of schemas and tables with path separators
 escape from the output directory

---
 format/graphql/generator.go    | 4 ++--
 format/jpa/kotlin-gen.go       | 5 ++---
 format/sqlalchemy/generator.go | 3 +--
 util/io.go                     | 6 ++++++
 4 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/format/graphql/generator.go b/format/graphql/generator.go
index b286b34..2c89dfa 100644
--- a/format/graphql/generator.go
+++ b/format/graphql/generator.go
@@ -6,10 +6,10 @@ import (
 	"github.com/iancoleman/strcase"
 	"github.com/lechuckroh/octopus-db-tools/format/common"
 	"github.com/lechuckroh/octopus-db-tools/format/octopus"
+	"github.com/lechuckroh/octopus-db-tools/util"
 	"io/ioutil"
 	"log"
 	"os"
-	"path"
 	"strings"
 )
 
@@ -178,7 +178,7 @@ func (c *Generator) Generate(outputPath string) error {
 	}
 
 	// Write file
-	outputFile := path.Join(outputPath,
+	outputFile := util.JoinFilename(outputPath,
 		fmt.Sprintf("%s-%s.graphqls", c.schema.Name, c.schema.Version))
 
 	if err := ioutil.WriteFile(outputFile, []byte(strings.Join(contents, "\n")), 0644); err != nil {
diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 68bde3b..c164a08 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -9,7 +9,6 @@ import (
 	"github.com/lechuckroh/octopus-db-tools/util"
 	"io"
 	"log"
-	"path"
 	"strings"
 	"text/template"
 )
@@ -321,7 +320,7 @@ func (c *KtGenerator) generateEntities(outputPath string) error {
 		if err := c.GenerateEntityClass(buf, class); err != nil {
 			return err
 		}
-		filename := path.Join(entityDir, fmt.Sprintf("%s.kt", class.Name))
+		filename := util.JoinFilename(entityDir, fmt.Sprintf("%s.kt", class.Name))
 		if err := util.WriteStringToFile(filename, buf.String()); err != nil {
 			return err
 		}
@@ -351,7 +350,7 @@ func (c *KtGenerator) generateRepositories(outputPath string) error {
 		if err := c.generateRepository(buf, class, outputPackage, reposPackage); err != nil {
 			return err
 		}
-		reposFilename := path.Join(reposDir, fmt.Sprintf("%sRepository.kt", class.Name))
+		reposFilename := util.JoinFilename(reposDir, fmt.Sprintf("%sRepository.kt", class.Name))
 		if err := util.WriteStringToFile(reposFilename, buf.String()); err != nil {
 			return err
 		}
diff --git a/format/sqlalchemy/generator.go b/format/sqlalchemy/generator.go
index 08242bb..7a60f1d 100644
--- a/format/sqlalchemy/generator.go
+++ b/format/sqlalchemy/generator.go
@@ -8,7 +8,6 @@ import (
 	"io"
 	"log"
 	"os"
-	"path"
 	"path/filepath"
 	"strings"
 )
@@ -188,7 +187,7 @@ func (c *Generator) Generate(outputPath string) error {
 			contents = append(contents, classLines...)
 			contents = append(contents, "")
 
-			outputFile := path.Join(outputDir, fmt.Sprintf("%s.py", table.Name))
+			outputFile := util.JoinFilename(outputDir, fmt.Sprintf("%s.py", table.Name))
 			if err := util.WriteLinesToFile(outputFile, contents); err != nil {
 				return err
 			}
diff --git a/util/io.go b/util/io.go
index 3a13c24..280f794 100644
--- a/util/io.go
+++ b/util/io.go
@@ -44,6 +44,12 @@ func WriteLinesToFile(filename string, lines []string) error {
 	return nil
 }
 
+// JoinFilename returns path of the file in dir.
+// Path separators in filename are replaced so that the file is always placed in dir.
+func JoinFilename(dir, filename string) string {
+	return path.Join(dir, strings.NewReplacer("/", "_", "\\", "_").Replace(filename))
+}
+
 func Mkdir(dir string) (string, error) {
 	if err := os.MkdirAll(dir, 0777); err != nil {
 		return "", err
-- 
2.43.0


From 01224b0bb72b6a87bb1e8b63d1ee43418c8eee55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:35 +0000
Subject: [PATCH 091/103] fix: column sizes over 65535 are imported as other
 sizes and refused in schemas

---
 format/mysql/importer.go   |  8 ++++----
 format/octopus/column.go   |  4 ++--
 format/ojson/column.go     |  4 ++--
 format/staruml/importer.go |  6 +++---
 util/types.go              | 10 +++++-----
 5 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index 8d779ad..2a20f94 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -237,13 +237,13 @@ func (x *TableX) columnValues(colType string, colDef *ast.ColumnDef) []string {
 	return nil
 }
 
-func (x *TableX) columnType(colDef *ast.ColumnDef) (string, uint16, uint16) {
-	var size, scale uint16
+func (x *TableX) columnType(colDef *ast.ColumnDef) (string, uint32, uint32) {
+	var size, scale uint32
 	if colDef.Tp.Flen > 0 {
-		size = uint16(colDef.Tp.Flen)
+		size = uint32(colDef.Tp.Flen)
 	}
 	if colDef.Tp.Decimal > 0 {
-		scale = uint16(colDef.Tp.Decimal)
+		scale = uint32(colDef.Tp.Decimal)
 	}
 
 	switch colDef.Tp.Tp {
diff --git a/format/octopus/column.go b/format/octopus/column.go
index 4a2d83b..b403e66 100644
--- a/format/octopus/column.go
+++ b/format/octopus/column.go
@@ -24,8 +24,8 @@ type Column struct {
 	Name            string     `json:"name"`
 	Type            string     `json:"type"`
 	Description     string     `json:"desc,omitempty"`
-	Size            uint16     `json:"size,omitempty"`
-	Scale           uint16     `json:"scale,omitempty"`
+	Size            uint32     `json:"size,omitempty"`
+	Scale           uint32     `json:"scale,omitempty"`
 	NotNull         bool       `json:"notnull,omitempty"`
 	PrimaryKey      bool       `json:"pk,omitempty"`
 	UniqueKey       bool       `json:"unique,omitempty"`
diff --git a/format/ojson/column.go b/format/ojson/column.go
index 3653a42..8d7b89a 100644
--- a/format/ojson/column.go
+++ b/format/ojson/column.go
@@ -15,8 +15,8 @@ type Column struct {
 	Name            string     `json:"name"`
 	Type            string     `json:"type"`
 	Description     string     `json:"description,omitempty"`
-	Size            uint16     `json:"size,omitempty"`
-	Scale           uint16     `json:"scale,omitempty"`
+	Size            uint32     `json:"size,omitempty"`
+	Scale           uint32     `json:"scale,omitempty"`
 	NotNull         bool       `json:"notnull,omitempty"`
 	PrimaryKey      bool       `json:"pk,omitempty"`
 	UniqueKey       bool       `json:"unique,omitempty"`
diff --git a/format/staruml/importer.go b/format/staruml/importer.go
index b3e6731..7ce5ae7 100644
--- a/format/staruml/importer.go
+++ b/format/staruml/importer.go
@@ -62,9 +62,9 @@ func (c *Importer) toSchema() (*octopus.Schema, error) {
 		var columns []*octopus.Column
 		for _, erdColumn := range c.findByType(erdEntity.Columns, "ERDColumn") {
 			colType, colSize, colScale := util.ParseType(erdColumn.Type)
-			size := uint16(util.ToInt(erdColumn.Length, 0))
-			if size == 0 {
-				size = colSize
+			size := colSize
+			if length := util.ToInt(erdColumn.Length, 0); length > 0 {
+				size = uint32(length)
 			}
 
 			column := &octopus.Column{
diff --git a/util/types.go b/util/types.go
index e456b5b..d551ec7 100644
--- a/util/types.go
+++ b/util/types.go
@@ -63,26 +63,26 @@ func IsDateType(typ string) bool {
 
 // ParseType parses column type
 // returns name, size, scale
-func ParseType(str string) (string, uint16, uint16) {
+func ParseType(str string) (string, uint32, uint32) {
 	r := regexp.MustCompile(`(?m)([a-zA-Z][a-zA-Z0-9]*)\(([0-9]+)[\s,]*([0-9]*)\)`)
 	groups, _ := MatchRegexGroups(r, str)
 	groupCount := len(groups)
 
 	var name string
-	var size, scale int
+	var size, scale uint64
 
 	if groupCount >= 1 {
 		name = groups[0]
 
 		if groupCount >= 2 {
-			size, _ = strconv.Atoi(groups[1])
+			size, _ = strconv.ParseUint(groups[1], 10, 32)
 		}
 		if groupCount == 3 {
-			scale, _ = strconv.Atoi(groups[2])
+			scale, _ = strconv.ParseUint(groups[2], 10, 32)
 		}
 	} else {
 		name = str
 	}
 
-	return name, uint16(size), uint16(scale)
+	return name, uint32(size), uint32(scale)
 }
-- 
2.43.0


From ee77908e9fba79b39b2ef9a0767d09c5601c2910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:59 +0000
Subject: [PATCH 092/103] fix: null tables, columns and elements crash schema
 readers

---
 format/octopus/table.go    | 34 +++++++++++++++++++++++++++++++++-
 format/ojson/table.go      | 18 +++++++++++++++++-
 format/staruml/importer.go | 25 ++++++++++++++++---------
 3 files changed, 66 insertions(+), 11 deletions(-)

diff --git a/format/octopus/table.go b/format/octopus/table.go
index 96ce2b5..2919138 100644
--- a/format/octopus/table.go
+++ b/format/octopus/table.go
@@ -2,6 +2,7 @@ package octopus
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"github.com/lechuckroh/octopus-db-tools/util"
 	"io/ioutil"
@@ -84,6 +85,24 @@ func (t *Table) AddIndex(indexName string, column string) {
 	t.Indices = append(t.Indices, &Index{Name: indexName, Columns: []string{column}})
 }
 
+// validateElements returns error if the table or one of its columns or indices is null.
+func (t *Table) validateElements() error {
+	if t == nil {
+		return errors.New("table is null")
+	}
+	for _, column := range t.Columns {
+		if column == nil {
+			return fmt.Errorf("table: '%s': column is null", t.Name)
+		}
+	}
+	for _, index := range t.Indices {
+		if index == nil {
+			return fmt.Errorf("table: '%s': index is null", t.Name)
+		}
+	}
+	return nil
+}
+
 type TableSlice []*Table
 
 func (s TableSlice) Len() int { return len(s) }
@@ -174,11 +193,24 @@ func (s *Schema) FromFile(filename string) error {
 }
 
 func (s *Schema) FromJson(data []byte) error {
-	return json.Unmarshal(data, s)
+	target := s
+	if err := json.Unmarshal(data, &target); err != nil {
+		return err
+	}
+	if target == nil {
+		return errors.New("schema is null")
+	}
+	return nil
 }
 
 // Normalize converts colume types to lowercase
 func (s *Schema) Normalize() error {
+	for _, table := range s.Tables {
+		if err := table.validateElements(); err != nil {
+			return err
+		}
+	}
+
 	sort.Sort(TableSlice(s.Tables))
 
 	for _, table := range s.Tables {
diff --git a/format/ojson/table.go b/format/ojson/table.go
index 9b3321c..c22e95a 100644
--- a/format/ojson/table.go
+++ b/format/ojson/table.go
@@ -2,6 +2,7 @@ package ojson
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"github.com/lechuckroh/octopus-db-tools/util"
 	"io/ioutil"
@@ -135,15 +136,30 @@ func (s *Schema) FromFile(filename string) error {
 }
 
 func (s *Schema) FromJson(data []byte) error {
-	return json.Unmarshal(data, s)
+	target := s
+	if err := json.Unmarshal(data, &target); err != nil {
+		return err
+	}
+	if target == nil {
+		return errors.New("schema is null")
+	}
+	return nil
 }
 
 // Normalize converts colume types to lowercase
 func (s *Schema) Normalize() error {
+	for _, table := range s.Tables {
+		if table == nil {
+			return errors.New("table is null")
+		}
+	}
 	sort.Sort(TableSlice(s.Tables))
 
 	for _, table := range s.Tables {
 		for _, column := range table.Columns {
+			if column == nil {
+				return fmt.Errorf("table: %s, column is null", table.Name)
+			}
 			if colType, ok := normalizeColumnType(column); ok {
 				column.Type = colType
 
diff --git a/format/staruml/importer.go b/format/staruml/importer.go
index 7ce5ae7..79b245f 100644
--- a/format/staruml/importer.go
+++ b/format/staruml/importer.go
@@ -42,7 +42,9 @@ func (c *Importer) ImportJson(data []byte) (*octopus.Schema, error) {
 
 	// fill mapById
 	c.mapById = make(map[string]*Element)
-	c.walkElement(c.root)
+	if err := c.walkElement(c.root); err != nil {
+		return nil, err
+	}
 
 	return c.toSchema()
 }
@@ -126,20 +128,25 @@ func (c *Importer) findByType(elems []*Element, typ string) []*Element {
 	return result
 }
 
-func (c *Importer) walkElement(elem *Element) {
+func (c *Importer) walkElement(elem *Element) error {
+	if elem == nil {
+		return errors.New("element is null")
+	}
 	c.mapById[elem.ID] = elem
 
-	c.walkElements(elem.OwnedElements)
-	c.walkElements(elem.Columns)
+	if err := c.walkElements(elem.OwnedElements); err != nil {
+		return err
+	}
+	return c.walkElements(elem.Columns)
 }
 
-func (c *Importer) walkElements(elements []*Element) {
-	if elements == nil {
-		return
-	}
+func (c *Importer) walkElements(elements []*Element) error {
 	for _, elem := range elements {
-		c.walkElement(elem)
+		if err := c.walkElement(elem); err != nil {
+			return err
+		}
 	}
+	return nil
 }
 
 func (c *Importer) findById(id string) *Element {
-- 
2.43.0


From fda4fcbc3e432fc081594a6f09a52b2a31ee11ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:57 +0000
Subject: [PATCH 093/103] fix: workbook without workbook part crashes xlsx
 import

---
 format/xlsx/importer.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/format/xlsx/importer.go b/format/xlsx/importer.go
index d384239..12fe3df 100644
--- a/format/xlsx/importer.go
+++ b/format/xlsx/importer.go
@@ -18,7 +18,7 @@ type Importer struct {
 }
 
 func (c *Importer) Import(filename string) (*octopus.Schema, error) {
-	xlFile, err := xlsx.OpenFile(filename)
+	xlFile, err := openFile(filename)
 	if err != nil {
 		return nil, err
 	}
@@ -36,6 +36,16 @@ func (c *Importer) Import(filename string) (*octopus.Schema, error) {
 	return c.toSchema()
 }
 
+// openFile opens xlsx file. Panic caused by broken workbook is returned as an error.
+func openFile(filename string) (file *xlsx.File, err error) {
+	defer func() {
+		if e := recover(); e != nil {
+			file, err = nil, fmt.Errorf("'%s' is not a valid xlsx file: %v", filename, e)
+		}
+	}()
+	return xlsx.OpenFile(filename)
+}
+
 func (c *Importer) toSchema() (*octopus.Schema, error) {
 	author := ""
 	name := ""
-- 
2.43.0


From bd9895f6f3559a2c2d07b2d52c4d94327e028f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:17 +0000
Subject: [PATCH 094/103] fix: protobuf relation names differing from a field
 name only in letter case are refused by protoc

---
 format/protobuf/generator.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/format/protobuf/generator.go b/format/protobuf/generator.go
index 97d8b68..2dd1889 100644
--- a/format/protobuf/generator.go
+++ b/format/protobuf/generator.go
@@ -206,17 +206,17 @@ func (t *Generator) newPbMessage(table *octopus.Table) *PbMessage {
 		}
 	}
 
-	// relation names should be unique in the message
+	// relation names should be unique in the message (protoc compares names case-insensitively)
 	names := util.NewStringSet()
 	for _, field := range fields {
-		names.Add(field.Name)
+		names.Add(strings.ToLower(field.Name))
 	}
 	for _, relation := range relations {
 		refName := relation.Name
-		for i := 2; names.Contains(relation.Name); i++ {
+		for i := 2; names.Contains(strings.ToLower(relation.Name)); i++ {
 			relation.Name = fmt.Sprintf("%s%d", refName, i)
 		}
-		names.Add(relation.Name)
+		names.Add(strings.ToLower(relation.Name))
 	}
 
 	// shift tag start if tag range is overlapped
-- 
2.43.0


From 753a751aa885d9ffb49d3ed8dcc9b6eca819f466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:14 +0000
Subject: [PATCH 095/103] fix: bit and hexadecimal literals imported as
 hexadecimal text instead of the default value they denote

---
 format/mysql/importer.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index 2a20f94..f31e949 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -10,7 +10,7 @@ import (
 	"github.com/pingcap/parser/charset"
 	"github.com/pingcap/parser/mysql"
 	"github.com/pingcap/parser/opcode"
-	_ "github.com/pingcap/parser/test_driver"
+	"github.com/pingcap/parser/test_driver"
 	"io"
 	"io/ioutil"
 	"strings"
@@ -181,7 +181,7 @@ func (x *TableX) column(
 		case ast.ColumnOptionDefaultValue:
 			switch colOption.Expr.(type) {
 			case ast.ValueExpr:
-				column.SetDefaultValue(colOption.Expr.(ast.ValueExpr).GetValue())
+				column.SetDefaultValue(x.literalValue(colType, colOption.Expr.(ast.ValueExpr).GetValue()))
 			case *ast.FuncCallExpr:
 				column.SetDefaultValueFn(colOption.Expr.(*ast.FuncCallExpr).FnName.String())
 			case *ast.UnaryOperationExpr:
@@ -227,6 +227,26 @@ func (x *TableX) column(
 	return &column
 }
 
+// literalValue returns the number or the text that a bit or hexadecimal literal stands for.
+func (x *TableX) literalValue(colType string, value interface{}) interface{} {
+	binary, ok := value.(test_driver.BinaryLiteral)
+	if !ok {
+		return value
+	}
+	if octopus.IsColTypeString(colType) {
+		return binary.ToString()
+	}
+	switch {
+	case colType == octopus.ColTypeBit, colType == octopus.ColTypeBoolean, octopus.IsColTypeNumeric(colType):
+		var number uint64
+		for _, b := range binary {
+			number = number<<8 | uint64(b)
+		}
+		return number
+	}
+	return value
+}
+
 func (x *TableX) columnValues(colType string, colDef *ast.ColumnDef) []string {
 	switch colType {
 	case octopus.ColTypeEnum:
-- 
2.43.0


From e1dfb1222ab7b92d98c78256cbe692cc04613d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:57 +0000
Subject: [PATCH 096/103] fix: keep auto increment columns a key in every
 statement of flyway diff

---
 format/diff/changeset.go |  1 +
 format/diff/diff.go      |  6 ++++-
 format/diff/flyway.go    |  1 +
 format/diff/mysql.go     | 51 ++++++++++++++++++++++++++++++++++++++--
 4 files changed, 56 insertions(+), 3 deletions(-)

diff --git a/format/diff/changeset.go b/format/diff/changeset.go
index da9ae3e..1812de7 100644
--- a/format/diff/changeset.go
+++ b/format/diff/changeset.go
@@ -98,6 +98,7 @@ type UpdatePrimaryKey struct {
 	ConstraintName string
 	OldTable       *octopus.Table
 	NewTable       *octopus.Table
+	RemovedColumns []*octopus.Column // columns to drop after the primary key is updated
 }
 
 func (c *UpdatePrimaryKey) DepTable() *octopus.Table {
diff --git a/format/diff/diff.go b/format/diff/diff.go
index f3c987a..bd278e8 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -280,7 +280,11 @@ func diffTable(
 	}
 	if !pkSet.Equals(oldPkSet) {
 		changeSet := newDiffChangeSet(id.bumpMinor(), author)
-		changeSet.Add(&UpdatePrimaryKey{OldTable: oldTable, NewTable: table})
+		var removedColumns []*octopus.Column
+		for _, columnName := range removedColumnNameSet.Slice() {
+			removedColumns = append(removedColumns, oldColumnByName[columnName])
+		}
+		changeSet.Add(&UpdatePrimaryKey{OldTable: oldTable, NewTable: table, RemovedColumns: removedColumns})
 		changeSets = append(changeSets, changeSet)
 	}
 
diff --git a/format/diff/flyway.go b/format/diff/flyway.go
index d4f8742..41f3432 100644
--- a/format/diff/flyway.go
+++ b/format/diff/flyway.go
@@ -40,6 +40,7 @@ func NewFlywayChangeSetWirter(w io.Writer, option *Option) *FlywayChangeSetWrite
 }
 
 func (w *FlywayChangeSetWriter) Write(result *Result) error {
+	w.queryBuilder.deferAutoIncrements(result)
 	for _, changeSet := range result.ChangeSets {
 		for _, change := range changeSet.Changes {
 			if sqls, err := w.queryBuilder.ToSQL(change); err != nil {
diff --git a/format/diff/mysql.go b/format/diff/mysql.go
index d88c117..f67133d 100644
--- a/format/diff/mysql.go
+++ b/format/diff/mysql.go
@@ -12,6 +12,9 @@ import (
 type MysqlQueryBuilder struct {
 	option        *Option
 	mysqlExporter *mysql.Exporter
+
+	// auto incremental columns which are not a key until the primary key is updated
+	deferredAutoIncrements map[*octopus.Column]bool
 }
 
 func NewMysqlQueryBuilder(option *Option) *MysqlQueryBuilder {
@@ -21,6 +24,25 @@ func NewMysqlQueryBuilder(option *Option) *MysqlQueryBuilder {
 			TableFilter:      option.TableFilter,
 			UniqueNameSuffix: option.UniqueNameSuffix,
 		}),
+		deferredAutoIncrements: make(map[*octopus.Column]bool),
+	}
+}
+
+// deferAutoIncrements finds columns which cannot be auto incremental before the primary key is updated.
+func (b *MysqlQueryBuilder) deferAutoIncrements(result *Result) {
+	for _, changeSet := range result.ChangeSets {
+		for _, change := range changeSet.Changes {
+			c, ok := change.(*UpdatePrimaryKey)
+			if !ok {
+				continue
+			}
+			oldPkSet := c.OldTable.PrimaryKeyNameSet()
+			for _, column := range c.NewTable.Columns {
+				if column.AutoIncremental && column.PrimaryKey && !oldPkSet.Contains(column.Name) {
+					b.deferredAutoIncrements[column] = true
+				}
+			}
+		}
 	}
 }
 
@@ -71,10 +93,25 @@ func (b *MysqlQueryBuilder) columnDefinition(column *octopus.Column) string {
 	return definition
 }
 
+// columnDefinitionWithoutAutoIncrement returns definition of the column which is not auto incremental.
+func (b *MysqlQueryBuilder) columnDefinitionWithoutAutoIncrement(column *octopus.Column) string {
+	columnWithoutAutoIncrement := *column
+	columnWithoutAutoIncrement.AutoIncremental = false
+	return b.columnDefinition(&columnWithoutAutoIncrement)
+}
+
+// currentColumnDefinition returns definition of the column before the primary key is updated.
+func (b *MysqlQueryBuilder) currentColumnDefinition(column *octopus.Column) string {
+	if b.deferredAutoIncrements[column] {
+		return b.columnDefinitionWithoutAutoIncrement(column)
+	}
+	return b.columnDefinition(column)
+}
+
 // toModifyColumnSQL returns statement to set the whole definition of the column.
 func (b *MysqlQueryBuilder) toModifyColumnSQL(table *octopus.Table, column *octopus.Column) []string {
 	return []string{
-		fmt.Sprintf("ALTER TABLE %s MODIFY COLUMN %s;", table.Name, b.columnDefinition(column)),
+		fmt.Sprintf("ALTER TABLE %s MODIFY COLUMN %s;", table.Name, b.currentColumnDefinition(column)),
 	}
 }
 
@@ -101,12 +138,22 @@ func (b *MysqlQueryBuilder) toRenameTableSQL(c *RenameTable) ([]string, error) {
 
 func (b *MysqlQueryBuilder) toUpdatePrimaryKeySQL(c *UpdatePrimaryKey) ([]string, error) {
 	var clauses []string
+	for _, column := range c.RemovedColumns {
+		if column.AutoIncremental && column.PrimaryKey {
+			clauses = append(clauses, "MODIFY COLUMN "+b.columnDefinitionWithoutAutoIncrement(column))
+		}
+	}
 	if c.OldTable.PrimaryKeyNameSet().Size() > 0 {
 		clauses = append(clauses, "DROP PRIMARY KEY")
 	}
 	if pkColumnNames := c.NewTable.PrimaryKeyNameSet().Slice(); len(pkColumnNames) > 0 {
 		clauses = append(clauses, fmt.Sprintf("ADD PRIMARY KEY (%s)", strings.Join(pkColumnNames, ",")))
 	}
+	for _, column := range c.NewTable.Columns {
+		if b.deferredAutoIncrements[column] {
+			clauses = append(clauses, "MODIFY COLUMN "+b.columnDefinition(column))
+		}
+	}
 	return []string{
 		fmt.Sprintf("ALTER TABLE %s %s;", c.NewTable.Name, strings.Join(clauses, ", ")),
 	}, nil
@@ -140,7 +187,7 @@ func (b *MysqlQueryBuilder) toSetTableCommentSQL(c *SetTableComment) ([]string,
 
 func (b *MysqlQueryBuilder) toAddColumnSQL(c *AddColumn) ([]string, error) {
 	return []string{
-		fmt.Sprintf("ALTER TABLE %s ADD COLUMN %s;", c.Table.Name, b.columnDefinition(c.Column)),
+		fmt.Sprintf("ALTER TABLE %s ADD COLUMN %s;", c.Table.Name, b.currentColumnDefinition(c.Column)),
 	}, nil
 }
 
-- 
2.43.0


From 21154abefee87c4cffb1051acd7e93996e943f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:32 +0000
Subject: [PATCH 097/103] fix: keep names of gorm struct fields apart from
 embedded structs

---
 format/gorm/gorm.go       | 43 +++++++++++++++++++++++++++++++--------
 format/gorm/gorm_model.go |  9 ++++++++
 2 files changed, 44 insertions(+), 8 deletions(-)

diff --git a/format/gorm/gorm.go b/format/gorm/gorm.go
index 3ef3e80..f257def 100644
--- a/format/gorm/gorm.go
+++ b/format/gorm/gorm.go
@@ -36,14 +36,12 @@ func NewGoStruct(
 	table *octopus.Table,
 	p IProcessor,
 ) *GoStruct {
-	var fields []*GoField
 	var pkFields []*GoField
 	var uniqueFields []*GoField
 	var associationFields []*GoAssocationField
-	for _, column := range table.Columns {
-		field := NewGoField(column)
-		fields = append(fields, field)
-
+	fields, embeddedModels := newGoFields(table)
+	for _, field := range fields {
+		column := field.Column
 		if column.PrimaryKey {
 			pkFields = append(pkFields, field)
 		}
@@ -62,7 +60,7 @@ func NewGoStruct(
 					Table:      refTable,
 					Array:      ref.Relationship == octopus.RefOneToMany,
 					ForeignKey: field.Name,
-					Reference:  NewGoField(refColumn).Name,
+					Reference:  goFieldName(refTable, refColumn),
 				})
 			}
 		}
@@ -70,6 +68,7 @@ func NewGoStruct(
 
 	// association field names should be unique in the struct
 	names := util.NewStringSet()
+	names.AddAll(embeddedModels.FieldNames())
 	for _, field := range fields {
 		names.Add(field.Name)
 	}
@@ -80,8 +79,6 @@ func NewGoStruct(
 		names.Add(associationField.Name)
 	}
 
-	embeddedModels := extractEmbeddedModels(fields)
-
 	// exclude embedded fields
 	var finalFields []*GoField
 	for _, field := range fields {
@@ -101,6 +98,36 @@ func NewGoStruct(
 	}
 }
 
+// newGoFields returns fields of the table and embedded models which contain some of the fields.
+func newGoFields(table *octopus.Table) ([]*GoField, EmbeddedModels) {
+	var fields []*GoField
+	for _, column := range table.Columns {
+		fields = append(fields, NewGoField(column))
+	}
+
+	embeddedModels := extractEmbeddedModels(fields)
+	embeddedNames := util.NewStringSet(embeddedModels.FieldNames()...)
+	for _, field := range fields {
+		// struct has an embedded field of the same name
+		if embeddedNames.Contains(field.Name) && !embeddedModels.ContainsColumnName(field.Column.Name) {
+			field.Name = field.Name + "_"
+			field.OverrideName = true
+		}
+	}
+	return fields, embeddedModels
+}
+
+// goFieldName returns name of the struct field of the column.
+func goFieldName(table *octopus.Table, column *octopus.Column) string {
+	fields, _ := newGoFields(table)
+	for _, field := range fields {
+		if field.Column == column {
+			return field.Name
+		}
+	}
+	return NewGoField(column).Name
+}
+
 type GoField struct {
 	Column       *octopus.Column
 	Name         string
diff --git a/format/gorm/gorm_model.go b/format/gorm/gorm_model.go
index 45dab6b..4c45267 100644
--- a/format/gorm/gorm_model.go
+++ b/format/gorm/gorm_model.go
@@ -67,6 +67,15 @@ func (m EmbeddedModels) Names() []string {
 	return names
 }
 
+// FieldNames returns names of the fields which embed the models.
+func (m EmbeddedModels) FieldNames() []string {
+	var fieldNames []string
+	for name := range m {
+		fieldNames = append(fieldNames, name[strings.LastIndex(name, ".")+1:])
+	}
+	return fieldNames
+}
+
 var embeddedModels EmbeddedModels
 
 func registerEmbeddedModel(name string, columnNames []string) {
-- 
2.43.0


From 10df8485ccb395ab5a61f350eb5442a53af20752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:58 +0000
Subject: [PATCH 098/103] fix: state decimal defaults of liquibase changelogs
 with the digits of the schema

---
 format/liquibase/generator.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/format/liquibase/generator.go b/format/liquibase/generator.go
index 842a261..20ca930 100644
--- a/format/liquibase/generator.go
+++ b/format/liquibase/generator.go
@@ -7,6 +7,7 @@ import (
 	"gopkg.in/yaml.v2"
 	"io/ioutil"
 	"log"
+	"math/big"
 	"strconv"
 	"strings"
 )
@@ -427,8 +428,10 @@ func newLqDefaultValue(column *octopus.Column) (*LqDefaultValue, error) {
 		} else {
 			if num, err := strconv.ParseFloat(column.DefaultValue, 64); err != nil {
 				return nil, err
-			} else {
+			} else if isExactFloat(num, column.DefaultValue) {
 				result.DefaultValueNumeric = &num
+			} else {
+				result.DefaultValueNumeric = column.DefaultValue
 			}
 		}
 	} else if util.IsDateType(column.Type) {
@@ -440,6 +443,20 @@ func newLqDefaultValue(column *octopus.Column) (*LqDefaultValue, error) {
 	return &result, nil
 }
 
+// isExactFloat checks if the number is written with the same digits as the text.
+func isExactFloat(num float64, text string) bool {
+	written := strconv.FormatFloat(num, 'g', -1, 64)
+	if strings.Contains(written, "e") {
+		return false
+	}
+	value, ok := new(big.Rat).SetString(text)
+	if !ok {
+		return true
+	}
+	writtenValue, ok := new(big.Rat).SetString(written)
+	return ok && value.Cmp(writtenValue) == 0
+}
+
 func parseBool(s string) bool {
 	value, err := strconv.ParseBool(s)
 	return err == nil && value
-- 
2.43.0


From 063a10607cb0a07e291296384e124fb56b864568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:53 +0000
Subject: [PATCH 099/103] fix: default values with a plus sign are lost by
 mysql import

---
 format/mysql/importer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index f31e949..412dbd4 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -188,6 +188,8 @@ func (x *TableX) column(
 				expr := colOption.Expr.(*ast.UnaryOperationExpr)
 				if value, ok := expr.V.(ast.ValueExpr); ok && expr.Op == opcode.Minus {
 					column.SetDefaultValue(fmt.Sprintf("-%v", value.GetValue()))
+				} else if ok && expr.Op == opcode.Plus {
+					column.SetDefaultValue(value.GetValue())
 				}
 			default:
 				fmt.Printf("unhandled default value. column: %s, expr: %v", name, colOption.Expr)
-- 
2.43.0


From 71b14d87bab345d2ae3c564cfd47a75ca6f10fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:11 +0000
Subject: [PATCH 100/103] fix: diff of schemas with hundreds of added and
 removed tables takes minutes

---
 format/diff/diff.go      | 4 ++--
 format/liquibase/diff.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index bd278e8..ecaad44 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -1,9 +1,9 @@
 package diff
 
 import (
-	"github.com/google/go-cmp/cmp"
 	"github.com/lechuckroh/octopus-db-tools/format/octopus"
 	"github.com/lechuckroh/octopus-db-tools/util"
+	"reflect"
 )
 
 func newDiffChangeSet(id string, author string) *ChangeSet {
@@ -81,7 +81,7 @@ func getDiff(option *Option) (*Result, error) {
 	for _, addedTable := range addedTables {
 		for _, removedTableName := range removedTableNames.Slice() {
 			if removedTable := fromTableByName[removedTableName]; removedTable != nil {
-				if diff := cmp.Diff(addedTable.Columns, removedTable.Columns); diff == "" {
+				if reflect.DeepEqual(addedTable.Columns, removedTable.Columns) {
 					renamedTableMap[addedTable] = removedTable
 					removedTableNames.Remove(removedTableName)
 					break
diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index c254b34..0598cac 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -1,12 +1,12 @@
 package liquibase
 
 import (
-	"github.com/google/go-cmp/cmp"
 	"github.com/lechuckroh/octopus-db-tools/format/octopus"
 	"github.com/lechuckroh/octopus-db-tools/util"
 	"gopkg.in/yaml.v2"
 	"io/ioutil"
 	"log"
+	"reflect"
 )
 
 type DiffOption struct {
@@ -99,7 +99,7 @@ func (c *Diff) generate() ([]byte, error) {
 	for _, addedTable := range addedTables {
 		for _, removedTableName := range removedTableNames.Slice() {
 			if removedTable := fromTableByName[removedTableName]; removedTable != nil {
-				if diff := cmp.Diff(addedTable.Columns, removedTable.Columns); diff == "" {
+				if reflect.DeepEqual(addedTable.Columns, removedTable.Columns) {
 					renamedTableMap[addedTable] = removedTable
 					removedTableNames.Remove(removedTableName)
 					break
-- 
2.43.0


From 7258b78afd16daa6e5c825491383e108328831cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:31 +0000
Subject: [PATCH 101/103] fix: keep names of referenced tables starting with a
 reference mark on xlsx import

---
 format/xlsx/importer.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/format/xlsx/importer.go b/format/xlsx/importer.go
index 12fe3df..97c43f0 100644
--- a/format/xlsx/importer.go
+++ b/format/xlsx/importer.go
@@ -214,18 +214,21 @@ func parseReference(s string) *octopus.Reference {
 
 			if table != "" && column != "" {
 				var relationship string
-				switch []rune(table)[0] {
+				switch table[0] {
 				case '>':
 					relationship = octopus.RefManyToOne
+					table = table[1:]
 				case '<':
 					relationship = octopus.RefOneToMany
+					table = table[1:]
 				case '-':
 					relationship = octopus.RefOneToOne
+					table = table[1:]
 				default:
 					relationship = octopus.RefManyToOne
 				}
 				return &octopus.Reference{
-					Table:        strings.TrimLeft(table, "><-"),
+					Table:        table,
 					Column:       column,
 					Relationship: relationship,
 				}
-- 
2.43.0


From bf50cb94d81874c8d925bf35dc9cea4b49d2cf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:59 +0000
Subject: [PATCH 102/103] fix: keep names of GraphQL queries unique if classes
 have the same plural

---
 format/graphql/generator.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/format/graphql/generator.go b/format/graphql/generator.go
index 2c89dfa..9ebc49c 100644
--- a/format/graphql/generator.go
+++ b/format/graphql/generator.go
@@ -151,6 +151,9 @@ func (c *Generator) Generate(outputPath string) error {
 
 	client := pluralize.NewClient()
 
+	// query names should be unique. (plurals of different classes can be the same)
+	queryNames := util.NewStringSet()
+
 	appendLine(0, "type Query {")
 	for _, table := range c.schema.Tables {
 		// filter table
@@ -162,7 +165,13 @@ func (c *Generator) Generate(outputPath string) error {
 		classes = append(classes, class)
 
 		lowerClassName := strcase.ToLowerCamel(class.Name)
-		appendLine(1, fmt.Sprintf("%s: [%s]", client.Plural(lowerClassName), class.Name))
+		plural := client.Plural(lowerClassName)
+		queryName := plural
+		for i := 2; queryNames.Contains(queryName); i++ {
+			queryName = fmt.Sprintf("%s%d", plural, i)
+		}
+		queryNames.Add(queryName)
+		appendLine(1, fmt.Sprintf("%s: [%s]", queryName, class.Name))
 	}
 	appendLine(0, "}")
 	appendLine(0, "")
-- 
2.43.0


From 9b425859af4a62e4066f4ee9987e219dd50a128f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:01 +0000
Subject: [PATCH 103/103] fix: name the GraphQL root type differently from the
 class of a table

---
 format/graphql/generator.go | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/format/graphql/generator.go b/format/graphql/generator.go
index 9ebc49c..ce99abb 100644
--- a/format/graphql/generator.go
+++ b/format/graphql/generator.go
@@ -142,19 +142,8 @@ func (c *Generator) Generate(outputPath string) error {
 		)
 	}
 
-	appendLine(0, `schema {
-    query: Query
-}
-`)
-
 	var classes []*Class
-
-	client := pluralize.NewClient()
-
-	// query names should be unique. (plurals of different classes can be the same)
-	queryNames := util.NewStringSet()
-
-	appendLine(0, "type Query {")
+	classNames := util.NewStringSet()
 	for _, table := range c.schema.Tables {
 		// filter table
 		if c.option.TableFilter != nil && !c.option.TableFilter(table) {
@@ -163,7 +152,27 @@ func (c *Generator) Generate(outputPath string) error {
 
 		class := NewClass(table, c.option)
 		classes = append(classes, class)
+		classNames.Add(class.Name)
+	}
 
+	// name of the root type should not be a name of a class
+	queryType := "Query"
+	for classNames.Contains(queryType) {
+		queryType = "Root" + queryType
+	}
+
+	appendLine(0, fmt.Sprintf(`schema {
+    query: %s
+}
+`, queryType))
+
+	client := pluralize.NewClient()
+
+	// query names should be unique. (plurals of different classes can be the same)
+	queryNames := util.NewStringSet()
+
+	appendLine(0, fmt.Sprintf("type %s {", queryType))
+	for _, class := range classes {
 		lowerClassName := strcase.ToLowerCamel(class.Name)
 		plural := client.Plural(lowerClassName)
 		queryName := plural
-- 
2.43.0

