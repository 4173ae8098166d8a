"""Hostile inputs: unusual or damaged, valid or not. The only demand on the tool is that it does not crash."""
import copy
import io
import json
import re
import zipfile

STRINGS = ["", " ", "\t", "\n", "a\nb", "\r\n", "\x00", "\u0001", "\ufeff", "\u2028", "\U0001F600", "é́", "%", "%s%d%n", "%!", "{{.}}", "{{", "}}",
           "'", "''", "\"", "\"\"", "`", "``", "\\", "\\\\", "\\'", "$", "${x}", "#", "--", "/*", "*/", "//", ";", ":", "::", "fn::", "fn::fn::",
           "fn:", "FN::x", ",", ",,", "(", ")", "((((", "[", "]", "{", "}", "<", ">", "<>", "&", "&amp;", "<?xml", "]]>", ".", "..", "/", "../x",
           "a/b", "\\u0000", "null", "true", "-1", "0", "1e999", "NaN", "int", "enum", "set", "table", "class", "type", "func", "_", "__", "___",
           "1", "1a", "9_9", "a_", "_a", "A", "aB", "ABC", "a-b", "a.b", "a b", "ß", "İ", "ǅ", "한글", "日本", "ﷺ", "user_id_2", "id", "created_at",
           "x" * 300, "é" * 5000, "_" * 1000, "a_" * 3000, "(" * 4000, "%s" * 500, "'" * 999, "\\" * 777, "A" * 70000]
NUMS = [0, 1, 2, 255, 256, 65535, 65536, 4294967295, 4294967296, -1, 1.5, 1e3, 1e400 if False else 1e300, 2 ** 63, 2 ** 64, 10 ** 30]
VALUES = STRINGS[:30] + NUMS + [None, True, False, [], {}, [None], [[]], [{}], {"a": 1}]
TYPES = ["binary", "bit", "blob", "boolean", "char", "date", "datetime", "decimal", "double", "enum", "float", "geometry", "int16", "int24",
         "int32", "int64", "int8", "json", "point", "set", "text", "time", "varbinary", "varchar", "year", "string", "LONG", "timestamp"]
DEFAULTS = ["0", "1", "-1", "1.5", "x", "true", "false", "null", "NULL", "", "fn::NOW", "fn::NOW()", "fn::", "fn::CURRENT_TIMESTAMP(6)", "b'1'", "0x1F",
            "2020-01-01", "2020-01-01 00:00:00", "99999999999999999999999", "1e5", "'", "\"", "\\", "\n", "{{.}}", "%d", "fn::'", "fn::\n"]
RELS = ["n:1", "1:1", "1:n", "", "n:n", "x", "1:N", ":"]


def string(r):
    x = r.random()
    if x < 0.7:
        return r.choice(STRINGS)
    return "".join(r.choice(STRINGS[:75]) for _ in range(r.choice([2, 3, 5])))


def schema(r, doc):
    """A schema document which may be strange in several ways, but mostly still is one."""
    d = copy.deepcopy(doc)
    for _ in range(r.choice([1, 1, 2, 3, 5, 9])):
        ts = d.get("tables")
        ts = [t for t in ts if isinstance(t, dict)] if isinstance(ts, list) else []
        if not ts:
            d["tables"] = copy.deepcopy(doc["tables"])
            continue
        t = r.choice(ts)
        cs = t.get("columns")
        cs = [c for c in cs if isinstance(c, dict)] if isinstance(cs, list) else []
        c = r.choice(cs) if cs else None
        x = r.randrange(26)
        if x == 0:
            t["name"] = string(r)
        elif x == 1 and c:
            c["name"] = string(r) or "x"
        elif x == 2:
            t["group"] = string(r)
        elif x == 3:
            t["className"] = string(r)
        elif x == 4:
            t["desc"] = string(r)
        elif x == 5 and c:
            c["desc"] = string(r)
        elif x == 6 and c:
            c["default"] = r.choice(DEFAULTS + [string(r)])
        elif x == 7 and c:
            c["onupdate"] = r.choice(DEFAULTS)
        elif x == 8 and c:
            c["type"] = r.choice(TYPES)
            c["default"] = r.choice(DEFAULTS)
            if c["type"] in ("enum", "set"):
                c["values"] = [string(r) for _ in range(r.choice([1, 1, 2, 64]))]
        elif x == 9 and c:
            c["size"], c["scale"] = r.choice([0, 1, 65535, 4294967295]), r.choice([0, 1, 99, 4294967295])
        elif x == 10 and c:
            c["ref"] = {"table": r.choice([t.get("name"), "gone", "", string(r)]), "column": r.choice([c.get("name"), "gone", "", string(r)]),
                        "relationship": r.choice(RELS)}
        elif x == 11 and c:
            c["ref"] = r.choice([{}, None, {"table": t.get("name")}, {"column": "id"}, {"relationship": "1:n"}])
        elif x == 12:
            t["columns"] = r.choice([[], None])
        elif x == 13:
            t.pop(r.choice(sorted(t)) if t else "name", None)
        elif x == 14 and cs:
            t["columns"].append(copy.deepcopy(c))           # the same column twice
        elif x == 15:
            d["tables"].append(copy.deepcopy(t))            # the same table twice
        elif x == 16:
            t["indices"] = [{"name": string(r), "columns": r.choice([[], ["gone"], [string(r)], None, [c["name"]] * 3 if c and "name" in c else []])}
                            for _ in range(r.choice([1, 2, 2]))]
        elif x == 17:
            for q in cs:
                for k in ("pk", "unique", "notnull", "autoinc"):
                    q[k] = r.random() < 0.5
        elif x == 18:
            for q in cs:
                q["pk"] = r.random() < 0.5
                q["autoinc"] = q["pk"]
                q["type"] = "bigint"
        elif x == 19:
            d[r.choice(["author", "name", "version"])] = string(r)
        elif x == 20:
            d["tables"] = r.choice([[], None, d["tables"][:1], d["tables"] * 2])
        elif x == 21 and c:
            c[r.choice(sorted(c))] = r.choice(VALUES)
        elif x == 22:
            t[r.choice(["name", "columns", "desc", "group", "className", "indices"])] = r.choice(VALUES)
        elif x == 23 and c:
            others = [o for o in ts if o.get("columns")]
            for q in cs:
                o = r.choice(others) if others else t
                q["ref"] = {"table": o.get("name"), "column": "id", "relationship": r.choice(RELS)}
        elif x == 24 and c:
            c["unknown"] = r.choice(VALUES)
            t[string(r)] = 1
        elif x == 25:
            n = r.choice([30, 120])
            t["columns"] = [{"name": "c%d" % k, "type": r.choice([y for y in TYPES if y not in ("enum", "set")])} for k in range(n)]
    return d


def damaged(r, b):
    """Bytes with local damage."""
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 2, 4, 10])):
        x = r.randrange(8)
        n = len(b)
        if n == 0:
            b = bytearray(b"x")
            continue
        i = r.randrange(n)
        j = min(n, i + r.choice([1, 2, 5, 20, 100]))
        if x == 0:
            b[i] ^= 1 << r.randrange(8)
        elif x == 1:
            b[i] = r.randrange(256)
        elif x == 2:
            del b[i:j]
        elif x == 3:
            b[i:i] = b[i:j] * r.choice([1, 2, 3])
        elif x == 4:
            b[i:i] = string(r).encode("utf8", "surrogatepass")[:200]
        elif x == 5:
            k = r.randrange(n)
            b[i:i] = b[k:k + r.choice([5, 30, 200])]
        elif x == 6 and r.random() < 0.3:
            del b[i:]
        else:
            b[i:j] = bytes(reversed(b[i:j]))
    return bytes(b)


STATEMENTS = [
    "CREATE TABLE t1 LIKE t2;", "CREATE TABLE t1 (LIKE t2);", "CREATE TABLE t1 AS SELECT 1 AS a;", "CREATE TABLE t1 (a int) AS SELECT 1 AS a;",
    "CREATE TEMPORARY TABLE t1 (a int);", "CREATE TABLE d.t1 (a int);", "CREATE TABLE t1 (a int, PRIMARY KEY (a(10)));",
    "CREATE TABLE t1 (a int, PRIMARY KEY (b));", "CREATE TABLE t1 (a int, UNIQUE KEY (nope));", "CREATE TABLE t1 (a int, KEY k ((a+1)));",
    "CREATE TABLE t1 (a int, KEY (a), KEY (a), INDEX (a DESC));", "CREATE TABLE t1 (a text, FULLTEXT KEY f (a), FULLTEXT (a));",
    "CREATE TABLE t1 (a int, CONSTRAINT fk FOREIGN KEY (a) REFERENCES t2 (b) ON DELETE CASCADE ON UPDATE SET NULL);",
    "CREATE TABLE t1 (a int REFERENCES t2 (b));", "CREATE TABLE t1 (a int CHECK (a > 0), CHECK (a < 9));",
    "CREATE TABLE t1 (a int, b int GENERATED ALWAYS AS (a + 1) STORED, c int AS (a) VIRTUAL NOT NULL);",
    "CREATE TABLE t1 (a int) PARTITION BY RANGE (a) (PARTITION p0 VALUES LESS THAN (10), PARTITION p1 VALUES LESS THAN MAXVALUE);",
    "CREATE TABLE t1 (a int) PARTITION BY HASH (a) PARTITIONS 4;", "CREATE TABLE t1 (a int COLLATE utf8mb4_bin CHARSET utf8);",
    "CREATE TABLE t1 (a serial);", "CREATE TABLE t1 (a bool, b boolean default true);", "CREATE TABLE t1 (a enum('x','y') default 'x', b set('a'));",
    "CREATE TABLE t1 (a enum('')); ", "CREATE TABLE t1 (a bit(1) default b'1', b bit(64) default 0x1F);", "CREATE TABLE t1 (a json default '{}');",
    "CREATE TABLE t1 (a timestamp(6) default current_timestamp(6) on update current_timestamp(6));", "CREATE TABLE t1 (a year(4), b time(3));",
    "CREATE TABLE t1 (a int default (1+1), b varchar(10) default (uuid()));", "CREATE TABLE t1 (a int default -1, b int default +1, c int default - 1);",
    "CREATE TABLE t1 (a decimal, b decimal(5), c decimal(5,0), d float(3), e double(5,2), f real, g numeric(65,30), h fixed(3));",
    "CREATE TABLE t1 (a int unsigned zerofill, b bigint(20) unsigned);", "CREATE TABLE t1 (a char, b varchar(0), c binary, d varbinary(1), e nchar(3), f nvarchar(3));",
    "CREATE TABLE t1 (a point not null, b geometry, SPATIAL INDEX (a));", "CREATE TABLE t1 (a int comment '', b int comment 'it''s', c int comment \"q\\\"\");",
    "CREATE TABLE `` (a int);", "CREATE TABLE t1 (`` int);", "CREATE TABLE `a``b` (`c``d` int);", "CREATE TABLE t1 (a int, a int);",
    "CREATE TABLE t1 (a int AUTO_INCREMENT, KEY (a)) AUTO_INCREMENT=5 COMMENT='x' ENGINE=InnoDB ROW_FORMAT=COMPRESSED;",
    "CREATE TABLE t1 (a int primary key, b int primary key);", "CREATE TABLE t1 (a int unique unique key primary key not null null default null);",
    "DROP TABLE t1;", "ALTER TABLE t1 ADD COLUMN x int;", "INSERT INTO t1 VALUES (1,'a');", "SET NAMES utf8;", "USE db;", "CREATE DATABASE x;",
    "CREATE VIEW v AS SELECT 1;", "CREATE INDEX i ON t1 (a);", "/*!40101 SET x=1 */;", "-- c\n", "# c\n", "/* c */", ";;;", "LOCK TABLES t1 WRITE;",
    "CREATE TRIGGER x BEFORE INSERT ON t1 FOR EACH ROW SET a=1;", "DELIMITER //", "CREATE TABLE t1 (a int default 'x', b date default '0000-00-00');",
    "CREATE TABLE t1 (a int default null on update now());", "CREATE TABLE t1 (a datetime default now() on update now(), b datetime default localtime);",
    "CREATE TABLE t1 (a varchar(10) default \"\", b varchar(10) default '''', c text default 'x');", "CREATE TABLE t1 (a int default true, b int default x'ff');",
    "CREATE TABLE t1 (a varchar(10) default _utf8'x', b varchar(9) default N'x');", "CREATE TABLE t1 (a int default 1e5, b double default 1.5e-3);",
    "CREATE TABLE t1 (a blob(10), b text(5), c tinyblob, d longtext);", "CREATE TABLE t1 (a int invisible);", "CREATE TABLE t1 (a vector(3));"]


def sql(r, text):
    out = []
    toks = re.findall(r"'(?:[^'\\]|\\.|'')*'|`[^`]*`|\w+|\s+|.", text, re.S)
    x = r.random()
    if x < 0.4 and toks:
        for _ in range(r.choice([1, 1, 2, 4])):
            i = r.randrange(len(toks))
            k = r.randrange(5)
            if k == 0:
                del toks[i]
            elif k == 1:
                toks.insert(i, toks[i])
            elif k == 2:
                j = r.randrange(len(toks))
                toks[i], toks[j] = toks[j], toks[i]
            elif k == 3:
                toks[i] = toks[r.randrange(len(toks))]
            else:
                toks.insert(i, r.choice(["'", "`", "(", ")", ",", ";", " NULL ", " DEFAULT ", " KEY ", " 1 ", " PRIMARY KEY ", "--", "/*", "\\", "@", "?", "0x"]))
            if not toks:
                break
        out.append("".join(toks))
    elif x < 0.6:
        out.append(text)
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        out.insert(r.randrange(len(out) + 1), r.choice(STATEMENTS))
    return "\n".join(out)


def mdj(r, doc):
    d = copy.deepcopy(doc)
    nodes = []

    def walk(e, up):
        if isinstance(e, dict):
            nodes.append((e, up))
            for k in sorted(e):
                walk(e[k], e)
        elif isinstance(e, list):
            for x in e:
                walk(x, up)
    walk(d, None)
    for _ in range(r.choice([1, 1, 2, 4])):
        e, up = r.choice(nodes)
        if not e:
            continue
        k = r.choice(sorted(e))
        x = r.randrange(6)
        if x == 0:
            e.pop(k)
        elif x == 1:
            e[k] = r.choice(VALUES)
        elif x == 2 and isinstance(e[k], list):
            e[k].append(r.choice([None, {}, r.choice(nodes)[0] if False else {"_type": "ERDColumn"}, {"_type": "ERDEntity"}, []]))
        elif x == 3 and isinstance(e[k], str):
            e[k] = string(r)
        elif x == 4 and "_id" in e:
            e["_id"] = r.choice([n[0].get("_id", "") for n in nodes if isinstance(n[0].get("_id", ""), str)] + [""])
        elif x == 5 and "$ref" in e:
            e["$ref"] = r.choice([n[0]["_id"] for n in nodes if "_id" in n[0]] + ["", "gone"])
        else:
            e["length"] = r.choice([-1, 0, 1e10, "x", "-5", "1,2", None, [], 99999999999])
    return d


CELL = ["", " ", "table", "TABLE", "int32", "varchar(20)", "decimal(10,2)", "varchar(", "varchar()", "varchar(x)", "varchar(99999999999)", "int32(1,2,3)",
        "P", "U", "I", "PU", "X", "O", "o", "default=", "default", "=", "autoinc", "autoinc,autoinc", "default=a,default=b", "onUpdate=", "class=", "class",
        ">", "<", "-", ">a", ">a.", ">.b", ".b", "a.", ".b", "<.", "-.-", ">a.b", "a.b.c", ".", "..", "<a.b", "-a.b", ">>a.b", "user.id", "foo", "enum", "set", "1", "1.5", "TRUE", "2020-01-01"]


REFS = [">", "<", "-", ">a", ">a.", ">.b", ".b", "a.", "<.", "-.-", "-.b", ">a.b", "a.b.c", ".", "..", "<a.b", ">>a.b", "><.b", " .b", "user.id", "가.b"]
ATTRS = ["default=", "default", "=", ",", ",,", "=x", "autoinc", "autoinc,autoinc", "autoInc=", "default=a,default=b", "onUpdate=", "class=", "class",
         "default=a=b", "default==", " default = 1 ", "ref", "default=(,)"]


def grid(r, sheets):
    """Keep the layout of the sheets and put odd but well-placed text into the cells of the column rows."""
    for _, rows in sheets:
        for row in rows[1:]:
            if len(row) > 2 and row[2] != "table":
                for i, pool in ((0, REFS), (2, CELL), (3, CELL), (4, CELL), (5, ATTRS)):
                    if i < len(row) and r.random() < 0.35:
                        row[i] = r.choice(pool)
            elif len(row) > 5 and r.random() < 0.5:
                row[5] = r.choice(ATTRS)


def xlsx_rows(r, sheets):
    sheets = [[n, [list(row) for row in rows]] for n, rows in sheets]
    if r.random() < 0.4:
        grid(r, sheets)
    for _ in range(r.choice([1, 2, 3, 6])):
        if not sheets:
            sheets.append(["S", [["table/ref."]]])
            continue
        s = r.choice(sheets)
        rows = s[1]
        x = r.randrange(11)
        row = r.choice(rows) if rows else None
        if x == 0 and row:
            row[r.randrange(len(row))] = r.choice(CELL + [string(r)])
        elif x == 1 and row is not None:
            del row[r.randrange(len(row) + 1):]
        elif x == 2 and rows:
            rows.pop(r.randrange(len(rows)))
        elif x == 3:
            rows.insert(r.randrange(len(rows) + 1), [r.choice(CELL) for _ in range(r.choice([0, 1, 2, 3, 7, 12]))])
        elif x == 4:
            s[0] = r.choice(["Meta", "meta", "x", "S", "한글", "a b", "A" * 31])
        elif x == 5:
            s[1] = []
        elif x == 6:
            sheets.insert(0, ["N%d" % r.randrange(99), [[r.choice(CELL) for _ in range(4)] for _ in range(3)]])
        elif x == 7 and len(sheets) > 1:
            sheets.remove(s)
        elif x == 8 and row is not None:
            row.insert(0, "")
        elif x == 9 and len(rows) > 1:
            r.shuffle(rows)
        elif x == 10 and row:
            i = r.randrange(len(row))
            row[i] = "\n".join([row[i]] * 2)
    seen, out = set(), []
    for n, rows in sheets:
        if n not in seen:
            seen.add(n)
            out.append([n, [[clean(v) for v in row] for row in rows]])
    return out


def clean(v):
    return re.sub("[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]", "", v)[:30000]


def xlsx_bytes(r, data):
    """Damage inside the parts of a workbook, with the archive itself intact."""
    if r.random() < 0.25:
        return damaged(r, data)
    z = zipfile.ZipFile(io.BytesIO(data))
    parts = {n: z.read(n) for n in z.namelist()}
    for _ in range(r.choice([1, 1, 2])):
        n = r.choice(sorted(parts))
        b = parts[n]
        x = r.randrange(9)
        if x == 0:
            parts[n] = damaged(r, b)
        elif x == 1:
            parts.pop(n)
            if not parts:
                break
        elif x == 2:
            parts[n] = re.sub(rb'r="([A-Z]+)(\d+)"', lambda m: b'r="' + r.choice([b"", b"1A", b"A", b"0", b"A0", b"XFD1048576" if False else b"AZ9", b"a1", b"A1:B2", m.group(1) + m.group(2)]) + b'"', b, count=r.choice([1, 3, 0]))
        elif x == 3:
            parts[n] = re.sub(rb'<row r="(\d+)"', lambda m: b'<row r="' + r.choice([b"0", b"-1", b"", b"x", b"3000", m.group(1)]) + b'"', b, count=r.choice([1, 2]))
        elif x == 4:
            parts[n] = re.sub(rb"<v>(\d+)</v>", lambda m: b"<v>" + r.choice([b"-1", b"99999", b"", b"x", b"1.5", b"1e9", m.group(1)]) + b"</v>", b, count=r.choice([1, 3]))
        elif x == 5:
            parts[n] = re.sub(rb't="s"', lambda m: r.choice([b't="n"', b't="b"', b't="e"', b't="str"', b't="zz"', b"", b't="d"', b's="99" t="s"', b's="-1"', b't="inlineStr"']), b, count=r.choice([1, 3, 0]))
        elif x == 6:
            parts[n] = re.sub(rb'(sheetId|r:id|Id|Target|name)="([^"]*)"', lambda m: m.group(1) + b'="' + r.choice([b"", b"x", b"0", b"../x", b"rId1", b"99999999999999999999", m.group(2)]) + b'"', b, count=r.choice([1, 2, 0]))
        elif x == 7:
            parts[n] = b.replace(b"<sheetData>", r.choice([b'<dimension ref="A1:ZZ10"/><sheetData>', b'<dimension ref=""/><sheetData>', b'<dimension ref="B2"/><sheetData>', b'<dimension ref="A0:@1"/><sheetData>',
                                                           b'<cols><col min="0" max="3"/></cols><sheetData>', b'<cols><col min="5" max="1"/></cols><sheetData>', b'<mergeCells><mergeCell ref="A1:B2"/></mergeCells><sheetData>',
                                                           b'<sheetData><row/><row r="1"><c/></row>']))
        else:
            parts[n] = b.replace(b"</sheetData>", r.choice([b'</sheetData><mergeCells count="1"><mergeCell ref="A1:C3"/></mergeCells>', b'</sheetData><mergeCells><mergeCell ref="A1"/></mergeCells>',
                                                            b'</sheetData><mergeCells><mergeCell ref=""/></mergeCells>', b'<row r="2"><c r="B2"><f>A1+</f><v>1</v></c></row></sheetData>',
                                                            b'<row r="9"><c r="B9"><f t="shared" si="0"/></c></row></sheetData>', b"</sheetData></sheetData>"]))
    out = io.BytesIO()
    with zipfile.ZipFile(out, "w", zipfile.ZIP_DEFLATED) as w:
        for n, b in parts.items():
            w.writestr(n, b)
    return out.getvalue()


OPTIONS = {"groups": ["", ",", ",,,", "x", " ", "*", "a,a,a", "\n"], "prefix": [":", "::", ",", "a:,b", ":x", "a:b:c", "{{", "%s", ",a:b", "9", " "],
           "removePrefix": [",", ",,", "a,,b", "*", "_", "t", ".*", "(", " "], "uniqueNameSuffix": ["%s", "'", "{{", "\n", "`", "\""],
           "annotation": [":", ";", "a:;", ";;", "@A(b=\"c,d\")", "a:b:c", ",", "g:@A;@B,:"], "embed": [":", "::", ",", "a:", ":b", "a:b,c:d", "gorm.Model:id", "A:B:C", "x", "a:id;b"],
           "package": [".", "..", "a..b", "", " ", "9", "a.b.c.d.e.f", "func", "{{"], "reposPackage": [".", "..", "a..b", "x", "{{"], "relation": ["", "VRelation", "x", "{{", "vrelation"],
           "idEntity": ["", "x", "{{", "."], "goPackage": ["", ".", ";", "\"", "a;b"], "graphqlPackage": ["", ".", "{{", "9"], "author": ["", "'", "\n", "%s"], "excludes": [",", "*", ",,", "(", " "],
           "version": ["", "%s", "\n", "99999999999"], "relationTagStart": ["0", "-1", "-99999", "99999999", "2147483647", "x", "", "1.5", "99999999999999999999", "0x10", " 5"]}


def options(r, names):
    o = {}
    for n in names:
        if n in OPTIONS and r.random() < 0.35:
            o[n] = r.choice(OPTIONS[n])
        elif n in ("comments", "useUTC", "useNullColumn", "pointerAssociation", "relationTagDecr") and r.random() < 0.5:
            o[n] = True
    return o
