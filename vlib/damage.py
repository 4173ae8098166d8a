"""Ways to make a valid input invalid. Each returns (kind, bytes or None) for the file the command reads."""
import copy
import json
import zipfile
import io

NULL = object()


def _strict(text):
    """Is this text a JSON document? (RFC 8259: no NaN, no raw control characters)"""
    def bad(x):
        raise ValueError(x)
    try:
        json.loads(text, parse_constant=bad)
        return True
    except (ValueError, RecursionError):
        return False


def text_damage(r, doc):
    """Texts which are not JSON."""
    t = json.dumps(doc, ensure_ascii=r.random() < 0.5, indent=r.choice([None, None, 2]))
    for _ in range(50):
        x = r.randrange(12)
        if x == 0:
            k, u = "truncated", t[:r.randrange(len(t))]
        elif x == 1:
            k, u = "trailing", t + r.choice([" x", "{}", "]", "}", ",", "\n" + t, "\x00", "//c"])
        elif x == 2:
            k, u = "leading", r.choice(["\ufeff", "x", "// c\n", ",", "{", "'", "\x00"]) + t
        elif x == 3:
            ps = [i for i, c in enumerate(t) if c in "{}[]:,\""]
            i = r.choice(ps)
            k, u = "deleted", t[:i] + t[i + 1:]
        elif x == 4:
            ps = [i for i, c in enumerate(t) if c in "{}[]:,"]
            i = r.choice(ps)
            k, u = "replaced", t[:i] + r.choice("{}[]:,;=") + t[i + 1:]
        elif x == 5:
            k, u = "single quotes", t.replace('"', "'")
        elif x == 6:
            k, u = "trailing comma", t[:-1] + "," + t[-1]
        elif x == 7:
            k, u = "empty", r.choice(["", " ", "\n\n"])
        elif x == 8:
            k, u = "no json", r.choice(["garbage", "CREATE TABLE t (id int);", "<xml/>", "name: x\ntables: []", "NaN", "{tables: []}",
                                       "tru", "-", "0x10", "PK\x03\x04", "\x7fELF\x02\x01"])
        elif x == 9:
            i = t.find('"', r.randrange(len(t)))
            if i < 0:
                continue
            k, u = "control character", t[:i + 1] + r.choice(["\n", "\t", "\x00", "\x1f"]) + t[i + 1:]
        elif x == 10:
            i = t.find('"', r.randrange(len(t)))
            if i < 0:
                continue
            k, u = "bad escape", t[:i + 1] + r.choice(["\\x", "\\u12", "\\'", "\\uzzzz"]) + t[i + 1:]
        else:
            k, u = "comment", t.replace(":", ": /* c */", 1)
        if not _strict(u):
            return "json:" + k, u.encode("utf8", "surrogatepass")
    return "json:empty", b""


def top_damage(r, doc):
    return "top:" + type(doc).__name__, json.dumps(r.choice([[], [doc], "x", 5, None, True, False, 1.5, [None], ""])).encode()


def _pick_col(r, d):
    cs = [(t, i) for t in d["tables"] if t for i, c in enumerate(t["columns"]) if c]
    return r.choice(cs) if cs else (None, None)


WRONG = {"str": [5, True, [], {}, ["x"], 1.5], "num": ["5", "", -1, 1.5, True, [], {}, 4294967296, 1e30], "bool": ["true", 1, 0, "", [], {}],
         "list": ["x", 5, {}, True, [5], [[]], [{}]], "objs": ["x", 5, {}, True, [5], ["x"], [[]]], "obj": ["x", 5, [], True, [{}]]}
COLKEYS = [("name", "str"), ("type", "str"), ("desc", "str"), ("size", "num"), ("scale", "num"), ("notnull", "bool"), ("pk", "bool"),
           ("unique", "bool"), ("autoinc", "bool"), ("default", "str"), ("onupdate", "str"), ("values", "list"), ("ref", "obj")]
V1KEYS = [("name", "str"), ("type", "str"), ("description", "str"), ("size", "num"), ("scale", "num")]
BADTYPES = ["", "foo", "varcharr", "int 32", " int", "int ", "varchar(20)", "int64x", "64", "null", "none", "text64", "array", "uuid2", "in t",
            "int\n", "ìnt", "enum2", "*", "varchar2", "bool1", "int32;", " int32", "varchar ", "datetime\n", "\tboolean", "int32\u00a0"]


def value_damage(r, doc, v1=False):
    """A JSON document that is no schema."""
    d = copy.deepcopy(doc)
    for _ in range(60):
        x = r.randrange(14)
        t, i = _pick_col(r, d)
        if x == 0 and t:
            t["columns"][i]["type"] = r.choice(BADTYPES)
            k = "type"
        elif x == 1 and t:
            t["columns"][i].pop("type", None)
            k = "no type"
        elif x == 2 and t:
            t["columns"][i]["type"] = None
            k = "null type"
        elif x == 3 and t:
            t["columns"][i]["name"] = r.choice(["", "", None])
            k = "no name"
        elif x == 4 and t:
            t["columns"][i].pop("name", None)
            k = "no name"
        elif x == 5 and t and not v1:
            c = t["columns"][i]
            c["type"] = r.choice(["enum", "set", "ENUM", "Set"])
            c.pop("values", None)
            if r.random() < 0.5:
                c["values"] = r.choice([[], None])
            k = "no values"
        elif x == 6 and t and not v1:
            c = t["columns"][i]
            c["type"], c["values"] = r.choice(["set", "SET"]), ["v%d" % n for n in range(r.choice([65, 66, 100, 300]))]
            k = "many values"
        elif x == 7:
            d["tables"].insert(r.randrange(len(d["tables"]) + 1), None)
            k = "null table"
        elif x == 8 and t:
            t["columns"].insert(r.randrange(len(t["columns"]) + 1), None)
            k = "null column"
        elif x == 9 and t and not v1:
            t.setdefault("indices", []).insert(0, None)
            k = "null index"
        elif x == 10 and t:
            key, kind = r.choice(V1KEYS if v1 else COLKEYS)
            t["columns"][i][key] = r.choice(WRONG[kind])
            k = "wrong kind of " + key
        elif x == 11 and t:
            key, kind = r.choice([("name", "str"), ("columns", "objs"), ("desc", "str"), ("group", "str"), ("className", "str")] +
                                 ([] if v1 else [("indices", "objs")]))
            t[key] = r.choice(WRONG[kind])
            k = "wrong kind of table " + key
        elif x == 12:
            key, kind = r.choice([("tables", "objs"), ("name", "str"), ("author", "str"), ("version", "str")])
            d[key] = r.choice(WRONG[kind])
            k = "wrong kind of schema " + key
        elif x == 13 and t and not v1:
            t["columns"][i]["ref"] = {"table": r.choice([5, [], {}])}
            k = "wrong kind of ref table"
        else:
            continue
        return "value:" + k, json.dumps(d, ensure_ascii=False).encode("utf8", "surrogatepass")
    return "top:none", b"[]"


def schema(r, doc, v1=False):
    x = r.random()
    if x < 0.3:
        return text_damage(r, doc)
    if x < 0.36:
        return top_damage(r, doc)
    return value_damage(r, doc, v1)


def sql(r, text):
    """DDL which is no MySQL."""
    bad = r.choice(["CREATE TABLE zz (a int", "CREATE TABLE zz (a foo);", "CREATE TABLE (a int);", "CREATE TABLE zz a int);",
                    "CREATE TABLE zz (a int,, b int);", "CREATE TABLE zz (a varchar(x));", "garbage;", "CREATE TABEL zz (a int);",
                    "CREATE TABLE zz (a int comment 'x);", "CREATE TABLE zz (a int) ENGINE=;", "CREATE TABLE `zz (a int);",
                    "{\"tables\": []};", "CREATE TABLE zz (a int PRIMARY KEY KEY KEY x);", "CREATE TABLE zz (a enum());", "<xml/>;",
                    "CREATE TABLE zz (a int default);", "CREATE TABLE zz (primary key);", "CREATE TABLE zz (a);", "(((;", "\x00\x01\x02;"])
    x = r.random()
    if x < 0.35:
        return "sql:last", (text.rstrip().rstrip(";") + ";\n" + bad).encode()
    if x < 0.55 and not bad.startswith("CREATE TABLE zz (a int comment") and "`zz" not in bad:
        return "sql:first", (bad.rstrip(";") + ("\n" if r.random() < 0.5 else ";\n") + "CREATE TABLE ok (a int);\n" + text).encode() \
            if bad.endswith(";") else ("sql:first", (bad + ";\n" + text).encode())[1]
    if x < 0.8:
        return "sql:only", bad.encode()
    return "sql:cut", cut_sql(r, text)


def cut_sql(r, text):
    """Cut the text inside the parentheses of its last statement."""
    a, b = text.rfind("CREATE"), text.rfind(")")
    a = text.find("(", a) if a >= 0 else -1
    if a < 0 or b <= a:
        return b"CREATE TABLE"
    return text[:a + 1].encode() + (b" x int, y " if r.random() < 0.5 else b"")


def xlsx(r, data, unknown=None):
    """Workbooks that cannot be read."""
    x = r.randrange(6)
    if x == 0:
        return "xlsx:truncated", data[:r.randrange(len(data) - 22)]
    if x == 1:
        return "xlsx:garbage", r.choice([b"", b"garbage", b"PK\x03\x04", b"PK\x05\x06" + b"\0" * 18, b"\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1" + b"\0" * 600,
                                         b"a,b,c\n1,2,3\n", b"{}", bytes(r.randrange(256) for _ in range(300))])
    z = zipfile.ZipFile(io.BytesIO(data))
    parts = {n: z.read(n) for n in z.namelist()}
    if x == 2:
        k = "xlsx:missing part"
        parts.pop(r.choice(["xl/workbook.xml", "xl/_rels/workbook.xml.rels"]))
    elif x == 3:
        k = "xlsx:broken xml"
        n = r.choice([n for n in parts if n.startswith("xl/worksheets/") or n in ("xl/workbook.xml", "xl/_rels/workbook.xml.rels")])
        parts[n] = parts[n][:len(parts[n]) // 2]
    elif x == 4:
        k = "xlsx:not xml"
        n = r.choice([n for n in parts if n.startswith("xl/worksheets/") or n == "xl/workbook.xml"])
        parts[n] = r.choice([b"", b"garbage", b"\x00\x01", b"{}"])
    else:
        k = "xlsx:bad strings"
        parts["xl/sharedStrings.xml"] = r.choice([b"", b"garbage", parts["xl/sharedStrings.xml"][:-20]])
    out = io.BytesIO()
    with zipfile.ZipFile(out, "w", zipfile.ZIP_DEFLATED) as w:
        for n, b in parts.items():
            w.writestr(n, b)
    return k, out.getvalue()
