"""Independent reader of MySQL DDL (CREATE TABLE, ALTER TABLE, DROP TABLE, RENAME) and the reference
rendering of Octopus columns as MySQL column definitions."""
import re
from . import model as M

TOK = re.compile(r"""
   (?P<ws>\s+)
 | (?P<comment>--[^\n]*|\#[^\n]*|/\*.*?\*/)
 | (?P<bt>`(?:[^`]|``)*`)
 | (?P<str>'(?:[^'\\]|''|\\.)*')
 | (?P<dstr>"(?:[^"\\]|""|\\.)*")
 | (?P<num>[-+]?\d+\.\d+|[-+]?\.\d+|0[xX][0-9a-fA-F]+)
 | (?P<punct>[(),;=])
 | (?P<word>[^\s(),;=`'"]+)
""", re.X | re.S)

ESC = {"n": "\n", "t": "\t", "0": "\0", "r": "\r", "b": "\b", "Z": "\x1a"}


# reserved words of MySQL 8: names only between backticks
RESERVED = frozenset("""ACCESSIBLE ADD ALL ALTER ANALYZE AND AS ASC ASENSITIVE BEFORE BETWEEN BIGINT BINARY BLOB BOTH BY CALL CASCADE CASE CHANGE CHAR
CHARACTER CHECK COLLATE COLUMN CONDITION CONSTRAINT CONTINUE CONVERT CREATE CROSS CUBE CUME_DIST CURRENT_DATE CURRENT_TIME
CURRENT_TIMESTAMP CURRENT_USER CURSOR DATABASE DATABASES DAY_HOUR DAY_MICROSECOND DAY_MINUTE DAY_SECOND DEC DECIMAL DECLARE DEFAULT
DELAYED DELETE DENSE_RANK DESC DESCRIBE DETERMINISTIC DISTINCT DISTINCTROW DIV DOUBLE DROP DUAL EACH ELSE ELSEIF EMPTY ENCLOSED
ESCAPED EXCEPT EXISTS EXIT EXPLAIN FALSE FETCH FIRST_VALUE FLOAT FLOAT4 FLOAT8 FOR FORCE FOREIGN FROM FULLTEXT FUNCTION GENERATED
GET GRANT GROUP GROUPING GROUPS HAVING HIGH_PRIORITY HOUR_MICROSECOND HOUR_MINUTE HOUR_SECOND IF IGNORE IN INDEX INFILE INNER INOUT
INSENSITIVE INSERT INT INT1 INT2 INT3 INT4 INT8 INTEGER INTERSECT INTERVAL INTO IO_AFTER_GTIDS IO_BEFORE_GTIDS IS ITERATE JOIN
JSON_TABLE KEY KEYS KILL LAG LAST_VALUE LATERAL LEAD LEADING LEAVE LEFT LIKE LIMIT LINEAR LINES LOAD LOCALTIME LOCALTIMESTAMP LOCK
LONG LONGBLOB LONGTEXT LOOP LOW_PRIORITY MATCH MAXVALUE MEDIUMBLOB MEDIUMINT MEDIUMTEXT MIDDLEINT MINUTE_MICROSECOND MINUTE_SECOND
MOD MODIFIES NATURAL NOT NO_WRITE_TO_BINLOG NTH_VALUE NTILE NULL NUMERIC OF ON OPTIMIZE OPTIMIZER_COSTS OPTION OPTIONALLY OR ORDER
OUT OUTER OUTFILE OVER PARTITION PERCENT_RANK PRECISION PRIMARY PROCEDURE PURGE RANGE RANK READ READS READ_WRITE REAL RECURSIVE
REFERENCES REGEXP RELEASE RENAME REPEAT REPLACE REQUIRE RESIGNAL RESTRICT RETURN REVOKE RIGHT RLIKE ROW ROWS ROW_NUMBER SCHEMA
SCHEMAS SECOND_MICROSECOND SELECT SENSITIVE SEPARATOR SET SHOW SIGNAL SMALLINT SPATIAL SPECIFIC SQL SQLEXCEPTION SQLSTATE SQLWARNING
SQL_BIG_RESULT SQL_CALC_FOUND_ROWS SQL_SMALL_RESULT SSL STARTING STORED STRAIGHT_JOIN SYSTEM TABLE TERMINATED THEN TINYBLOB TINYINT
TINYTEXT TO TRAILING TRIGGER TRUE UNDO UNION UNIQUE UNLOCK UNSIGNED UPDATE USAGE USE USING UTC_DATE UTC_TIME UTC_TIMESTAMP VALUES
VARBINARY VARCHAR VARCHARACTER VARYING VIRTUAL WHEN WHERE WHILE WINDOW WITH WRITE XOR YEAR_MONTH ZEROFILL""".split())


class DdlError(Exception):
    pass


def unq(s):
    q = s[0]
    out, i, body = [], 0, s[1:-1]
    while i < len(body):
        ch = body[i]
        if ch == "\\":
            i += 1
            nx = body[i]
            out.append(ESC.get(nx, nx))
        elif ch == q and body[i + 1:i + 2] == q:
            out.append(q)
            i += 1
        else:
            out.append(ch)
        i += 1
    return "".join(out)


class Tok:
    def __init__(self, kind, val):
        self.kind, self.val = kind, val

    def __repr__(self):
        return "%s:%s" % (self.kind, self.val)


def tokens(sql):
    out, pos = [], 0
    while pos < len(sql):
        m = TOK.match(sql, pos)
        if not m:
            raise DdlError("cannot read SQL at %r" % sql[pos:pos + 60])
        k = m.lastgroup
        if k == "bt":
            out.append(Tok("id", m.group()[1:-1].replace("``", "`")))
        elif k in ("str", "dstr"):
            out.append(Tok("str", unq(m.group())))
        elif k == "punct":
            out.append(Tok("p", m.group()))
        elif k in ("word", "num"):
            out.append(Tok("word", m.group()))
        pos = m.end()
    return out


def statements(sql):
    cur, out = [], []
    for t in tokens(sql):
        if t.kind == "p" and t.val == ";":
            if cur:
                out.append(cur)
            cur = []
        else:
            cur.append(t)
    if cur:
        raise DdlError("statement without terminating ';': %r" % cur[:6])
    return out


class P:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else Tok("eof", "")

    def kw(self, *words):
        for j, w in enumerate(words):
            t = self.peek(j)
            if t.kind != "word" or t.val.upper() != w:
                return False
        self.i += len(words)
        return True

    def p(self, ch):
        t = self.peek()
        if t.kind == "p" and t.val == ch:
            self.i += 1
            return True
        return False

    def need(self, cond, what):
        if not cond:
            raise DdlError("expected %s at %r" % (what, self.t[max(0, self.i - 3):self.i + 4]))

    def ident(self):
        t = self.peek()
        self.need(t.kind in ("id", "word"), "identifier")
        if t.kind == "word" and t.val.upper() in RESERVED:
            raise DdlError("the reserved word %s is a name without backticks" % t.val)
        self.i += 1
        return t.val

    def eof(self):
        return self.i >= len(self.t)

    def idlist(self):
        self.need(self.p("("), "(")
        out = [self.ident()]
        while self.p(","):
            out.append(self.ident())
        self.need(self.p(")"), ")")
        return out


def col_type(p):
    t = p.peek()
    p.need(t.kind == "word", "type name")
    p.i += 1
    base, args = t.val.lower(), []
    if p.p("("):
        while True:
            a = p.peek()
            p.need(a.kind in ("word", "str"), "type argument")
            args.append(("s", a.val) if a.kind == "str" else ("n", a.val))
            p.i += 1
            if p.p(")"):
                break
            p.need(p.p(","), ", or )")
    return base, args


def value(p):
    """literal | function() -> {'fn': bool, 'quoted': bool, 'text': str}"""
    t = p.peek()
    p.need(t.kind in ("word", "str"), "a value")
    p.i += 1
    if t.kind == "str":
        return {"fn": False, "quoted": True, "text": t.val}
    if p.p("("):
        p.need(p.p(")"), ")")
        return {"fn": True, "quoted": False, "text": t.val}
    return {"fn": False, "quoted": False, "text": t.val}


def col_def(p):
    name = p.ident()
    base, args = col_type(p)
    c = {"name": name, "base": base, "args": args, "notnull": False, "autoinc": False,
         "default": None, "onupdate": None, "comment": "", "pk": False, "unique": False}
    seen = set()

    def once(k):
        if k in seen:
            raise DdlError("column %s: %s given twice" % (name, k))
        seen.add(k)
    while True:
        if p.kw("NOT", "NULL"):
            once("null")
            c["notnull"] = True
        elif p.kw("NULL"):
            once("null")
        elif p.kw("AUTO_INCREMENT"):
            once("ai")
            c["autoinc"] = True
        elif p.kw("DEFAULT"):
            once("default")
            c["default"] = value(p)
        elif p.kw("ON", "UPDATE"):
            once("onupdate")
            c["onupdate"] = value(p)
        elif p.kw("COMMENT"):
            once("comment")
            t = p.peek()
            p.need(t.kind == "str", "comment string")
            c["comment"] = t.val
            p.i += 1
        elif p.kw("PRIMARY", "KEY"):
            c["pk"] = True
        elif p.kw("UNIQUE", "KEY") or p.kw("UNIQUE"):
            c["unique"] = True
        else:
            return c


def create_table(p):
    ine = p.kw("IF", "NOT", "EXISTS")
    name = p.ident()
    t = {"name": name, "if_not_exists": ine, "columns": [], "pk": None, "uniques": [], "indices": []}
    p.need(p.p("("), "(")
    if not p.p(")"):
        while True:
            if p.kw("PRIMARY", "KEY"):
                if t["pk"] is not None:
                    raise DdlError("two primary keys in %s" % name)
                t["pk"] = p.idlist()
            elif p.kw("UNIQUE", "KEY") or p.kw("UNIQUE", "INDEX"):
                n = "" if p.peek().kind == "p" else p.ident()
                t["uniques"].append({"name": n, "columns": p.idlist()})
            elif p.peek().kind == "word" and p.peek().val.upper() in ("INDEX", "KEY") and (
                    p.peek(1).kind == "id" or p.peek(1).val == "("):
                p.i += 1
                n = "" if p.peek().kind == "p" else p.ident()
                t["indices"].append({"name": n, "columns": p.idlist()})
            else:
                t["columns"].append(col_def(p))
            if p.p(")"):
                break
            p.need(p.p(","), ", or ) in %s" % name)
    p.need(p.eof(), "end of statement")
    return t


def parse_create(sql):
    out = []
    for st in statements(sql):
        p = P(st)
        p.need(p.kw("CREATE", "TABLE"), "CREATE TABLE")
        out.append(create_table(p))
    return out


# ---------------------------------------------------------------- reference rendering
FIXED = {"blob8": "tinyblob", "blob16": "blob", "blob24": "mediumblob", "blob32": "longblob",
         "date": "date", "datetime": "datetime", "geometry": "geometry", "json": "json",
         "point": "point", "text8": "tinytext", "text16": "text", "text24": "mediumtext",
         "text32": "longtext", "time": "time", "year": "year"}
SIZED = {"bit": "bit", "char": "char", "decimal": "decimal", "double": "double", "float": "float",
         "int8": "tinyint", "int16": "smallint", "int24": "mediumint", "int32": "int",
         "int64": "bigint", "varchar": "varchar", "binary": "binary", "varbinary": "varbinary"}
QUOTED = set(M.STRS) | {"date", "datetime", "time", "enum", "set"}


def ref_type(c):
    t = c["type"]
    if t in FIXED:
        return FIXED[t], []
    if t == "boolean":
        return "bit", [("n", "1")]
    if t in ("enum", "set"):
        return t, [("s", v) for v in c["values"]]
    base, args = SIZED[t], []
    if c["size"] > 0:
        args.append(("n", str(c["size"])))
        if c["scale"] > 0:
            args.append(("n", str(c["scale"])))
    return base, args


def ref_value(c, key):
    v = c[key]
    if v == "":
        return None
    text, is_fn = M.fn(v)
    return {"fn": is_fn, "text": text}


def ref_column(c):
    base, args = ref_type(c)
    return {"name": c["name"], "base": base, "args": args, "notnull": c["notnull"],
            "autoinc": c["autoinc"], "default": ref_value(c, "default"),
            "onupdate": ref_value(c, "onupdate"), "comment": c["desc"]}


def ref_table(t, suffix=""):
    pk = [c["name"] for c in t["columns"] if c["pk"]]
    uq = [c["name"] for c in t["columns"] if c["unique"]]
    return {"name": t["name"], "columns": [ref_column(c) for c in t["columns"]],
            "pk": pk or None,
            "uniques": [{"name": t["name"] + suffix, "columns": uq}] if uq else [],
            "indices": [{"name": i["name"], "columns": i["columns"]} for i in t["indices"]]}


def quoting_problem(c, parsed, key):
    """String-like literals need quotes; functions must not have them."""
    v = parsed[key]
    if v is None or v["fn"]:
        return None
    if c["type"] in QUOTED and not v["quoted"]:
        return "%s of %s column %s is not a quoted literal" % (key, c["type"], c["name"])
    return None


def compare_table(ctx, t, got, suffix=""):
    """Monitor: the parsed statement states exactly the schema table."""
    want = ref_table(t, suffix)
    pre = "table %s" % t["name"]
    ctx.same(pre + " name", got["name"], want["name"])
    ctx.same(pre + " column list", [c["name"] for c in got["columns"]], [c["name"] for c in want["columns"]])
    if len(got["columns"]) == len(want["columns"]):
        for c, g, w in zip(t["columns"], got["columns"], want["columns"]):
            compare_column(ctx, pre, c, g, w)
    ctx.same(pre + " primary key", got["pk"], want["pk"])
    ctx.same(pre + " unique keys", got["uniques"], want["uniques"])
    ctx.same(pre + " indices", got["indices"], want["indices"])


def compare_column(ctx, pre, c, g, w=None):
    w = w or ref_column(c)
    ctx.see("columns_checked")
    ctx.see("type_" + c["type"])
    for k in ("name", "base", "args", "notnull", "autoinc", "comment"):
        ctx.same("%s column %s %s" % (pre, c["name"], k), g[k], w[k])
    for k in ("default", "onupdate"):
        gv = g[k] and {"fn": g[k]["fn"], "text": g[k]["text"]}
        ctx.same("%s column %s %s" % (pre, c["name"], k), gv, w[k])
        q = quoting_problem(c, g, k)
        if q:
            ctx.fail(pre + ": " + q)
        if w[k]:
            ctx.see(k + ("_fn" if w[k]["fn"] else "_literal"))
