import json
import random
import re
from vlib import gen as G, model as M, spec

PROPERTY = "C04"
RULE = ("seeded random MySQL DDL scripts written in many surface forms (keyword case, quoting, type synonyms, inline/"
        "table-level keys, key/index/unique spellings, defaults, functions, comments, table options, unrelated "
        "statements and comments, --excludes/--author/--version) from a table model; the imported Octopus document is "
        "compared with what that DDL declares; distinct = distinct imported documents with at least one table")
FLOOR = {"columns_checked": 3000, "excluded_tables": 20, "inline_unique": 50, "functions": 50, "indices": 200}


# (ddl spelling, octopus type, size, scale)
def ddl_type(r):
    n = r.choice
    k = r.randrange(34)
    if k == 0:
        return n([("TINYINT", "int8", 0, 0), ("tinyint(4)", "int8", 4, 0), ("INT1", "int8", 0, 0),
                  ("tinyint(2) unsigned", "int8", 2, 0)])
    if k == 1:
        return n([("SMALLINT", "int16", 0, 0), ("smallint(6)", "int16", 6, 0), ("INT2", "int16", 0, 0)])
    if k == 2:
        return n([("MEDIUMINT", "int24", 0, 0), ("mediumint(8)", "int24", 8, 0), ("INT3", "int24", 0, 0)])
    if k in (3, 4):
        return n([("INT", "int32", 0, 0), ("int(11)", "int32", 11, 0), ("integer", "int32", 0, 0),
                  ("INT(10) UNSIGNED", "int32", 10, 0), ("int4", "int32", 0, 0),
                  ("int(5) unsigned zerofill", "int32", 5, 0)])
    if k in (5, 6):
        return n([("BIGINT", "int64", 0, 0), ("bigint(20)", "int64", 20, 0), ("INT8", "int64", 0, 0),
                  ("bigint(20) unsigned", "int64", 20, 0)])
    if k == 7:
        return n([("BOOL", "boolean", 0, 0), ("boolean", "boolean", 0, 0), ("tinyint(1)", "boolean", 0, 0),
                  ("bit(1)", "boolean", 0, 0), ("BIT", "boolean", 0, 0), ("tinyint(1) unsigned", "boolean", 0, 0)])
    if k == 8:
        p = n([1, 5, 10, 20, 65])
        s = n([0, 1, 2, 3])
        s = min(s, p)
        kw = n(["decimal", "NUMERIC", "DEC", "fixed"])
        return n([(kw, "decimal", 0, 0), ("%s(%d,%d)" % (kw, p, s), "decimal", p, s), ("%s(%d)" % (kw, p), "decimal", p, 0),
                  ("%s(%d, %d)" % (kw, p, s), "decimal", p, s), ("%s(%d,%d) unsigned" % (kw, p, s), "decimal", p, s)])
    if k == 9:
        return n([("float", "float", 0, 0), ("FLOAT(7,3)", "float", 7, 3), ("float(10,2)", "float", 10, 2), ("float(53)", "double", 0, 0),
                  ("float unsigned", "float", 0, 0), ("float(20)", "float", 0, 0), ("FLOAT(24)", "float", 0, 0), ("float(25)", "double", 0, 0)])
    if k == 10:
        return n([("double", "double", 0, 0), ("DOUBLE(8,2)", "double", 8, 2), ("REAL", "double", 0, 0),
                  ("double precision", "double", 0, 0), ("real(20,5)", "double", 20, 5)])
    if k == 11:
        return n([("char(%d)" % z, "char", z, 0) for z in (1, 2, 36, 255)] + [("NCHAR(4)", "char", 4, 0),
                 ("CHARACTER(3)", "char", 3, 0), ("char(8) character set utf8mb4", "char", 8, 0),
                 ("char(9) CHARACTER SET ascii COLLATE ascii_bin", "char", 9, 0)])
    if k in (12, 13, 14):
        return n([("varchar(%d)" % z, "varchar", z, 0) for z in (1, 20, 40, 64, 255, 256, 1000, 16383, 65535)] +
                 [("VARCHAR(30) CHARACTER SET utf8 COLLATE utf8_general_ci", "varchar", 30, 0),
                  ("character varying(12)", "varchar", 12, 0), ("NVARCHAR(5)", "varchar", 5, 0),
                  ("varchar(10) collate utf8mb4_bin", "varchar", 10, 0), ("varchar(10) binary", "varchar", 10, 0),
                  ("varchar(10) character set binary", "varbinary", 10, 0), ("national varchar(7)", "varchar", 7, 0),
                  ("varchar(15) COLLATE utf8mb4_general_ci", "varchar", 15, 0)])
    if k == 15:
        return n([("binary(%d)" % z, "binary", z, 0) for z in (2, 16, 255)])
    if k == 16:
        return n([("VARBINARY(%d)" % z, "varbinary", z, 0) for z in (1, 16, 255, 256, 60000)])
    if k == 17:
        return n([("bit(%d)" % z, "bit", z, 0) for z in (2, 3, 8, 63, 64)])
    if k == 18:
        return n([("text", "text16", 0, 0), ("TEXT CHARACTER SET utf8mb4", "text16", 0, 0), ("text(100)", "text16", 0, 0), ("text character set binary", "blob16", 0, 0)])
    if k == 19:
        return n([("tinytext", "text8", 0, 0), ("TINYTEXT COLLATE utf8_bin", "text8", 0, 0), ("tinytext character set utf8mb4", "text8", 0, 0),
                  ("TinyText character set latin1", "text8", 0, 0), ("tinytext character set binary", "blob8", 0, 0)])
    if k == 20:
        return n([("mediumtext", "text24", 0, 0), ("LONG VARCHAR", "text24", 0, 0), ("long", "text24", 0, 0), ("MEDIUMTEXT CHARACTER SET utf8mb4", "text24", 0, 0), ("mediumtext character set latin1", "text24", 0, 0),
                  ("MediumText collate utf8mb4_bin", "text24", 0, 0), ("mediumtext character set binary", "blob24", 0, 0)])
    if k == 21:
        return n([("LONGTEXT", "text32", 0, 0), ("longtext character set utf8", "text32", 0, 0), ("longText collate utf8mb4_bin", "text32", 0, 0),
                  ("longtext character set utf8mb4", "text32", 0, 0), ("longtext character set binary", "blob32", 0, 0)])
    if k == 22:
        return n([("blob", "blob16", 0, 0), ("BLOB(200)", "blob16", 0, 0)])
    if k == 23:
        return ("TINYBLOB", "blob8", 0, 0)
    if k == 24:
        return n([("mediumblob", "blob24", 0, 0), ("long varbinary", "blob24", 0, 0)])
    if k == 25:
        return ("longblob", "blob32", 0, 0)
    if k == 26:
        return ("date", "date", 0, 0)
    if k in (27, 28):
        return n([("datetime", "datetime", 0, 0), ("TIMESTAMP", "datetime", 0, 0), ("datetime(6)", "datetime", 0, 0),
                  ("timestamp(3)", "datetime", 0, 0)])
    if k == 29:
        return n([("time", "time", 0, 0), ("TIME(3)", "time", 0, 0)])
    if k == 30:
        return n([("year", "year", 0, 0), ("YEAR(4)", "year", 0, 0)])
    if k == 31:
        return ("json", "json", 0, 0)
    if k == 32:
        return ("enum", "enum", 0, 0)
    return ("set", "set", 0, 0)


def lit(r, s):
    if r.random() < 0.15 and '"' not in s and "\\" not in s:
        return '"' + s + '"'
    return "'" + s.replace("\\", "\\\\").replace("'", r.choice(["''", "\\'"])) + "'"


KW = {"lower": str.lower, "upper": str.upper}


def make(r, names=None, reserved=0.04, exotic="uni"):
    """(ddl text, expected tables, options)"""
    g = G.Gen(r, names=names or r.choice(["plain", "mixed", "odd"]), reserved=reserved, exotic=exotic)
    up = r.choice([str.upper, str.lower, lambda s: s])
    ntab = r.randint(1, 6) if r.random() < 0.98 else r.choice([12, 25])
    used = set()
    parts, exp = [], []
    names = [g.table_name(used) for _ in range(ntab)]
    if r.random() < 0.05 and names[0].swapcase() not in names:
        names.append(names[0].swapcase())       # names that differ in case alone are two tables
    for tn in names:
        ddl, t = table(r, g, tn, names, up)
        parts.append(ddl)
        exp.append(t)
    junk = ["SET NAMES utf8mb4", "DROP TABLE IF EXISTS `x`", "/*!40101 SET character_set_client = utf8 */",
            "USE mydb", "INSERT INTO t VALUES (1, 'CREATE TABLE zz (a int)')",
            "CREATE DATABASE IF NOT EXISTS mydb", "SET FOREIGN_KEY_CHECKS=0", "LOCK TABLES `x` WRITE", "UNLOCK TABLES",
            "/*!40000 ALTER TABLE `x` DISABLE KEYS */", "/*!50503 SET character_set_client = utf8mb4 */",
            "/*!50001 CREATE ALGORITHM=UNDEFINED */\n/*!50013 DEFINER=`root`@`localhost` SQL SECURITY DEFINER */\n/*!50001 VIEW `vv` AS select 1 AS `a` */",
            "CREATE INDEX later ON x (a)", "ALTER TABLE x ADD COLUMN zz int", "INSERT INTO x VALUES ('a;b'), ('c\\'d')"]
    body = []
    for p in parts:
        if r.random() < 0.3:
            body.append(r.choice(junk))
        c = r.choice(["", "", "-- table\n", "# note; not a statement\n", "/* create\n it */\n"])
        body.append(c + p)
    if r.random() < 0.2:
        body.append(r.choice(junk))
    sep = r.choice([";\n", ";\n\n", " ;\n"])
    sql = sep.join(body) + (r.choice([";", ";\n"]) if r.random() < 0.9 else "")
    opts = {}
    if r.random() < 0.4:
        opts["author"] = r.choice(["roh", "A B", "홍"])
    if r.random() < 0.4:
        opts["version"] = r.choice(["1.0.0", "2.3", "v3"])
    if r.random() < 0.4:
        ex = r.sample(names, r.randint(1, len(names)))
        if r.random() < 0.3:
            ex.append("nothere")
        if r.random() < 0.3:
            ex.append(ex[0][:-1] + "?")
        if r.random() < 0.2:
            ex[0] = ex[0][:-1] or "q"      # a mere prefix excludes nothing
        opts["excludes"] = ",".join(ex)
    return sql, exp, opts


def q(r, n, force=False):
    if force or r.random() < 0.6 or not re.fullmatch(r"\w+", n) or n.lower() in G.RESERVED_LOWER or not n[0].isalpha() or n.lower() in (
            "group", "key", "order", "index", "rank", "user", "role", "path", "desc_text", "total", "type", "label",
            "shift", "plan", "account", "event", "day", "hash", "level", "start", "status", "none", "value", "rows"):
        return "`%s`" % n
    return n


def table(r, g, tn, names, up):
    used = set()
    ncol = r.randint(1, 9) if r.random() < 0.98 else r.choice([17, 33, 40])
    cols, lines = [], []
    pk_mode = r.choice(["inline", "table", "table", "multi", "none"])
    uq_mode = r.choice(["none", "none", "inline", "table", "multi", "two"])
    for i in range(ncol):
        name = g.col_name(used, pk=(i == 0))
        spelled, ty, size, scale = ddl_type(r)
        if i == 0 and pk_mode != "none" and r.random() < 0.8:
            spelled, ty, size, scale = r.choice([("BIGINT", "int64", 0, 0), ("int(11)", "int32", 11, 0),
                                                 ("varchar(20)", "varchar", 20, 0)])
        c = {"name": name, "type": ty, "size": size, "scale": scale, "notnull": False, "pk": False, "unique": False,
             "autoinc": False, "default": "", "onupdate": "", "desc": "", "values": [], "ref": None}
        if ty in ("enum", "set"):
            c["values"] = g.values()
            if r.random() < 0.2:
                c["values"].append(r.choice(["it's", "a,b", "back\\slash", "한글", "", " lead", "in (x)"]))
            spelled = "%s(%s)" % (up(spelled), r.choice([",", ", "]).join(lit(r, v) for v in c["values"]))
        opts = []
        if r.random() < 0.5:
            opts.append(up("NOT NULL"))
            c["notnull"] = True
        elif r.random() < 0.2:
            opts.append(up("NULL"))
            c["_null"] = True
        if r.random() < 0.45:
            dflt(r, c, opts, up, g)
        if ty == "datetime" and r.random() < 0.3:
            f, call = r.choice([("CURRENT_TIMESTAMP", ""), ("CURRENT_TIMESTAMP", "()"), ("NOW", "()"), ("CURRENT_TIMESTAMP", "(6)")])
            opts.append(up("ON UPDATE") + " " + f + call)
            c["onupdate"] = "fn::" + f
        if r.random() < 0.4:
            c["desc"] = g.text() if r.random() < 0.8 else r.choice(["it's", "a; b", "x -- y", "c:\\dir", "/* no */", " lead", "trail ", "  ", "DEFAULT 1", "it is \"q\""])
            opts.append(up("COMMENT") + " " + lit(r, c["desc"]))
        if uq_mode == "inline" and not c["unique"] and r.random() < 0.4:
            c["unique"] = True
            opts.append(up(r.choice(["UNIQUE", "UNIQUE KEY"])))
        if not opts and r.random() < 0.05 and ty in M.INTS:
            opts.append(up("GENERATED ALWAYS AS") + " ((1 + 2)) " + up(r.choice(["VIRTUAL", "STORED"])))
            c["_null"] = True
        if r.random() < 0.1 and ty in ("varchar",) and "coll" not in spelled.lower():
            opts.append(up("COLLATE") + " utf8mb4_general_ci")
        cols.append((c, spelled, opts))
    if r.random() < 0.04:
        c = dict(cols[0][0], name=g.col_name(used), type="int64", size=0, scale=0, notnull=True, pk=False, unique=True,
                 autoinc=True, default="", onupdate="", desc="", values=[], _null=True)
        cols.append((c, "SERIAL", []))
    # keys
    tail = []
    cand = [c for c, _, _ in cols if c["type"] in M.INTS + ("varchar", "char", "date", "datetime", "decimal")
            and not c.get("_null")]
    if pk_mode == "inline" and cand:
        c, sp, opts = next(x for x in cols if x[0] is cand[0])
        c["pk"] = c["notnull"] = True
        opts.append(up("PRIMARY KEY"))
    elif pk_mode in ("table", "multi") and cand:
        pks = r.sample(cand, min(len(cand), 1 if pk_mode == "table" else r.choice([2, 3])))
        for c in pks:
            c["pk"] = c["notnull"] = True
        tail.append(r.choice(["PRIMARY KEY (%s)", "CONSTRAINT pk_x PRIMARY KEY (%s)", "primary key (%s)",
                              "PRIMARY KEY USING BTREE (%s)"]) % ", ".join(keycol(r, c) for c in pks))
    ints = [x for x in cols if x[0]["type"] in M.INTS and not x[0]["default"] and not x[0].get("_null")]
    if ints and r.random() < 0.5:
        c, sp, opts = ints[0]
        c["autoinc"] = c["notnull"] = True
        opts.append(up("AUTO_INCREMENT"))
    if uq_mode in ("table", "multi", "two"):
        for j in range(2 if uq_mode == "two" else 1):
            us = r.sample([c for c, _, _ in cols], min(len(cols), 1 if uq_mode == "table" else r.choice([1, 2, 3])))
            for c in us:
                c["unique"] = True
            tail.append(r.choice(["UNIQUE KEY `uq%d` (%%s)" % j, "UNIQUE INDEX uq%d (%%s)" % j, "UNIQUE (%s)",
                                  "CONSTRAINT `uq%d` UNIQUE (%%s)" % j, "unique key uq%d (%%s)" % j,
                                  "CONSTRAINT uq%d UNIQUE KEY (%%s)" % j]) % ",".join(keycol(r, c) for c in us))
    idx = []
    for j in range(r.choice([0, 0, 1, 1, 2, 3]) if r.random() < 0.98 else 11):
        ic = r.sample([c for c, _, _ in cols], min(len(cols), r.choice([1, 1, 2, 3])))
        nm = "%s_ix%d" % (tn, j) if r.random() < 0.9 else ""
        if nm and r.random() < 0.1:
            nm = ic[0]["name"]
        tail.append("%s %s%s (%s)" % (r.choice(["KEY", "INDEX", "key", "index"]), nm and q(r, nm),
                                      r.choice(["", "", " USING BTREE"]) if nm else "",
                                      ", ".join(q(r, c["name"]) + (r.choice(["", "", "(10)"]) if c["type"] in ("varchar", "text16") else "")
                                                + r.choice(["", "", " ASC", " DESC"]) for c in ic)))
        idx.append({"name": nm, "columns": [c["name"] for c in ic]})
    if r.random() < 0.2:
        c = r.choice(cols)[0]
        tail.append(r.choice(["CONSTRAINT fk1 ", ""]) + "FOREIGN KEY (%s) REFERENCES %s (`id`)%s" % (
            q(r, c["name"]), q(r, r.choice(names)), r.choice(["", " ON DELETE CASCADE", " ON DELETE SET NULL ON UPDATE NO ACTION"])))
    if r.random() < 0.08:
        tail.append(r.choice(["CONSTRAINT `ck1` CHECK ((1 > 0))", "CHECK (length('x') > 0)"]))
    if r.random() < 0.1:
        c = r.choice(cols)[0]
        tail.append("FULLTEXT KEY ft (%s)" % q(r, c["name"]))
    lines = []
    for c, sp, opts in cols:
        first = [o for o in opts if o.upper().startswith(("COLLATE",))]
        rest = [o for o in opts if o not in first]
        r.shuffle(rest)
        if not sp.lower().startswith(("enum(", "set(")) and r.random() < 0.5:
            sp = up(sp)
        lines.append(" ".join([q(r, c["name"]), sp] + first + rest))
        c.pop("_null", None)
    lines += tail
    head = up("CREATE TABLE") + " " + (up("IF NOT EXISTS") + " " if r.random() < 0.4 else "")
    nm = q(r, tn)
    if r.random() < 0.1:
        nm = r.choice(["`mydb`.", "mydb."]) + nm
    opt = r.choice(["", "", " ENGINE=InnoDB", " ENGINE=InnoDB AUTO_INCREMENT=12 DEFAULT CHARSET=utf8mb4",
                    " DEFAULT CHARSET=utf8 COLLATE=utf8_bin", " ROW_FORMAT=DYNAMIC\n/*!50100 PARTITION BY HASH (`id`)\nPARTITIONS 4 */"])
    j = r.choice([",\n  ", ",\n", ", "])
    ddl = "%s%s (%s%s%s)%s" % (head, nm, "\n  " if "\n" in j else "", j.join(lines), "\n" if "\n" in j else "", opt)
    return ddl, {"name": tn, "desc": "", "group": "", "className": "", "columns": [c for c, _, _ in cols], "indices": idx}


def keycol(r, c):
    n = c["name"]
    if r.random() < 0.05 and n.upper().lower() == n.lower():
        n = n.upper()      # MySQL column names are case-insensitive
    return q(r, n, force=True)


def dflt(r, c, opts, up, g):
    t = c["type"]
    d = up("DEFAULT") + " "
    if r.random() < 0.1 and not c["notnull"]:
        opts.append(d + up("NULL"))
        return
    if t in M.INTS:
        v = r.choice(["0", "1", "-1", "100", "-128", "7"])
        c["default"] = v
        if r.random() < 0.06:
            c["default"] = "31"
            opts.append(d + r.choice(["0x1F", "x'1f'", "b'11111'"]))
            return
        if v[0] != "-" and r.random() < 0.1:
            opts.append(d + "+" + v)
            return
        opts.append(d + (v if r.random() < .6 else "'%s'" % v))
    elif t in M.DECS:
        v = r.choice(["0", "1.5", "0.00", "-2.25", "100"])
        c["default"] = v
        if v[0] != "-" and r.random() < 0.1:
            opts.append(d + "+" + v)
            return
        opts.append(d + (v if r.random() < .6 else "'%s'" % v))
    elif t == "boolean":
        v = r.choice(["0", "1"])
        c["default"] = v
        opts.append(d + r.choice([v, "'%s'" % v, {"0": "FALSE", "1": "TRUE"}[v], "b'%s'" % v, "B'%s'" % v]))
    elif t == "bit" and c["size"] > 1:
        n = r.choice([0, 1, 2, 3, 2 ** min(c["size"], 63) - 1])
        c["default"] = str(n)
        opts.append(d + r.choice(["b'{0:b}'", "{0}", "0x{0:02x}", "b'0{0:b}'"]).format(n))
    elif t in ("char", "varchar"):
        v = r.choice(["a", "no name", "0", "N/A", "x,y", "(z)", "it's", "NULL", "한글", "-1", "2020"])[:max(c["size"], 1)]
        c["default"] = v
        opts.append(d + lit(r, v))
    elif t in ("enum", "set"):
        v = r.choice(c["values"])
        c["default"] = v
        opts.append(d + lit(r, v))
    elif t == "date":
        c["default"] = "2020-01-31"
        opts.append(d + "'2020-01-31'")
    elif t == "time":
        c["default"] = "12:00:00"
        opts.append(d + "'12:00:00'")
    elif t == "year":
        c["default"] = "1999"
        opts.append(d + "1999")
    elif t == "datetime":
        if r.random() < 0.4:
            c["default"] = "2020-01-01 10:00:00"
            opts.append(d + "'2020-01-01 10:00:00'")
        else:
            f, call = r.choice([("CURRENT_TIMESTAMP", ""), ("CURRENT_TIMESTAMP", "()"), ("NOW", "()"),
                                ("LOCALTIME", "()"), ("LOCALTIMESTAMP", "()"), ("CURRENT_TIMESTAMP", "(3)")])
            c["default"] = "fn::" + f
            opts.append(d + f + call)


def now(doc):
    """NOW, LOCALTIME and LOCALTIMESTAMP are MySQL synonyms of CURRENT_TIMESTAMP."""
    for t in doc["tables"]:
        for c in t["columns"]:
            for k in ("default", "onupdate"):
                if c[k].upper() in ("FN::NOW", "FN::LOCALTIME", "FN::LOCALTIMESTAMP", "FN::CURRENT_TIMESTAMP"):
                    c[k] = "fn::CURRENT_TIMESTAMP"
    return doc


def gen(rng, tier):
    for _ in range(900 if tier == "quick" else 15000):
        sql, exp, opts = make(rng, exotic=rng.choice(["uni", "free"]))
        yield {"sql": sql, "tables": exp, "opts": opts, "style": rng.randrange(10 ** 6)}


def run(case, ctx):
    f = ctx.write("in.sql", case["sql"])
    o = dict(case["opts"])
    o.update(input=f, output=ctx.path("out.json"))
    spec.run(ctx, "import mysql", o, "mix", random.Random(case["style"]))
    doc = now(M.canon(json.loads(ctx.read("out.json"))))
    ex = set((case["opts"].get("excludes") or "").split(",")) - {""}
    want = now(M.canon({"tables": [t for t in case["tables"] if t["name"] not in ex],
                    "author": case["opts"].get("author", ""), "version": case["opts"].get("version", "")}))
    ctx.see("excluded_tables", len(case["tables"]) - len(want["tables"]))
    ctx.same("author", doc["author"], want["author"])
    ctx.same("version", doc["version"], want["version"])
    ctx.same("imported tables", [t["name"] for t in doc["tables"]], [t["name"] for t in want["tables"]])
    if len(doc["tables"]) != len(want["tables"]):
        return
    for g, w in zip(doc["tables"], want["tables"]):
        ctx.see("columns_checked", len(w["columns"]))
        ctx.see("facts_compared", 13 * len(w["columns"]))
        ctx.see("indices", len(w["indices"]))
        ctx.see("inline_unique", sum(c["unique"] for c in w["columns"]))
        ctx.see("functions", sum(c["default"].startswith("fn::") for c in w["columns"]))
        for p in M.diff_docs(g, w, "table " + w["name"]):
            ctx.fail(p)
    if doc["tables"]:
        ctx.state(doc)
