"""Seeded generator of Octopus schemas."""
import random
from . import model as M
from . import strcase

NOUNS = ["user", "group", "order", "item", "product", "company", "category", "address", "invoice",
         "payment", "account", "role", "comment", "post", "tag", "file", "event", "session",
         "vehicle", "city", "country", "box", "bus", "photo", "key", "day", "branch", "price",
         "ticket", "client", "vendor", "stock", "shift", "label", "plan", "quota", "audit", "log"]
ADJ = ["main", "old", "new", "sub", "temp", "ext", "daily", "raw", "my", "base"]
COLW = ["name", "code", "title", "amount", "total", "status", "kind", "note", "memo", "email",
        "phone", "city", "zip", "lat", "lng", "score", "rank", "level", "flag", "active", "start",
        "end_date", "created_at", "updated_at", "deleted_at", "birth_day", "first_name",
        "last_name", "nick", "token", "secret", "url", "path", "hash", "width", "height", "x", "y",
        "is_open", "has_child", "a_b_c", "very_long_column_name_with_many_words", "desc_text",
        "ver", "seq", "sort_no", "parent", "owner", "qty", "unit", "price", "cost", "data"]
RESERVED = ["from", "class", "in", "is", "import", "type", "func", "package", "order", "select",
            "index", "key", "value", "object", "val", "fun", "when", "lambda", "pass", "None",
            "global", "message", "default", "range", "map", "interface", "if", "not", "as",
            # the keywords of Python, Kotlin, Go and proto, and names of SQLAlchemy
            "and", "assert", "async", "await", "break", "continue", "def", "del", "elif", "else", "except", "False",
            "finally", "for", "nonlocal", "or", "raise", "return", "True", "try", "while", "with", "yield", "match",
            "do", "false", "null", "super", "this", "throw", "true", "typealias", "typeof", "var", "by", "data",
            "chan", "const", "defer", "fallthrough", "go", "goto", "struct", "switch", "case", "string", "nil",
            "enum", "option", "repeated", "service", "syntax", "metadata", "registry", "table", "self", "Column",
            "query", "mutation", "schema", "input", "scalar", "union", "primary", "foreign", "user", "group"]
RESERVED_LOWER = {w.lower() for w in RESERVED}
WORDS = ["id", "unique", "name", "of", "the", "user", "group", "total", "price", "in", "USD",
         "(optional)", "see", "docs", "v1.2", "100%", "a-b", "x/y", "first", "flag", "created",
         "it's", "\"q\"", "a\\b", "<b>", "|", "`x`", "${x}", "{{y}}", "--", "a, b", "/*", "*/", "$x", "//", "'''", "\"\"\"",
         "\\", "@see", "%d", "#{z}", "?", "!", "a+b", "n*m", "key=value", "[draft]", "#1", "@home", "&", "~", "ok;", "{brace}", "50 %"]
UNI = ["사용자", "그룹 이름", "né", "naïve", "ключ", "日本語", "ß", "µm", "emoji😀", "“q”", "…", "é"]


# names beyond identifiers: letters of other scripts, and anything at all
EXOTIC = {"": [], "uni": ["주문", "naïve_col", "größe", "ключ", "été", "주문_id", "日本_1", "Ärzte"]}
EXOTIC["free"] = EXOTIC["uni"] + ["col-a", "col a", "a$b", "a/b", "A&B", "x+y", "50%", "#no", "a'b", "(old)", "_tmp", "bak_", "__x__", "old-", "-new", "1st", "42", "a:b", "a@b"]


class Knobs(dict):
    __getattr__ = dict.__getitem__


DEFAULT = Knobs(
    min_tables=1, max_tables=5, min_cols=1, max_cols=8,
    types=tuple(M.CANON), alias=0.5, casevar=0.3,
    groups=True, group_pool=None,
    names="plain",            # plain | mixed | odd
    reserved=0.0,
    texts="rich",             # plain | rich
    desc_p=0.5, default_p=0.35, onupdate_p=0.1, onupdate_literal=0.2,
    notnull_p=0.5, unique_p=0.3, pk="any",     # any | single | some | none | at_least_one
    autoinc_p=0.4, autoinc_bad=0.05,
    refs=0.3, ref_dangling=0.0, ref_rel=("n:1", "1:1", "1:n", ""), ref_self=True,
    indices=0.4, class_name=0.2, meta=0.5,
    size_p=0.6, sizes=None, fn_any=0.04, fn_defaults=("CURRENT_TIMESTAMP", "NOW", "CURRENT_TIMESTAMP", "LOCALTIMESTAMP"),
    values_style="plain",
    shuffle=True, wide=0.04, lines=0.0, exotic="", many=0.015, avoid=frozenset(),
    wild=0.02,                # long names, extreme numbers, unusual groups
    commas=True,              # commas in default values
)


def knobs(**kw):
    k = Knobs(DEFAULT)
    for a in kw:
        assert a in k, a
    k.update(kw)
    return k


class Gen:
    def __init__(self, rng, **kw):
        self.r = rng
        self.k = knobs(**kw)

    # --- text -------------------------------------------------------
    def text(self):
        r = self.r
        ws = [r.choice(WORDS) for _ in range(r.randint(1, 6))]
        if self.k.texts == "rich" and r.random() < 0.25:
            ws.insert(r.randrange(len(ws) + 1), r.choice(UNI))
        s = " ".join(ws)
        if r.random() < 0.05:
            s = s + " " + " ".join(r.choice(WORDS) for _ in range(r.choice([60] * 9 + [165])))
        if r.random() < self.k.lines:
            s = s.replace(" ", r.choice(["\n", "\n", "\n\n", "\n  ", "\r\n", "\r"]), r.choice([1, 1, 2]))
        return s

    # --- names ------------------------------------------------------
    def table_name(self, used):
        r, style = self.r, self.k.names
        while True:
            if self.k.exotic and r.random() < 0.06:
                n = r.choice(EXOTIC[self.k.exotic])
                if n.lower() not in used:
                    used.add(n.lower())
                    return n
            n = r.choice(NOUNS)
            x = r.random()
            if x < 0.35:
                n = r.choice(ADJ) + "_" + n
            elif x < 0.5:
                n = n + "_" + r.choice(NOUNS)
            elif x < 0.6:
                n = r.choice(["tb_", "t_", "tbl_"]) + n
            elif x < 0.7 and style != "plain":
                n = n + r.choice(["2", "_2", "_v2", "10"])
            if style in ("mixed", "odd"):
                y = r.random()
                if y < 0.12:
                    n = strcase.upper_camel(n)
                elif y < 0.22:
                    n = strcase.lower_camel(n)
                elif y < 0.30:
                    n = n.upper()
            if r.random() < self.k.reserved:
                n = r.choice(RESERVED)
            if r.random() < self.k.wild:
                n = "_".join(r.choice(NOUNS) for _ in range(r.choice([5, 8, 12])))
            if strcase.upper_camel(n) in ("True", "False", "None", "Column", "String", "Enum"):     # would be no class names
                continue
            if n.upper() in self.k.avoid:
                continue
            key = (strcase.upper_camel(n).lower())
            if key and key not in used and n.lower() not in used:
                used.add(key)
                used.add(n.lower())
                return n

    def col_name(self, used, pk=False):
        r, style = self.r, self.k.names
        while True:
            if self.k.exotic and r.random() < 0.04:
                n = r.choice(EXOTIC[self.k.exotic])
                if n.lower() not in used:
                    used.add(n.lower())
                    return n
            if pk and r.random() < 0.5:
                n = r.choice(["id"] * 9 + ["uuid", "paid", "ids"])
            else:
                x = r.random()
                if x < 0.7:
                    n = r.choice(COLW)
                elif x < 0.85:
                    n = r.choice(COLW) + "_" + r.choice(COLW)
                else:
                    n = r.choice(NOUNS) + "_" + r.choice(["id", "no", "cd", "key", "id", "id_card_id", "idle_id"][:5 if r.random() < 0.8 else 7])
            if style in ("mixed", "odd"):
                y = r.random()
                if y < 0.08:
                    n = strcase.upper_camel(n)
                elif y < 0.16:
                    n = strcase.lower_camel(n)
                elif y < 0.22:
                    n = n.upper()
                elif y < 0.30:
                    n = n + r.choice(["1", "_2", "64", "_10"])
                elif y < 0.33:
                    n = r.choice(["ID", "Id", "addr2line", "x2y", "ip4addr", "URL", "HTTPCode", "userID", "v1beta"])
            if style == "odd":
                y = r.random()
                if y < 0.05:
                    n = "_" + n
                elif y < 0.08:
                    n = n + "_"
                elif y < 0.11:
                    n = n.replace("_", "__")
            if r.random() < self.k.reserved:
                n = r.choice(RESERVED)
                if style != "plain" and r.random() < 0.3:
                    n = r.choice([n.capitalize(), n.upper()])
            if r.random() < self.k.wild:
                n = "_".join(r.choice(COLW) for _ in range(r.choice([4, 7, 11])))
            if n.upper() in self.k.avoid:
                continue
            key = strcase.lower_camel(n).lower()
            if key and key not in used and n.lower() not in used:
                used.add(key)
                used.add(n.lower())
                return n

    # --- columns ----------------------------------------------------
    def size_for(self, t):
        r = self.r
        if self.k.sizes is not None:
            return self.k.sizes(r, t)
        if t in M.DECS:
            size = r.choice([5, 8, 10, 12, 20, 53, 65])
            return size, r.choice([0, 1, 2, 3, min(10, size - 1), min(30, size)])
        if t in ("char",):
            return r.choice([1, 2, 6, 36, 100, 255]), 0
        if t in ("varchar", "varbinary"):
            return r.choice([1, 2, 10, 20, 40, 64, 100, 255, 256, 1000, 4000, 16383, 65535, 65536, 70001]), 0
        if t == "binary":
            return r.choice([2, 8, 16, 32, 255]), 0
        if t == "bit":
            return r.choice([2, 3, 8, 16, 63, 64]), 0
        if t in M.INTS:
            return (r.choice([2, 3, 4, 10, 11, 20]), 0) if r.random() < 0.3 else (0, 0)
        if t in M.TEXTS:
            return (r.choice([20, 100, 5000]), 0) if r.random() < 0.08 else (0, 0)
        return 0, 0

    def default_for(self, t, c):
        r = self.r
        if self.k.fn_any and r.random() < self.k.fn_any:
            return "fn::" + r.choice(["UUID", "RAND", "next_number_of_sequence", "f2"])
        if t in M.INTS:
            if r.random() < self.k.wild * 3:
                return str(r.choice([-1, 1]) * 2 ** {"int8": 7, "int16": 15, "int24": 23, "int32": 31}.get(t, 63)
                           + r.choice([1, -1]) * r.choice([0, 1, 1])) if t != "int64" else \
                    r.choice(["9223372036854775807", "-9223372036854775808", "4294967296", "9007199254740993"])
            return r.choice(["0", "1", "2", "10", "100", "127", "-1", "-100"])
        if t in M.DECS:
            if r.random() < self.k.wild * 3:
                return r.choice(["0.000001", "-0.001", "12345678901234.5678", "1000000", "99999999", "0.1000"])
            return r.choice(["0", "1", "0.0", "0.5", "3.14", "100", "-1.5", "10.25"])
        if t == "boolean":
            return r.choice(["0", "1"])
        if t in ("char", "varchar"):
            return r.choice(["a", "none", "N", "Y", "no name", "abc-def", "0", "12", "true", "x y z",
                             "UTC", "a.b", "50%", "[]", "{}", "a=b", "a:b", "yes", "null", "~", "#x", "1.0", "007", "*",
                             "&a", "[x", "!t", "%s", "k=v=w", "off", "1e3", "0x1F", "- x", "a: b", "@x", "|", ">",
                             "x = 1", "a =b", "see fn::now", "FN::x", "fn:", "=x", "now()", "f(x)", "`x`"] + ["a,b", "x=1,y=2"] * self.k.commas)
        if t == "date":
            return r.choice(["2020-01-01", "1970-01-01", "9999-12-31"])
        if t == "datetime":
            return r.choice(["2020-01-01 00:00:00", "fn::" + r.choice(self.k.fn_defaults),
                             "fn::" + r.choice(self.k.fn_defaults), "1999-12-31 23:59:59"])
        if t == "time":
            return r.choice(["00:00:00", "12:34:56"])
        if t == "year":
            return r.choice(["2020", "1999"])
        if t == "enum" or t == "set":
            return r.choice(c["values"])
        return ""

    def values(self):
        r = self.r
        n = r.choice([1, 2, 2, 3, 3, 5, 12])
        pool = ["a", "b", "c", "small", "large", "Y", "N", "1", "2", "3", "on", "off", "in_progress",
                "done", "A1", "x-y", "two words", "RED", "green", "X", "ON", "Done", "x"]
        if r.random() < 0.1:
            pool += ["'70s-'80s", "it's"]
        if self.k.values_style == "ident":
            pool = [p for p in pool if p.replace("_", "a").isalnum() and p[0].isalpha()]
        r.shuffle(pool)
        return pool[:n]

    def spell(self, t):
        """One of the documented spellings of a canonical type."""
        r = self.r
        s = t
        if r.random() < self.k.alias:
            al = [a for a, c in M.ALIAS.items() if c == t]
            if al:
                s = r.choice(al)
        if r.random() < self.k.casevar:
            s = r.choice([s.upper(), s.capitalize(),
                          "".join(ch.upper() if r.random() < .5 else ch for ch in s)])
        return s

    def column(self, used, t=None, pk=False):
        r, k = self.r, self.k
        t = t or r.choice(k.types)
        c = {"name": self.col_name(used, pk), "type": t}
        if t in ("enum", "set"):
            c["values"] = self.values()
            if r.random() < 0.03:           # as many as a set may have
                c["values"] += ["m%d" % i for i in range(64 - len(c["values"]))]
        if r.random() < k.size_p:
            size, scale = self.size_for(t)
            if size:
                c["size"] = size
            if scale:
                c["scale"] = scale
        if r.random() < k.notnull_p:
            c["notnull"] = True
        if r.random() < k.desc_p:
            c["desc"] = self.text()
        return c

    def table(self, tname, group):
        r, k = self.r, self.k
        used = set()
        t = {"name": tname, "columns": []}
        if group:
            t["group"] = group
        if r.random() < k.desc_p:
            t["desc"] = self.text()
        if r.random() < k.class_name:
            t["className"] = strcase.upper_camel(r.choice(ADJ) + "_" + tname) + r.choice(["", "", "Entity", "X1"])
        mode = k.pk
        if mode == "any":
            mode = r.choice(["single", "single", "single", "none", "multi", "multi"])
        elif mode == "at_least_one":
            mode = r.choice(["single", "single", "multi"])
        npk = {"single": 1, "none": 0, "multi": r.choice([2, 2, 3, 3, 4, 5])}[mode]
        ncol = max(r.randint(k.min_cols, k.max_cols), npk)
        if getattr(self, "tiny", False):
            ncol = max(r.choice([1, 1, 2, 3]), npk)
        elif r.random() < k.wide:
            ncol = r.choice([10, 14, 18, 25, 40])
        pk_types = [x for x in ("int64", "int32", "int16", "varchar", "char", "int8", "int24",
                                "date", "datetime", "decimal", "binary") if x in k.types] or list(k.types)
        for i in range(npk):
            ty = r.choice(pk_types) if r.random() < 0.5 else pk_types[0]
            if r.random() < 0.06:
                ty = r.choice(k.types)
            c = self.column(used, ty, pk=True)
            c["pk"] = True
            if r.random() < 0.8:
                c["notnull"] = True
            t["columns"].append(c)
        for i in range(ncol - npk):
            t["columns"].append(self.column(used))
        if r.random() < 0.3:
            r.shuffle(t["columns"])
        # auto increment: at most one column
        ai = False
        for c in t["columns"]:
            if not ai and c["type"] in M.INTS and c.get("pk") and (npk == 1 or r.random() < 0.3) and r.random() < k.autoinc_p:
                c["autoinc"] = True
                ai = True
        if not ai and r.random() < k.autoinc_p * 0.3:
            cs = [c for c in t["columns"] if c["type"] in M.INTS]
            if cs:
                r.choice(cs)["autoinc"] = True
        for c in t["columns"]:
            if c["type"] not in M.INTS and r.random() < k.autoinc_bad:
                c["autoinc"] = True
            if not c.get("autoinc") and r.random() < k.default_p:
                d = self.default_for(c["type"], c)
                if d:
                    c["default"] = d
            if r.random() < k.onupdate_p:
                if c["type"] == "datetime":
                    c["onupdate"] = "fn::" + r.choice(k.fn_defaults)
                elif r.random() < k.onupdate_literal:
                    d = self.default_for(c["type"], c)
                    if d:
                        c["onupdate"] = d
        # unique: none, one or several
        if r.random() < k.unique_p * 2:
            cand = [c for c in t["columns"] if not c.get("pk") or r.random() < 0.15]
            if cand:
                for c in r.sample(cand, min(len(cand), r.choice([1, 1, 1, 2, 2, 3, 4, 6]))):
                    c["unique"] = True
        if r.random() < k.indices:
            idx = []
            for i in range(r.choice([1, 1, 2, 3]) if r.random() < 0.97 else r.randint(8, 13)):
                cols = r.sample(t["columns"], min(len(t["columns"]), r.choice([1, 1, 1, 2, 2, 3, 3, 4, 4, 6, 9])))
                shared = r.random() < 0.1       # tables may have indices of the same name
                name = "%s_idx%s" % ("by" if shared else tname.lower(), "" if i == 0 else i + 1)
                if r.random() < 0.08:           # as MySQL names an index that was given no name
                    name = cols[0]["name"]
                    if name.lower() in (x["name"].lower() for x in idx):
                        name = "%s_%d" % (name, i + 1)
                idx.append({"name": name, "columns": [c["name"] for c in cols]})
            t["indices"] = idx
        return t

    def group_pool(self, many=False):
        r = self.r
        if self.k.group_pool is not None:
            return list(self.k.group_pool)
        pool = ["common", "admin", "adm", "g1", "g10", "g2", "shop", "Shop2", "auth", "AUTH2", "a", "Ab", "aB2", "user", "UserData"]
        r.shuffle(pool)
        pool = pool[:r.choice([1, 2, 2, 3, 4]) if not many else r.choice([2, 4, 12])]
        if r.random() < self.k.wild * 6:
            pool[0] = r.choice(["User Mgmt", "결제", "a.b", "x-1", "Ünï", "2nd", "group_name_of_thirty_1_characters"[:31], "fn", "G&A", "Meta2"])
        if r.random() < 0.5:
            pool.append("")
        return pool

    def schema(self):
        r, k = self.r, self.k
        n = r.randint(k.min_tables, k.max_tables)
        many = r.random() < k.many
        if many:
            n = r.choice([11, 15, 22, 30])
        self.tiny = not many and k.min_tables == 1 == k.min_cols and r.random() < 0.07
        if self.tiny:               # what the whole file needs is needed by one column
            n = 1
        pool = self.group_pool(many) if k.groups else [""]
        used = set()
        s = {}
        if r.random() < k.meta:
            s["author"] = r.choice(["lechuck", "A. Roh", "김", "dev team", "The database team <db@example.com>"])
        if r.random() < k.meta:
            s["name"] = r.choice(["shop", "mydb", "my schema"])
        if r.random() < 0.85:
            s["version"] = r.choice(["1.0.0", "0.1.0", "2.13.4", "10.0.1", "3.0.0"])
        tabs = [self.table(self.table_name(used), r.choice(pool)) for _ in range(n)]
        # references
        for t in tabs:
            for c in t["columns"]:
                if r.random() < k.refs and not c.get("autoinc"):
                    if r.random() < k.ref_dangling:
                        ref = {"table": "missing_table", "column": "id"}
                    else:
                        tg = r.choice(tabs)
                        if tg is t and not k.ref_self or not tg["columns"]:
                            continue
                        pks = [x for x in tg["columns"] if x.get("pk")] or tg["columns"]
                        ref = {"table": tg["name"],
                               "column": r.choice(pks if r.random() < .8 else tg["columns"])["name"]}
                    rel = r.choice(k.ref_rel)
                    if rel:
                        ref["relationship"] = rel
                    c["ref"] = ref
        for t in tabs:
            for c in t["columns"]:
                c["type"] = self.spell(c["type"])
        if k.shuffle:
            r.shuffle(tabs)
        taken = {strcase.upper_camel(t["name"]).lower() for t in tabs}
        for t in tabs:                                  # a class name belongs to one table
            key = t.get("className", "").lower()
            if key and key in taken - {strcase.upper_camel(t["name"]).lower()}:
                del t["className"]
            elif key:
                taken.add(key)
        s["tables"] = tabs
        return s


def schema(rng, **kw):
    return Gen(rng, **kw).schema()


def groups_arg(rng, s):
    """A --groups value: none, some groups, unknown groups, prefixes of groups."""
    gs = sorted({t.get("group", "") for t in s["tables"]} - {""})
    x = rng.random()
    if x < 0.4 or not gs:
        return None if rng.random() < 0.8 else "nosuchgroup"
    pick = rng.sample(gs, rng.randint(1, len(gs)))
    if rng.random() < 0.15:
        pick.append("nosuch")
    if rng.random() < 0.1:
        pick[0] = pick[0][:-1] or "z"
    if rng.random() < 0.1:
        pick[0] = pick[0].upper()
    return ",".join(pick)
