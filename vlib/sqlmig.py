"""A strict little MySQL: executes CREATE/DROP/RENAME/ALTER statements on a table catalogue."""
from . import mysqlddl as D


class MigError(Exception):
    pass


def coldef(c):
    d = {k: c[k] for k in ("base", "args", "notnull", "autoinc", "comment")}
    for k in ("default", "onupdate"):
        d[k] = c[k] and {"fn": c[k]["fn"], "text": c[k]["text"]}
    return d


def table_state(t, suffix):
    """Catalogue entry of a schema table."""
    r = D.ref_table(t, suffix)
    return {"comment": t["desc"], "columns": {c["name"]: coldef(c) for c in r["columns"]},
            "pk": set(r["pk"] or []), "uniques": {u["name"]: set(u["columns"]) for u in r["uniques"]},
            "created": False}


class Db:
    def __init__(self, tables, suffix):
        self.t = {t["name"]: table_state(t, suffix) for t in tables}
        self.log = []

    def run(self, sql, see=lambda k: None):
        for st in D.statements(sql):
            self.statement(st, see)

    def table(self, name):
        if name not in self.t:
            raise MigError("unknown table %s (tables: %s)" % (name, sorted(self.t)))
        return self.t[name]

    def statement(self, toks, see):
        p = D.P(toks)
        if p.kw("CREATE", "TABLE"):
            c = D.create_table(p)
            see("sql_create_table")
            if c["name"] in self.t:
                raise MigError("table %s exists already" % c["name"])
            cols = {x["name"]: coldef(x) for x in c["columns"]}
            if len(cols) != len(c["columns"]):
                raise MigError("duplicate column in %s" % c["name"])
            pk = set(c["pk"] or []) | {x["name"] for x in c["columns"] if x["pk"]}
            uq = {u["name"]: set(u["columns"]) for u in c["uniques"]}
            for x in c["columns"]:
                if x["unique"]:
                    uq[x["name"]] = {x["name"]}
            for s in [pk] + list(uq.values()):
                if not s <= set(cols):
                    raise MigError("key of unknown columns %s" % s)
            self.t[c["name"]] = {"comment": "", "columns": cols, "pk": pk, "uniques": uq, "created": True}
            return
        if p.kw("DROP", "TABLE"):
            if p.kw("IF", "EXISTS"):
                pass
            see("sql_drop_table")
            n = p.ident()
            self.table(n)
            p.need(p.eof(), "end of statement")
            del self.t[n]
            return
        if p.kw("RENAME", "TABLE"):
            see("sql_rename_table")
            a = p.ident()
            p.need(p.kw("TO"), "TO")
            b = p.ident()
            p.need(p.eof(), "end of statement")
            self.table(a)
            if b in self.t:
                raise MigError("rename to existing table %s" % b)
            self.t[b] = self.t.pop(a)
            return
        if p.kw("ALTER", "TABLE"):
            n = p.ident()
            self.table(n)
            while True:
                n = self.alter(n, p, see)
                if p.eof():
                    break
                p.need(p.p(","), ", or end of statement")
            t = self.t[n]
            for c, d in t["columns"].items():
                if d["autoinc"] and c not in t["pk"] and not any(c in u for u in t["uniques"].values()):
                    raise MigError("auto column %s.%s must be a key" % (n, c))
            return
        raise D.DdlError("unknown statement %r" % toks[:5])

    def col(self, t, n, c):
        if c not in t["columns"]:
            raise MigError("unknown column %s.%s" % (n, c))

    def redefine(self, t, c):
        """The definition changes, the data stays."""
        t["columns"][c["name"]] = dict(t["columns"][c["name"]], **coldef(c))

    def position(self, p):
        if p.kw("FIRST"):
            return
        if p.kw("AFTER"):
            p.ident()

    def alter(self, n, p, see):
        t = self.t[n]
        if p.kw("DROP", "PRIMARY", "KEY"):
            see("sql_drop_pk")
            if not t["pk"]:
                raise MigError("no primary key to drop in %s" % n)
            t["pk"] = set()
        elif p.kw("ADD", "PRIMARY", "KEY"):
            see("sql_add_pk")
            if t["pk"]:
                raise MigError("multiple primary keys in %s" % n)
            cols = p.idlist()
            for c in cols:
                self.col(t, n, c)
            t["pk"] = set(cols)
        elif (p.kw("ADD", "CONSTRAINT") and self._uq(p, True)) or p.kw("ADD", "UNIQUE"):
            see("sql_add_unique")
            name = getattr(self, "_cn", None)
            self._cn = None
            if not (p.kw("KEY") or p.kw("INDEX")):
                pass
            if p.peek().val != "(" or p.peek().kind == "id":
                name = p.ident()
            cols = p.idlist()
            for c in cols:
                self.col(t, n, c)
            name = name or cols[0]
            if name in t["uniques"]:
                raise MigError("duplicate key name %s in %s" % (name, n))
            t["uniques"][name] = set(cols)
        elif p.kw("DROP", "INDEX") or p.kw("DROP", "KEY") or p.kw("DROP", "CONSTRAINT"):
            see("sql_drop_index")
            k = p.ident()
            if k not in t["uniques"]:
                raise MigError("unknown key %s in %s (keys: %s)" % (k, n, sorted(t["uniques"])))
            del t["uniques"][k]
        elif p.kw("COMMENT"):
            see("sql_table_comment")
            p.p("=")
            s = p.peek()
            p.need(s.kind == "str", "comment string")
            p.i += 1
            t["comment"] = s.val
        elif p.kw("RENAME", "TO") or p.kw("RENAME", "AS"):
            b = p.ident()
            if b in self.t:
                raise MigError("rename to existing table %s" % b)
            self.t[b] = self.t.pop(n)
            return b
        elif p.kw("RENAME", "COLUMN"):
            a = p.ident()
            p.need(p.kw("TO"), "TO")
            self.rename(t, n, a, p.ident())
            see("sql_rename_column")
        elif p.kw("DROP"):
            p.kw("COLUMN")
            see("sql_drop_column")
            c = p.ident()
            self.col(t, n, c)
            if c in t["pk"]:
                raise MigError("dropped column %s.%s is in the primary key" % (n, c))
            for k, cols in t["uniques"].items():
                if c in cols:
                    raise MigError("dropped column %s.%s is in key %s" % (n, c, k))
            del t["columns"][c]
            if not t["columns"]:
                raise MigError("table %s has no columns left" % n)
        elif p.kw("ADD"):
            p.kw("COLUMN")
            see("sql_add_column")
            c = D.col_def(p)
            self.position(p)
            if c["name"] in t["columns"]:
                raise MigError("duplicate column %s.%s" % (n, c["name"]))
            t["columns"][c["name"]] = coldef(c)
            self.inline(t, n, c)
        elif p.kw("MODIFY"):
            p.kw("COLUMN")
            see("sql_modify_column")
            c = D.col_def(p)
            self.position(p)
            self.col(t, n, c["name"])
            self.redefine(t, c)
            self.inline(t, n, c)
        elif p.kw("CHANGE"):
            p.kw("COLUMN")
            see("sql_change_column")
            a = p.ident()
            c = D.col_def(p)
            self.position(p)
            self.rename(t, n, a, c["name"])
            self.redefine(t, c)
            self.inline(t, n, c)
        elif p.kw("ALTER"):
            p.kw("COLUMN")
            c = p.ident()
            self.col(t, n, c)
            if p.kw("DROP", "DEFAULT"):
                t["columns"][c]["default"] = None
            else:
                p.need(p.kw("SET", "DEFAULT"), "SET DEFAULT")
                v = D.value(p)
                t["columns"][c]["default"] = {"fn": v["fn"], "text": v["text"]}
        else:
            raise D.DdlError("unknown ALTER clause at %r" % p.t[p.i:p.i + 5])
        return n

    def _uq(self, p, _):
        self._cn = None
        if p.peek().kind == "id" or p.peek().val.upper() != "UNIQUE":
            self._cn = p.ident()
        p.need(p.kw("UNIQUE"), "UNIQUE")
        return True

    def inline(self, t, n, c):
        if c["pk"]:
            if t["pk"]:
                raise MigError("multiple primary keys in %s" % n)
            t["pk"] = {c["name"]}
        if c["unique"]:
            t["uniques"][c["name"]] = {c["name"]}

    def rename(self, t, n, a, b):
        self.col(t, n, a)
        if a != b and b in t["columns"]:
            raise MigError("rename to existing column %s.%s" % (n, b))
        t["columns"] = {b if k == a else k: v for k, v in t["columns"].items()}
        t["pk"] = {b if k == a else k for k in t["pk"]}
        t["uniques"] = {u: {b if k == a else k for k in s} for u, s in t["uniques"].items()}
