"""A strict stand-in for Liquibase: reads YAML changelogs and executes their changes on a table catalogue."""
import re
from decimal import Decimal
import yaml
from . import model as M


class LqError(Exception):
    pass


TYPE = {"text8": "clob", "text16": "clob", "text24": "clob", "text32": "clob", "int8": "tinyint",
        "int16": "smallint", "int24": "mediumint", "int32": "int", "int64": "bigint", "blob8": "blob",
        "blob16": "blob", "blob24": "blob", "blob32": "blob"}


def ref_type(c):
    if c["type"] in ("enum", "set"):
        return "%s(%s)" % (c["type"], ",".join("'" + v.replace("'", "''") + "'" for v in c["values"]))
    t = TYPE.get(c["type"], c["type"])
    if c["size"]:
        t += "(%d,%d)" % (c["size"], c["scale"]) if c["scale"] else "(%d)" % c["size"]
    return t


def ref_default(c):
    """(kind, value) or None"""
    if c["default"] == "":
        return None
    v, is_fn = M.fn(c["default"])
    if is_fn:
        return ("computed", v)
    t = c["type"]
    if t == "boolean":
        return ("boolean", v.lower() in ("1", "t", "true"))
    if t in M.INTS:
        return ("numeric", Decimal(int(v)))
    if t in M.DECS:
        return ("numeric", Decimal(v))
    if t in ("date", "datetime"):
        return ("date", v)
    return ("value", v)


def ref_col(c):
    return {"type": ref_type(c), "notnull": c["notnull"] or c["pk"], "default": ref_default(c),
            "autoinc": c["autoinc"], "remarks": c["desc"]}


def table_state(t, suffix):
    uq = frozenset(c["name"] for c in t["columns"] if c["unique"])
    return {"remarks": t["desc"], "columns": {c["name"]: ref_col(c) for c in t["columns"]},
            "order": [c["name"] for c in t["columns"]],
            "pk": {c["name"] for c in t["columns"] if c["pk"]},
            "uniques": {t["name"] + suffix: uq} if uq else {}, "inline_unique": set()}


DEFKEYS = {"defaultValue": "value", "defaultValueBoolean": "boolean", "defaultValueNumeric": "numeric",
           "defaultValueDate": "date", "defaultValueComputed": "computed"}


def keys(d, what, need, opt=()):
    if not isinstance(d, dict):
        raise LqError("%s is not a mapping: %r" % (what, d))
    for k in need:
        if k not in d:
            raise LqError("%s has no %s: %r" % (what, k, d))
    for k in d:
        if k not in need and k not in opt:
            raise LqError("%s has unknown attribute %s" % (what, k))
        v = d[k]
        if k in ("tableName", "columnName", "name", "type", "remarks", "columnNames", "constraintName",
                 "columnDataType", "newDataType", "newColumnName", "oldColumnName", "newTableName", "oldTableName",
                 "afterColumn", "defaultValue", "defaultValueDate", "defaultValueComputed", "defaultNullValue") \
                and not isinstance(v, str):
            raise LqError("%s: %s is not a string but %r" % (what, k, v))


def default_of(d, what):
    ks = [k for k in DEFKEYS if k in d]
    if len(ks) > 1:
        raise LqError("%s has several default values: %r" % (what, d))
    if not ks:
        return None
    kind, v = DEFKEYS[ks[0]], d[ks[0]]
    if kind == "numeric":
        if isinstance(v, str) and re.fullmatch(r"-?[0-9]+(\.[0-9]+)?", v) and \
                ("e" in repr(float(v)) or Decimal(repr(float(v))) != Decimal(v) or abs(float(v)) >= 1e6 or 0 < abs(float(v)) < 1e-4):
            v = Decimal(v)          # a YAML number would not state it exactly, or in an exponent
        elif isinstance(v, bool) or not isinstance(v, (int, float)):
            raise LqError("%s: numeric default is %r" % (what, v))
        else:
            v = Decimal(repr(v))
    if kind == "boolean" and not isinstance(v, bool):
        raise LqError("%s: boolean default is %r" % (what, v))
    return (kind, v)


def remarks(text):
    """Every comment a changelog writes, save those of created tables."""
    out = []

    def walk(x):
        if isinstance(x, dict):
            if x.get("remarks") and "columns" not in x:
                out.append(x["remarks"])
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk(yaml.safe_load(text))
    return out


def names(s):
    return [x.strip() for x in s.split(",")]


class Db:
    def __init__(self, tables=(), suffix="", old=False):
        self.old = old          # before Liquibase 4: a renamed column loses NOT NULL
        self.t = {t["name"]: table_state(t, suffix) for t in tables}
        self.authors, self.ids, self.props, self.unguarded, self.partial, self.nullvalues = [], [], {}, [], [], []

    def table(self, n):
        if n not in self.t:
            raise LqError("unknown table %s (tables: %s)" % (n, sorted(self.t)))
        return self.t[n]

    def col(self, n, c):
        t = self.table(n)
        if c not in t["columns"]:
            raise LqError("unknown column %s.%s" % (n, c))
        return t["columns"][c]

    def run(self, text, see=lambda k: None):
        doc = yaml.safe_load(text)
        keys(doc, "changelog", ["databaseChangeLog"])
        log = doc["databaseChangeLog"]
        if not isinstance(log, list):
            raise LqError("databaseChangeLog is not a list")
        for item in log:
            if not isinstance(item, dict) or len(item) != 1:
                raise LqError("bad changelog entry %r" % (item,))
            (k, v), = item.items()
            if k != "changeSet":
                if not isinstance(v, str) or k != "objectQuotingStrategy":
                    raise LqError("unknown changelog entry %s" % k)
                self.props[k] = v
                continue
            keys(v, "changeSet", ["id", "changes"], ["author", "preConditions"])
            if not isinstance(v["id"], str):
                raise LqError("changeSet id is not a string: %r" % v["id"])
            if v["id"] in self.ids:
                raise LqError("changeSet id %s is used twice" % v["id"])
            self.ids.append(v["id"])
            self.authors.append(v.get("author", ""))
            if v.get("preConditions"):
                pre = v["preConditions"]
                keys(pre, "preConditions", ["onError", "onFail", "dbms"])
                if pre["onError"] != "CONTINUE" or pre["onFail"] != "CONTINUE":
                    raise LqError("changeSet %s stops the update on another database: %r" % (v["id"], pre))
                dbs = [x.strip() for x in pre["dbms"]["type"].split(",")]
                if "mysql" not in dbs or "mariadb" not in dbs:
                    raise LqError("changeSet %s is not for MySQL: %r" % (v["id"], pre))
                see("preconditions")
            self.guarded = bool(v.get("preConditions"))
            for ch in v["changes"]:
                if len(ch) != 1:
                    raise LqError("bad change %r" % ch)
                (kind, d), = ch.items()
                f = getattr(self, "do_" + kind, None)
                if f is None:
                    raise LqError("unknown change %s" % kind)
                see("lq_" + kind)
                f(d)

    COLOPT = ("autoIncrement", "constraints", "remarks", "afterColumn") + tuple(DEFKEYS)

    def column(self, tname, d):
        keys(d, "column", ["name", "type"], self.COLOPT)
        cons = d.get("constraints") or {}
        keys(cons, "constraints", [], ["primaryKey", "nullable", "unique"])
        for k, v in cons.items():
            if not isinstance(v, bool):
                raise LqError("constraint %s is %r" % (k, v))
        if not isinstance(d.get("autoIncrement", False), bool):
            raise LqError("autoIncrement is %r" % d["autoIncrement"])
        return cons, {"type": d["type"], "notnull": cons.get("nullable", True) is False or bool(cons.get("primaryKey")),
                      "default": default_of(d, "column %s.%s" % (tname, d["name"])),
                      "autoinc": bool(d.get("autoIncrement")), "remarks": d.get("remarks", "")}

    def do_createTable(self, d):
        keys(d, "createTable", ["tableName", "columns"], ["remarks"])
        n = d["tableName"]
        if n in self.t:
            raise LqError("table %s exists already" % n)
        t = self.t[n] = {"remarks": d.get("remarks", ""), "columns": {}, "order": [], "pk": set(), "uniques": {},
                         "inline_unique": set()}
        for e in d["columns"]:
            keys(e, "columns entry", ["column"])
            c = e["column"]
            cons, st = self.column(n, c)
            if c["name"] in t["columns"]:
                raise LqError("duplicate column %s.%s" % (n, c["name"]))
            if "afterColumn" in c:
                raise LqError("afterColumn in createTable")
            t["columns"][c["name"]] = st
            t["order"].append(c["name"])
            if cons.get("primaryKey"):
                t["pk"].add(c["name"])
            if cons.get("unique"):
                t["inline_unique"].add(c["name"])

    def do_addColumn(self, d):
        keys(d, "addColumn", ["tableName", "columns"])
        t = self.table(d["tableName"])
        for e in d["columns"]:
            keys(e, "columns entry", ["column"])
            c = e["column"]
            cons, st = self.column(d["tableName"], c)
            if c["name"] in t["columns"]:
                raise LqError("duplicate column %s.%s" % (d["tableName"], c["name"]))
            after = c.get("afterColumn")
            if after is not None and after not in t["columns"]:
                raise LqError("column %s is added after unknown column %s" % (c["name"], after))
            t["columns"][c["name"]] = st
            # without a position a column goes to the end
            t["order"].insert(t["order"].index(after) + 1 if after is not None else len(t["order"]), c["name"])
            if cons.get("primaryKey"):
                if t["pk"]:
                    raise LqError("second primary key in %s" % d["tableName"])
                t["pk"].add(c["name"])
            if cons.get("unique"):
                t["inline_unique"].add(c["name"])

    def do_dropTable(self, d):
        keys(d, "dropTable", ["tableName"])
        self.table(d["tableName"])
        del self.t[d["tableName"]]

    def do_renameTable(self, d):
        keys(d, "renameTable", ["newTableName", "oldTableName"])
        self.table(d["oldTableName"])
        if d["newTableName"] in self.t:
            raise LqError("rename to existing table %s" % d["newTableName"])
        self.t[d["newTableName"]] = self.t.pop(d["oldTableName"])

    def do_setTableRemarks(self, d):
        keys(d, "setTableRemarks", ["tableName", "remarks"])
        self.table(d["tableName"])["remarks"] = d["remarks"]

    def do_setColumnRemarks(self, d):
        keys(d, "setColumnRemarks", ["tableName", "columnName", "remarks"], ["columnDataType"])
        self.col(d["tableName"], d["columnName"])["remarks"] = d["remarks"]

    def do_addPrimaryKey(self, d):
        keys(d, "addPrimaryKey", ["tableName", "columnNames"], ["constraintName"])
        t = self.table(d["tableName"])
        if t["pk"]:
            raise LqError("second primary key in %s" % d["tableName"])
        for c in names(d["columnNames"]):
            self.col(d["tableName"], c)["notnull"] = True
            t["pk"].add(c)

    def do_dropPrimaryKey(self, d):
        keys(d, "dropPrimaryKey", ["tableName"], ["constraintName"])
        t = self.table(d["tableName"])
        if not t["pk"]:
            raise LqError("no primary key to drop in %s" % d["tableName"])
        t["pk"] = set()

    def do_addUniqueConstraint(self, d):
        keys(d, "addUniqueConstraint", ["tableName", "columnNames", "constraintName"])
        t = self.table(d["tableName"])
        cs = names(d["columnNames"])
        for c in cs:
            self.col(d["tableName"], c)
        if d["constraintName"] in t["uniques"]:
            raise LqError("unique constraint %s exists already" % d["constraintName"])
        if len(cs) == 1 and cs[0] in t["inline_unique"] and not self.guarded:
            self.unguarded.append((d["tableName"], cs[0]))
        if self.guarded and not (len(cs) == 1 and cs[0] in t["inline_unique"]):
            self.partial.append((d["tableName"], ", ".join(cs)))
        t["uniques"][d["constraintName"]] = frozenset(cs)

    def do_dropUniqueConstraint(self, d):
        keys(d, "dropUniqueConstraint", ["tableName", "constraintName"])
        t = self.table(d["tableName"])
        if d["constraintName"] not in t["uniques"]:
            raise LqError("unknown unique constraint %s in %s (has %s)"
                          % (d["constraintName"], d["tableName"], sorted(t["uniques"])))
        del t["uniques"][d["constraintName"]]

    def do_dropColumn(self, d):
        keys(d, "dropColumn", ["tableName", "columnName"])
        self.col(d["tableName"], d["columnName"])
        t, c = self.t[d["tableName"]], d["columnName"]
        if c in t["pk"] or any(c in u for u in t["uniques"].values()):
            raise LqError("dropped column %s.%s is part of a key" % (d["tableName"], c))
        del t["columns"][c]
        t["order"].remove(c)
        t["inline_unique"].discard(c)

    def do_renameColumn(self, d):
        keys(d, "renameColumn", ["tableName", "newColumnName", "oldColumnName", "columnDataType"])
        t, a, b = self.table(d["tableName"]), d["oldColumnName"], d["newColumnName"]
        self.col(d["tableName"], a)
        if b in t["columns"]:
            raise LqError("rename to existing column %s.%s" % (d["tableName"], b))
        self.dtype(d)
        t["columns"] = {b if k == a else k: v for k, v in t["columns"].items()}
        if self.old and a not in t["pk"]:
            t["columns"][b]["notnull"] = False
        t["order"] = [b if k == a else k for k in t["order"]]
        t["pk"] = {b if k == a else k for k in t["pk"]}
        t["uniques"] = {n: frozenset(b if k == a else k for k in s) for n, s in t["uniques"].items()}
        t["inline_unique"] = {b if k == a else k for k in t["inline_unique"]}

    def dtype(self, d, key=None):
        """A columnDataType has to be the type the column has now."""
        c = self.col(d["tableName"], d.get("columnName") or d["oldColumnName"])
        if "columnDataType" in d and d["columnDataType"] != c["type"]:
            raise LqError("columnDataType %s of %s.%s is not its type %s"
                          % (d["columnDataType"], d["tableName"], d.get("columnName"), c["type"]))
        return c

    def do_modifyDataType(self, d):
        keys(d, "modifyDataType", ["tableName", "columnName", "newDataType"])
        self.col(d["tableName"], d["columnName"])["type"] = d["newDataType"]

    def do_addNotNullConstraint(self, d):
        keys(d, "addNotNullConstraint", ["tableName", "columnName", "columnDataType"], ["defaultNullValue"])
        c = self.dtype(d)
        c["notnull"] = True
        self.nullvalues.append((d["tableName"], d["columnName"], d.get("defaultNullValue", "")))

    def do_dropNotNullConstraint(self, d):
        keys(d, "dropNotNullConstraint", ["tableName", "columnName", "columnDataType"])
        self.dtype(d)["notnull"] = False

    def do_addAutoIncrement(self, d):
        keys(d, "addAutoIncrement", ["tableName", "columnName", "columnDataType"])
        self.dtype(d)["autoinc"] = True

    def do_addDefaultValue(self, d):
        keys(d, "addDefaultValue", ["tableName", "columnName"], ("columnDataType",) + tuple(DEFKEYS))
        c = self.dtype(d)
        v = default_of(d, "addDefaultValue of %s" % d["columnName"])
        if v is None:
            raise LqError("addDefaultValue without a value: %r" % d)
        c["default"] = v

    def do_dropDefaultValue(self, d):
        keys(d, "dropDefaultValue", ["tableName", "columnName"], ["columnDataType"])
        self.dtype(d)["default"] = None
