"""Reference model of an Octopus schema: what a schema file means."""
import copy

CANON = ["binary", "bit", "blob16", "blob24", "blob32", "blob8", "boolean", "char", "date",
         "datetime", "decimal", "double", "enum", "float", "geometry", "int16", "int24", "int32",
         "int64", "int8", "json", "point", "set", "text16", "text24", "text32", "text8", "time",
         "varbinary", "varchar", "year"]

# docs/octopus-format.md, DataTypes
ALIAS = {
    "string": "varchar", "tinyint": "int8", "smallint": "int16", "mediumint": "int24",
    "int": "int32", "integer": "int32", "bigint": "int64", "long": "int64", "numeric": "decimal",
    "real": "double", "timestamp": "datetime", "tinyblob": "blob8", "blob": "blob16",
    "mediumblob": "blob24", "longblob": "blob32", "tinytext": "text8", "text": "text16",
    "mediumtext": "text24", "longtext": "text32",
}
INTS = ("int8", "int16", "int24", "int32", "int64")
DECS = ("float", "double", "decimal")
TEXTS = ("text8", "text16", "text24", "text32")
BLOBS = ("blob8", "blob16", "blob24", "blob32")
STRS = ("char", "varchar") + TEXTS

COL_DEFAULTS = {"desc": "", "size": 0, "scale": 0, "notnull": False, "pk": False, "unique": False,
                "autoinc": False, "default": "", "onupdate": "", "values": [], "ref": None}


def canon_type(t):
    t = t.lower()
    return ALIAS.get(t, t)


def canon_col(c):
    d = dict(COL_DEFAULTS)
    d.update({k: v for k, v in c.items() if v is not None})
    d["type"] = canon_type(d["type"])
    d["values"] = list(d["values"] or [])
    if d["autoinc"] and d["type"] not in INTS:
        d["autoinc"] = False
    if d["ref"] is not None:
        r = d["ref"]
        d["ref"] = {"table": r.get("table", ""), "column": r.get("column", ""),
                    "relationship": r.get("relationship", "")}
    return d


def canon_table(t):
    return {"name": t.get("name", ""), "desc": t.get("desc", ""), "group": t.get("group", ""),
            "className": t.get("className", ""),
            "columns": [canon_col(c) for c in t.get("columns") or []],
            "indices": [{"name": i.get("name", ""), "columns": list(i.get("columns") or [])}
                        for i in t.get("indices") or []]}


def canon(s):
    """The meaning of a schema document (fully populated, aliases resolved, tables
    ordered by group then name)."""
    ts = [canon_table(t) for t in s.get("tables") or []]
    ts.sort(key=lambda t: (t["group"].encode(), t["name"].encode()))
    return {"author": s.get("author", ""), "name": s.get("name", ""),
            "version": s.get("version", ""), "tables": ts}


def col_error(c):
    """Why a (canonical) column is invalid, or None."""
    if c["name"] == "":
        return "name"
    if c["type"] == "set" and not (0 < len(c["values"]) <= 64):
        return "set values"
    if c["type"] == "enum" and not c["values"]:
        return "enum values"
    if c["type"] not in CANON:
        return "type"
    return None


def fn(v):
    """(text, is_function) of a default/onupdate value."""
    return (v[4:], True) if v.startswith("fn::") else (v, False)


def in_groups(tables, groups):
    """docs: --groups is a comma separated list of group names; none = everything."""
    if not groups:
        return list(tables)
    gs = groups.split(",")
    return [t for t in tables if t["group"] in gs]


def strip_defaults(s):
    """Back to a compact document."""
    out = {k: s[k] for k in ("author", "name", "version") if s.get(k)}
    out["tables"] = []
    for t in s["tables"]:
        n = {k: t[k] for k in ("name", "desc", "group", "className") if t.get(k)}
        n["columns"] = []
        for c in t["columns"]:
            m = {k: v for k, v in c.items() if k not in COL_DEFAULTS or v != COL_DEFAULTS[k]}
            n["columns"].append(copy.deepcopy(m))
        if t.get("indices"):
            n["indices"] = copy.deepcopy(t["indices"])
        out["tables"].append(n)
    return out


def diff_docs(got, want, path=""):
    """First few differences of two JSON-like values."""
    out = []
    _dd(got, want, path, out)
    return out


def _dd(a, b, p, out):
    if len(out) > 5:
        return
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a:
                out.append("%s.%s missing (required %r)" % (p, k, b[k]))
            elif k not in b:
                out.append("%s.%s=%r not required by the property" % (p, k, a[k]))
            else:
                _dd(a[k], b[k], "%s.%s" % (p, k), out)
    elif isinstance(a, list) and isinstance(b, list):
        for i in range(max(len(a), len(b))):
            if i >= len(a):
                out.append("%s[%d] missing (required %r)" % (p, i, b[i]))
            elif i >= len(b):
                out.append("%s[%d]=%r is extra" % (p, i, a[i]))
            else:
                _dd(a[i], b[i], "%s[%d]" % (p, i), out)
    elif a != b:
        out.append("%s: observed %r, required %r" % (p, a, b))
