"""Seeded edit histories: a schema and the schema it becomes."""
import copy
from . import gen as G, model as M


def pair(rng, nedits=None, edits=None, **kw):
    """(from, to, names of the edits made). Auto-increment columns are part of the primary key: an
    AUTO_INCREMENT column has to be a key in MySQL."""
    kw.setdefault("autoinc_bad", 0.03)
    kw.setdefault("max_tables", 6)
    g = G.Gen(rng, **kw)
    s = g.schema()
    return evolve(rng, g, s, nedits, edits)


def evolve(rng, g, s, nedits=None, edits=None):
    for t in s["tables"]:
        for c in t["columns"]:
            if c.get("autoinc") and not c.get("pk"):
                del c["autoinc"]
    if rng.random() < 0.35:
        plant_twins(rng, g, s)
    d = copy.deepcopy(s)
    done = []
    n = nedits if nedits is not None else rng.choice([1, 1, 1, 2, 3, 4, 6, 9])
    guard = 0
    while len(done) < n and guard < 200:
        guard += 1
        e = rng.choice(edits or EDITS)
        r = e(rng, g, d)
        if r:
            done.append(e.__name__)
    if rng.random() < 0.3:
        rng.shuffle(d["tables"])
    if rng.random() < 0.3 and "version" in d:
        d["version"] = "9.9.%d" % rng.randrange(9)
    x = rng.random()                # the author of the new schema is another one, or none
    if x < 0.08:
        d.pop("author", None)
    elif x < 0.14:
        d["author"] = "another " + rng.choice(["one", "작성자"])
    elif x < 0.18:
        s.pop("author", None)
    respell(rng, d)
    # an auto-increment column has to be a key
    for t in d["tables"]:
        for c in t["columns"]:
            if c.get("autoinc") and not c.get("pk"):
                del c["autoinc"]
    return s, d, done


def plant_twins(r, g, s):
    """Columns (or tables) of the old schema which differ in nothing but the name."""
    for _ in range(r.choice([1, 1, 2])):
        t, c = _pick(r, s)
        for _ in range(r.choice([1, 1, 2])):
            n = copy.deepcopy(c)
            n.pop("autoinc", None)
            c.pop("autoinc", None)
            n["name"] = g.col_name(_used_cols(t))
            t["columns"].insert(r.randrange(len(t["columns"]) + 1), n)
    if r.random() < 0.3:
        n = copy.deepcopy(r.choice(s["tables"]))
        n.pop("className", None)
        n["name"] = g.table_name(_used_tables(s))
        n.pop("indices", None)
        s["tables"].insert(r.randrange(len(s["tables"]) + 1), n)


def _twin_sets(t):
    by = {}
    for c in t["columns"]:
        k = repr(sorted((k, v) for k, v in c.items() if k not in ("name", "ref")))
        by.setdefault(k, []).append(c)
    return [v for v in by.values() if len(v) > 1]


def rename_twins(r, g, d):
    """Of several columns alike, some are renamed and some dropped."""
    ts = [t for t in d["tables"] if _twin_sets(t)]
    if not ts:
        return False
    t = r.choice(ts)
    for c in r.choice(_twin_sets(t)):
        x = r.random()
        if x < 0.45 and len(t["columns"]) > 1:
            t["columns"].remove(c)
            for i in t.get("indices", []):
                i["columns"] = [n for n in i["columns"] if n != c["name"]]
            if "indices" in t:
                t["indices"] = [i for i in t["indices"] if i["columns"]]
        elif x < 0.9:
            old, new = c["name"], g.col_name(_used_cols(t))
            c["name"] = new
            _rename_refs(d, t["name"], old, new)
        if r.random() < 0.2:
            n = copy.deepcopy(c)
            n.pop("autoinc", None)
            n["name"] = g.col_name(_used_cols(t))
            t["columns"].append(n)
    return True


def rename_twin_tables(r, g, d):
    """Of several tables alike, some are renamed, some dropped, and copies come up under new names."""
    by = {}
    for t in d["tables"]:
        by.setdefault(repr(t["columns"]), []).append(t)
    ts = [v for v in by.values() if len(v) > 1]
    group = r.choice(ts) if ts else [r.choice(d["tables"])]
    for t in list(group):
        x = r.random()
        if x < 0.6:
            rename_table(r, g, d, t)
        elif x < 0.8 and len(d["tables"]) > 1:
            d["tables"].remove(t)
            continue
        if r.random() < 0.3:
            n = copy.deepcopy(t)
            n.pop("className", None)
            n.pop("indices", None)
            n["name"] = g.table_name(_used_tables(d))
            d["tables"].append(n)
    return True


def respell(rng, d):
    for t in d["tables"]:
        for c in t["columns"]:
            if rng.random() < 0.15:
                ct = M.canon_type(c["type"])
                al = [a for a, x in M.ALIAS.items() if x == ct] + [ct, ct.upper()]
                c["type"] = rng.choice(al)


def _used_cols(t):
    from . import strcase
    return {strcase.lower_camel(c["name"]).lower() for c in t["columns"]} | {c["name"].lower() for c in t["columns"]}


def _used_tables(d):
    from . import strcase
    return {strcase.upper_camel(t["name"]).lower() for t in d["tables"]} | {t["name"].lower() for t in d["tables"]}


def _pick(rng, d):
    """(table, column)"""
    t = rng.choice(d["tables"])
    return t, rng.choice(t["columns"])


def _rename_refs(d, t, old, new):
    for x in d["tables"]:
        for c in x["columns"]:
            r = c.get("ref")
            if r and r["table"] == t and r.get("column") == old:
                r["column"] = new
    for i in next(x for x in d["tables"] if x["name"] == t).get("indices", []):
        i["columns"] = [new if n == old else n for n in i["columns"]]


def add_table(r, g, d):
    used = _used_tables(d)
    gr = r.choice([t.get("group", "") for t in d["tables"]] + ["newgroup"])
    d["tables"].insert(r.randrange(len(d["tables"]) + 1), g.table(g.table_name(used), gr))
    return True


def drop_table(r, g, d):
    if len(d["tables"]) < 2:
        return False
    t = d["tables"].pop(r.randrange(len(d["tables"])))
    for x in d["tables"]:
        for c in x["columns"]:
            if c.get("ref", {}).get("table") == t["name"]:
                del c["ref"]
    return True


def rename_table(r, g, d, t=None):
    t = t or r.choice(d["tables"])
    old, new = t["name"], g.table_name(_used_tables(d))
    t["name"] = new
    for x in d["tables"]:
        for c in x["columns"]:
            if c.get("ref", {}).get("table") == old:
                c["ref"]["table"] = new
    if t.get("desc") and r.random() < 0.25:
        del t["desc"]
    return True


def swap_tables(r, g, d):
    """Two tables exchange their names."""
    if len(d["tables"]) < 2 or r.random() < 0.7:
        return False
    a, b = r.sample(d["tables"], 2)
    a["name"], b["name"] = b["name"], a["name"]
    return True


def table_comment(r, g, d):
    t = r.choice(d["tables"])
    if t.get("desc") and r.random() < 0.4:
        del t["desc"]
    else:
        t["desc"] = g.text()
    return True


def move_group(r, g, d):
    t = r.choice(d["tables"])
    t["group"] = r.choice([x.get("group", "") for x in d["tables"]] + ["other"])
    return True


def add_column(r, g, d):
    t = r.choice(d["tables"])
    for _ in range(r.choice([1, 1, 2, 3])):
        c = g.column(_used_cols(t))
        if r.random() < 0.3:
            dv = g.default_for(c["type"], c)
            if dv:
                c["default"] = dv
        if r.random() < 0.15:
            c["unique"] = True
        if r.random() < 0.08:
            c["pk"] = True
        t["columns"].insert(r.randrange(len(t["columns"]) + 1), c)
    return True


def add_similar_column(r, g, d):
    t, c = _pick(r, d)
    n = copy.deepcopy(c)
    n["name"] = g.col_name(_used_cols(t))
    n.pop("autoinc", None)
    t["columns"].insert(r.randrange(len(t["columns"]) + 1), n)
    return True


def drop_column(r, g, d):
    t, c = _pick(r, d)
    if len(t["columns"]) < 2:
        return False
    t["columns"].remove(c)
    for i in t.get("indices", []):
        i["columns"] = [n for n in i["columns"] if n != c["name"]]
    if "indices" in t:
        t["indices"] = [i for i in t["indices"] if i["columns"]]
    return True


def rename_column(r, g, d):
    t, c = _pick(r, d)
    old, new = c["name"], g.col_name(_used_cols(t))
    c["name"] = new
    _rename_refs(d, t["name"], old, new)
    return True


def swap_columns(r, g, d):
    t = r.choice(d["tables"])
    if len(t["columns"]) < 2 or r.random() < 0.6:
        return False
    a, b = r.sample(t["columns"], 2)
    a["name"], b["name"] = b["name"], a["name"]
    return True


def change_type(r, g, d):
    t, c = _pick(r, d)
    nt = r.choice(g.k.types)
    c["type"] = nt
    for k in ("size", "scale", "default", "onupdate", "values"):
        c.pop(k, None)
    if nt in ("enum", "set"):
        c["values"] = g.values()
    if nt not in M.INTS:
        c.pop("autoinc", None)
    size, scale = g.size_for(nt)
    if size:
        c["size"] = size
    if scale:
        c["scale"] = scale
    if r.random() < 0.4 and not c.get("autoinc"):
        dv = g.default_for(nt, c)
        if dv:
            c["default"] = dv
    return True


def change_size(r, g, d):
    t, c = _pick(r, d)
    size, scale = g.size_for(M.canon_type(c["type"]))
    for k, v in (("size", size), ("scale", scale)):
        c.pop(k, None)
        if v:
            c[k] = v
    return bool(size)


def change_scale(r, g, d):
    cs = [c for t in d["tables"] for c in t["columns"] if M.canon_type(c["type"]) in M.DECS and c.get("size")]
    if not cs:
        return False
    c = r.choice(cs)
    if c.get("scale") and r.random() < 0.4:
        del c["scale"]
    else:
        c["scale"] = r.choice([1, 2, 3])
    return True


def change_values(r, g, d):
    cs = [c for t in d["tables"] for c in t["columns"] if c.get("values")]
    if not cs:
        return False
    c = r.choice(cs)
    x = r.random()
    if x < 0.4 and len(c["values"]) < 64:
        c["values"] = c["values"] + ["extra%d" % r.randrange(9)]
    elif x < 0.7 and len(c["values"]) > 1:
        c["values"] = c["values"][::-1]
    else:
        c["values"] = c["values"][:-1] + ["changed"]
    for k in ("default", "onupdate"):
        if k in c and c[k] not in c["values"]:
            c[k] = c["values"][0]
    return True


def change_notnull(r, g, d):
    t, c = _pick(r, d)
    if c.get("notnull"):
        del c["notnull"]
    else:
        c["notnull"] = True
    return True


def change_default(r, g, d):
    t, c = _pick(r, d)
    if c.get("autoinc"):
        return False
    if c.get("default") and r.random() < 0.4:
        del c["default"]
        return True
    dv = g.default_for(M.canon_type(c["type"]), c)
    if not dv:
        return False
    c["default"] = dv
    return True


def spelling_only(r, g, d):
    """A text changes in letter case or in outer white space only."""
    t, c = _pick(r, d)
    x = r.random()
    if x < 0.35:
        cs = [c for t in d["tables"] for c in t["columns"] if c.get("values")]
        if not cs:
            return False
        c = r.choice(cs)
        v = [y.swapcase() for y in c["values"]]
        if v == c["values"]:
            return False
        c["values"] = v
        for k in ("default", "onupdate"):
            if k in c:
                c[k] = c[k].swapcase()
    elif x < 0.6 and M.canon_type(c["type"]) in ("char", "varchar") and not c.get("default", "fn::").startswith("fn::"):
        d0 = c["default"]
        c["default"] = r.choice([d0.swapcase(), d0 + " ", " " + d0])
        if c["default"] == d0:
            c["default"] = d0 + " "
    else:
        o = r.choice([t, c])
        if not o.get("desc"):
            return False
        d0 = o["desc"]
        o["desc"] = r.choice([d0.swapcase(), d0.upper(), d0 + "."])
        if o["desc"] == d0:
            o["desc"] = d0 + "."
    return True


def change_onupdate(r, g, d):
    cs = [c for t in d["tables"] for c in t["columns"] if M.canon_type(c["type"]) == "datetime"]
    if not cs:
        return False
    c = r.choice([c for c in cs if c.get("onupdate")] or cs) if r.random() < 0.5 else r.choice(cs)
    if c.get("onupdate"):
        del c["onupdate"]
    else:
        c["onupdate"] = "fn::" + r.choice(g.k.fn_defaults)
    return True


def change_comment(r, g, d):
    t, c = _pick(r, d)
    if c.get("desc") and r.random() < 0.4:
        del c["desc"]
    else:
        c["desc"] = g.text() + (r.choice([" it's", " \\ back", "", "", ""]))
    return True


def change_unique(r, g, d):
    t, c = _pick(r, d)
    if c.get("unique"):
        del c["unique"]
    else:
        c["unique"] = True
    return True


def drop_all_unique(r, g, d):
    t = r.choice(d["tables"])
    hit = False
    for c in t["columns"]:
        hit = bool(c.pop("unique", None)) or hit
    return hit


def change_pk(r, g, d):
    t, c = _pick(r, d)
    if c.get("pk"):
        del c["pk"]
        c.pop("autoinc", None)
    else:
        c["pk"] = True
    return True


def change_autoinc(r, g, d):
    cs = [c for t in d["tables"] for c in t["columns"]
          if M.canon_type(c["type"]) in M.INTS and c.get("pk") and not c.get("default")
          and not any(x.get("autoinc") and x is not c for x in t["columns"])]
    if not cs:
        return False
    c = r.choice(cs)
    if c.get("autoinc"):
        del c["autoinc"]
    else:
        c["autoinc"] = True
    return True


def reorder_columns(r, g, d):
    t = r.choice(d["tables"])
    r.shuffle(t["columns"])
    return True


TWEAKS = ["notnull", "unique", "desc", "default", "size", "scale", "scale", "values", "autoinc", "onupdate", "type", "pk"]


def tweak(r, g, t, c, x):
    """Change exactly one attribute of a column; False if it does not apply."""
    ty = M.canon_type(c["type"])
    if x in ("notnull", "unique"):
        c[x] = not c.get(x)
    elif x == "desc":
        c["desc"] = g.text() if not c.get("desc") or r.random() < 0.6 else ""
    elif x == "default":
        if c.get("autoinc"):
            return False
        dv = g.default_for(ty, c)
        if not dv or dv == c.get("default"):
            return False
        c["default"] = dv
    elif x == "size":
        size, _ = g.size_for(ty)
        if not size or size == c.get("size"):
            return False
        c["size"] = size
    elif x == "scale":
        if ty not in M.DECS or not c.get("size"):
            return False
        c["scale"] = (c.get("scale", 0) + r.choice([1, 2])) % 4
    elif x == "values":
        if not c.get("values"):
            return False
        c["values"] = c["values"] + ["one_more"] if r.random() < 0.6 and len(c["values"]) < 64 or len(c["values"]) < 2 else c["values"][1:] + c["values"][:1]
    elif x == "autoinc":
        if ty not in M.INTS or not c.get("pk") or c.get("default"):
            return False
        if any(o.get("autoinc") for o in t["columns"] if o is not c):
            return False
        c["autoinc"] = not c.get("autoinc")
    elif x == "onupdate":
        if ty != "datetime":
            return False
        c["onupdate"] = "" if c.get("onupdate") else "fn::" + r.choice(g.k.fn_defaults)
    elif x == "type":
        o = {"varchar": "char", "char": "varchar", "int32": "int64", "int64": "int32", "text16": "text32", "date": "year", "decimal": "double",
             "double": "float", "text": "text32"}.get(ty)
        if not o:
            return False
        c["type"] = o
    elif x == "pk":
        if c.get("pk"):
            c.pop("autoinc", None)
        c["pk"] = not c.get("pk")
    for k in ("notnull", "unique", "pk", "autoinc", "desc", "default", "scale", "onupdate"):
        if k in c and not c[k]:
            del c[k]
    return True


def near_rename(r, g, d):
    """A column goes and another one comes which differs from it in one attribute besides the name."""
    x = r.choice(TWEAKS)
    cs = [(t, c) for t in d["tables"] for c in t["columns"]]
    r.shuffle(cs)
    for t, c in cs:
        if tweak(r, g, t, c, x):
            old, new = c["name"], g.col_name(_used_cols(t))
            c["name"] = new
            _rename_refs(d, t["name"], old, new)
            return True
    return False


def near_rename_table(r, g, d):
    """A table goes and another one comes which differs from it in one attribute of one column, or its comment, besides the name."""
    t = r.choice(d["tables"])
    rename_table(r, g, d, t)
    if r.random() < 0.25:
        if t.get("desc") and r.random() < 0.5:
            del t["desc"]
        else:
            t["desc"] = g.text()
        return True
    cs = list(t["columns"])
    r.shuffle(cs)
    for x in r.sample(TWEAKS, 3):
        if any(tweak(r, g, t, c, x) for c in cs):
            break
    return True


EDITS = [near_rename, near_rename, near_rename, near_rename_table, rename_twins, rename_twins, add_table, drop_table, rename_table, rename_table, rename_table, rename_table, swap_tables, table_comment, move_group, add_column,
         add_column, add_similar_column, drop_column, drop_column, rename_column, rename_column, swap_columns,
         change_type, change_type, change_size, change_scale, change_values, change_values, change_notnull,
         change_notnull, change_default, change_default, change_onupdate, change_comment, change_comment,
         change_unique, change_unique, drop_all_unique, spelling_only, spelling_only, change_pk, change_pk, change_autoinc, change_autoinc,
         reorder_columns]


def scope(frm, to, groups):
    """What a migration of `groups` has to achieve. Canonical schemas in; returns
    (created, kept, dropped): to-tables absent from `from`, (old, new) pairs, and from-tables to vanish."""
    f = {t["name"]: t for t in frm["tables"]}
    n = {t["name"]: t for t in to["tables"]}
    tin = M.in_groups(to["tables"], groups)
    created = [t for t in tin if t["name"] not in f]
    kept = [(f[t["name"]], t) for t in tin if t["name"] in f]
    dropped = [t for t in M.in_groups(frm["tables"], groups) if t["name"] not in n]
    return created, kept, dropped


ATTR = ("type", "size", "scale", "notnull", "default", "onupdate", "desc", "unique", "pk", "autoinc", "values")


def gen_pairs(rng, n, **kw):
    for _ in range(n):
        s, d, done = pair(rng, names=rng.choice(["plain", "mixed"]), **kw)
        yield {"from": s, "to": d, "edits": done,
               "groups": None if rng.random() < 0.6 else G.groups_arg(rng, rng.choice([s, d])),
               "suffix": rng.choice([None, "", "_uq", "_UQ1"]), "comments": rng.random() < 0.6,
               "author": rng.choice([None, None, "me", "홍 길동"]), "style": rng.randrange(10 ** 6)}


def options(ctx, case, out):
    return {"from": ctx.write("from.json", case["from"]), "to": ctx.write("to.json", case["to"]),
            "output": ctx.path(out), "groups": case["groups"], "uniqueNameSuffix": case["suffix"],
            "comments": case["comments"], "author": case["author"]}
