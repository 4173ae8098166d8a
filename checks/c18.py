import random
import re
from vlib import gen as G, gorm as R, model as M, naming, spec, strcase

PROPERTY = "C18"
RULE = ("seeded random schemas generated to GORM models with random groups/prefix/removePrefix/embed/"
        "pointerAssociation/uniqueNameSuffix/package, to a .go file or a directory; go/parser reads the structs back and "
        "each table, field, Go type, gorm tag, embedded struct and association is compared with a reference model; "
        "distinct = distinct struct sets")
FLOOR = {"fields_checked": 3000, "associations": 300, "embedded": 50, "column_tags": 100, "unique_index": 100,
         "index_tags": 200, "digit_names": 50}
ASSUMPTIONS = ["names are identifiers which stay distinct in camel case"]
STD = [("id", "bigint"), ("created_at", "datetime"), ("updated_at", "datetime"), ("deleted_at", "datetime")]

prepare = R.prepare


def make(rng, **kw):
    s = G.schema(rng, max_tables=6, names=rng.choice(["plain", "mixed", "odd"]), refs=rng.choice([0.2, 0.5]),
                 ref_dangling=0.03, class_name=0.25, **kw)
    for t in s["tables"]:
        if rng.random() < 0.3:
            have = {strcase.lower_camel(c["name"]).lower() for c in t["columns"]}
            for n, ty in STD[:rng.choice([3, 4, 4])]:
                if strcase.lower_camel(n).lower() not in have:
                    t["columns"].append({"name": n, "type": ty, "notnull": rng.random() < 0.5})
            if rng.random() < 0.3:          # a field named like an embedded struct
                n = rng.choice(["model", "model", "Model", "base", "zed"])
                if n.lower() not in have:
                    t["columns"].insert(rng.randrange(len(t["columns"]) + 1), {"name": n, "type": "varchar", "size": 10})
                    t2 = rng.choice(rng.choice(s["tables"])["columns"])
                    if rng.random() < 0.5 and "ref" not in t2:
                        t2["ref"] = {"table": t["name"], "column": n}
            elif rng.random() < 0.2 and not any(x["name"].lower() == "model" or x.get("className", "").lower() == "model"
                                                for x in s["tables"]):
                for u in s["tables"]:
                    for c in u["columns"]:
                        if c.get("ref", {}).get("table") == t["name"]:
                            c["ref"]["table"] = "model"
                t["name"] = "model"
                t.pop("className", None)
        if rng.random() < 0.1 and not any(strcase.upper_camel(c["name"]).lower() == "tablename" for c in t["columns"]):
            n = rng.choice(["table_name", "table_name", "TableName", "tableName"])
            t["columns"].insert(rng.randrange(len(t["columns"]) + 1), {"name": n, "type": "varchar", "size": 10})
            c = rng.choice(rng.choice(s["tables"])["columns"])
            if rng.random() < 0.5 and "ref" not in c:
                c["ref"] = {"table": t["name"], "column": n}
        if rng.random() < 0.1:          # names led by digits
            t["columns"].insert(rng.randrange(len(t["columns"]) + 1),
                                {"name": rng.choice(["42", "2020", "3d", "1_decimal", "007", "9Z"]), "type": rng.choice(["bigint", "varchar", "boolean", "datetime", "double", "json", "blob"]),
                                 "notnull": rng.random() < 0.5, "unique": rng.random() < 0.2})
    ts = M.canon(s)["tables"]
    prefix, remove = naming.opts(rng, ts)
    embed = None
    x = rng.random()
    if x < 0.3:
        t = rng.choice(ts)
        cs = [c for c in t["columns"] if strcase.upper_camel(c["name"]) != "TableName"] or t["columns"]
        cs = rng.sample(cs, min(len(cs), rng.choice([1, 2, 2, 3])))
        embed = "%s:%s" % (rng.choice(["IdName", "model.Base", "Zed", "a.B_1"]), ",".join(c["name"] for c in cs))
    elif x < 0.4:
        embed = "Base:id," + rng.choice(["created_at", "created_at,updated_at", "created_at,updated_at,deleted_at"])
    elif x < 0.5:
        embed = "gorm.Model:"
    elif x < 0.55:
        embed = "gorm.Model:id,created_at"
    return {"schema": s, "groups": G.groups_arg(rng, s), "prefix": prefix, "removePrefix": remove, "embed": embed,
            "package": rng.choice([None, "model", "lechuck"]), "pointerAssociation": rng.random() < 0.4,
            "uniqueNameSuffix": rng.choice([None, "_uq", "_UQ1"]), "out": rng.choice(["m.go", "d/e", "X.GO", "out"]),
            "style": rng.randrange(10 ** 6)}


def gen(rng, tier):
    for _ in range(800 if tier == "quick" else 9000):
        yield make(rng)


def generate(case, ctx):
    f = ctx.write("in.json", case["schema"])
    opts = {"input": f, "output": ctx.path(case["out"])}
    for k in ("groups", "prefix", "removePrefix", "embed", "package", "pointerAssociation", "uniqueNameSuffix"):
        opts[k] = case[k]
    spec.run(ctx, "generate gorm", opts, "mix", random.Random(case["style"]))
    out = ctx.path(case["out"]) if case["out"].lower().endswith(".go") else ctx.path(case["out"], "output.go")
    s = M.canon(case["schema"])
    names = {t["name"]: naming.class_name(t, case["prefix"], case["removePrefix"]) for t in s["tables"]}
    ts = M.in_groups(s["tables"], case["groups"])
    stubs = set(names.values()) - {names[t["name"]] for t in ts}
    emb = set()
    for t in ts:
        emb |= set(R.embeds(t, case["embed"])[0])
    stubs |= {e for e in emb if "." not in e}
    return s, ts, names, R.read_go(out, stubs)


def run(case, ctx):
    s, ts, names, d = generate(case, ctx)
    ctx.same("package", d["package"], case["package"] or "main")
    ctx.same("structs", [x["name"] for x in d["structs"]], [names[t["name"]] for t in ts])
    if len(d["structs"]) != len(ts):
        return
    fields = {}
    for t, st in zip(ts, d["structs"]):
        fields[t["name"]] = field_names(case, t, st)
    for t, st in zip(ts, d["structs"]):
        compare(case, ctx, s, t, names, st, fields)
    if ts:
        ctx.state(d["structs"])


def field_names(case, t, st):
    """column -> name of its field in the struct"""
    gone = R.embeds(t, case["embed"])[1]
    fs = [f["name"] for f in st["fields"] if not f["embed"]]
    r = dict(zip([c["name"] for c in t["columns"] if c["name"] not in gone], fs))
    return {c["name"]: r.get(c["name"], R.field_name(c["name"])) for c in t["columns"]}


def compare(case, ctx, s, t, names, st, fields):
    p = "struct " + st["name"]
    ctx.same(p + " table name", st["table"], t["name"])
    ctx.same(p + " TableName receiver", st["receiver"], "*" + st["name"])
    used, gone = R.embeds(t, case["embed"])
    outer = {"TableName"} | {u.rpartition(".")[2] for u in used}      # names which a field cannot have
    emb = [f["type"] for f in st["fields"] if f["embed"]]
    ctx.same(p + " embedded structs", sorted(emb), sorted(used))
    ctx.see("embedded", len(used))
    cols = [c for c in t["columns"] if c["name"] not in gone]
    fs = [f for f in st["fields"] if not f["embed"]]
    own, assoc = fs[:len(cols)], fs[len(cols):]
    ctx.same(p + " number of column fields", len(own), len(cols))
    for c, f in zip(cols, own):
        ctx.see("fields_checked")
        q = "%s field %s (column %s)" % (p, f["name"], c["name"])
        want = R.field_name(c["name"])
        if want in outer:
            ctx.see("name_clashes")
        if want not in outer:
            ctx.same(q + " name", f["name"], want)
        if case.get("known") and not f["name"][0].isupper():    # known finding gorm-unexported-field
            ctx.fail(q + " is not exported, GORM ignores it")
        if c["name"][0].isdigit():
            ctx.see("digit_names")
        if c["type"] in R.TYPES:
            ctx.same(q + " type of " + c["type"], f["type"], R.TYPES[c["type"]][0 if c["notnull"] else 1])
        parts = R.tag_parts(f["tag"])
        col = [x[7:] for x in parts if x.startswith("column:")]
        if col:
            ctx.see("column_tags")
        if col or not re.search(r"_\d", c["name"]) or case.get("known"):      # known finding gorm-digit-column
            ctx.same(q + " mapped column", col or [R.db_name(f["name"])], [c["name"]])
        w = R.tags(c, t, case["uniqueNameSuffix"] or "")
        ctx.same(q + " tags", sorted(x for x in parts if not x.startswith("column:")), sorted(w))
        ctx.see("index_tags", sum(x.startswith("index:") for x in w))
        ctx.see("unique_index", sum(x.startswith("unique_index") for x in w))
    by = {x["name"]: x for x in s["tables"]}
    refs = [c for c in t["columns"] if c["ref"] and c["ref"]["table"] in by and
            any(x["name"] == c["ref"]["column"] for x in by[c["ref"]["table"]]["columns"])]
    ctx.same(p + " number of associations", len(assoc), len(refs))
    taken = set(fields[t["name"]].values()) | outer
    for c, f in zip(refs, assoc):
        ctx.see("associations")
        ty = names[c["ref"]["table"]]
        arr = c["ref"]["relationship"] == "1:n"
        q = "%s association of %s" % (p, c["name"])
        base = ("[]" if arr else "") + ty
        if case["pointerAssociation"] or (not arr and R.recursive(s["tables"], t["name"], c["ref"]["table"])):
            base = "*" + base
        ctx.same(q + " type", f["type"], base)
        if ty not in taken:
            ctx.same(q + " name", f["name"], ty)
        elif not f["name"].startswith(ty) or f["name"] in taken:
            ctx.fail("%s is called %s" % (q, f["name"]))
        taken.add(f["name"])
        if c["ref"]["table"] not in fields and R.field_name(c["ref"]["column"]) in \
                {"TableName"} | {u.rpartition(".")[2] for u in R.embeds(by[c["ref"]["table"]], case["embed"])[0]}:
            continue        # the field has another name, in a struct which is not in this file
        ctx.same(q + " tags", R.tag_parts(f["tag"]), ["foreignKey:" + fields[t["name"]][c["name"]], "references:" +
                                                      fields.get(c["ref"]["table"], {}).get(c["ref"]["column"],
                                                                                            R.field_name(c["ref"]["column"]))])
