import os
import random
from vlib import gen as G, model as M, naming, spec, sqla

PROPERTY = "C22"
RULE = ("seeded random schemas generated to SQLAlchemy (single file and directory, random groups/prefix/removePrefix/"
        "uniqueNameSuffix/useUTC); each module is executed against a recording stand-in of the declarative API and every "
        "class, table name, column name, type, size, option, audit default and unique constraint is compared with the "
        "schema; distinct = distinct recorded models")
FLOOR = {"columns_checked": 3000, "classes": 1000, "composite_unique": 100, "single_unique": 100, "audit": 50, "utc": 100,
         "single_file": 200, "directory": 200, "renamed": 100}
ASSUMPTIONS = ["names are identifiers which stay distinct in snake case, class names are none of Python or SQLAlchemy; the stand-in models SQLAlchemy's documented "
               "import-time behaviour; column types without a generic SQLAlchemy type may have none"]


def make(rng, **kw):
    args = dict(max_tables=5, names=rng.choice(["plain", "mixed", "odd"]), class_name=0.25, reserved=rng.choice([0, 0, 0.12]))
    args.update(kw)
    s = G.schema(rng, **args)
    for t in s["tables"]:
        if t["name"] == "None" or t.get("className") == "None":
            t["name"] = "nothing"
        have = {c["name"].lower().replace("_", "") for c in t["columns"]}
        for n, ty in (("created_at", "timestamp"), ("updated_at", "datetime"), ("deleted_at", "datetime"),
                      ("metadata", "varchar"), ("datetime", "datetime"), ("registry", "int"), ("async", "boolean"),
                      ("CREATED_AT", "datetime")):
            if rng.random() < 0.15 and n.lower().replace("_", "") not in have:
                have.add(n.lower().replace("_", ""))
                t["columns"].insert(rng.randint(0, len(t["columns"])), {"name": n, "type": ty, "notnull": rng.random() < 0.6})
    ts = M.canon(s)["tables"]
    prefix, remove = naming.opts(rng, ts)
    return {"schema": s, "groups": G.groups_arg(rng, s), "prefix": prefix, "removePrefix": remove,
            "uniqueNameSuffix": rng.choice([None, "_uq", "_UQ1"]), "useUTC": rng.random() < 0.4,
            "out": rng.choice(["m.py", "d/models.py", "X.PY", "out", "pkg/models"]), "style": rng.randrange(10 ** 6)}


def gen(rng, tier):
    for _ in range(900 if tier == "quick" else 10000):
        yield make(rng)


def generate(case, ctx):
    """[(file, source, [tables])]"""
    f = ctx.write("in.json", case["schema"])
    opts = {"input": f, "output": ctx.path(case["out"])}
    for k in ("groups", "prefix", "removePrefix", "uniqueNameSuffix", "useUTC"):
        opts[k] = case[k]
    spec.run(ctx, "generate sqlalchemy", opts, "mix", random.Random(case["style"]))
    s = M.canon(case["schema"])
    ts = M.in_groups(s["tables"], case["groups"])
    if case["out"].lower().endswith(".py"):
        ctx.see("single_file")
        return [(case["out"], ctx.read(case["out"]), ts)]
    ctx.see("directory")
    got = sorted(os.listdir(ctx.path(case["out"])))
    ctx.same("files", got, sorted(t["name"] + ".py" for t in ts))
    return [(t["name"] + ".py", ctx.read(os.path.join(case["out"], t["name"] + ".py")), [t]) for t in ts]


def run(case, ctx):
    for name, src, ts in generate(case, ctx):
        models, ns = sqla.run(src, name)
        if not ctx.same(name + " classes", [m["class"] for m in models],
                        [naming.class_name(t, case["prefix"], case["removePrefix"]) for t in ts]):
            continue
        for t, m in zip(ts, models):
            compare(case, ctx, t, m)
            ctx.state([m["class"], m["table"], [(a, b, type(c.type).__name__, sorted(map(repr, c.kw.items())))
                                                for a, b, c in m["columns"]], m["unique"]])


def compare(case, ctx, t, m):
    p = "class " + m["class"]
    ctx.see("classes")
    ctx.same(p + " table", m["table"], t["name"])
    ctx.same(p + " columns", [n for _, n, _ in m["columns"]], [c["name"] for c in t["columns"]])
    if len(m["columns"]) != len(t["columns"]):
        return
    uq = [c["name"] for c in t["columns"] if c["unique"]]
    if len(uq) > 1:
        ctx.see("composite_unique")
        ctx.same(p + " unique constraint", m["unique"], [(t["name"] + (case["uniqueNameSuffix"] or ""), uq)])
    else:
        ctx.same(p + " unique constraint", m["unique"], [])
    for c, (attr, name, col) in zip(t["columns"], m["columns"]):
        ctx.see("columns_checked")
        q = "%s column %s" % (p, name)
        if attr != name:
            ctx.see("renamed")
        kw = dict(col.kw)
        ty, ta = type(col.type).__name__, dict(getattr(col.type, "args", {}))
        audit = c["type"] == "datetime" and c["name"] in ("created_at", "updated_at")
        if c["type"] in sqla.GENERIC:
            want = sqla.GENERIC[c["type"]]
            if c["type"] == "datetime" and case["useUTC"] and not audit:
                want = "TZDateTime"
            ctx.same(q + " type", ty, want)
            wa = {}
            if c["type"] in ("varchar", "char") and c["size"]:
                wa["length"] = c["size"]
            if c["type"] in M.DECS and c["size"]:
                wa["precision"] = c["size"]
            if c["type"] == "decimal" and c["scale"]:
                wa["scale"] = c["scale"]
            ctx.same(q + " type arguments", ta, wa)
        elif c["type"] == "bit" and c["size"] == 1:
            ctx.same(q + " type", ty, "Boolean")
        elif c["type"] == "bit" and c["size"] > 1 and ty == "Boolean":
            ctx.fail(q + ": %d bits are no truth value" % c["size"])
        now = "utcnow" if case["useUTC"] else "now"
        if case["useUTC"]:
            ctx.see("utc")
        ctx.same(q + " default", getattr(kw.pop("default", None), "__name__", None), now if audit else None)
        ctx.same(q + " onupdate", getattr(kw.pop("onupdate", None), "__name__", None),
                 now if audit and c["name"] == "updated_at" else None)
        if audit:
            ctx.see("audit")
        ctx.same(q + " primary key", kw.pop("primary_key", False), c["pk"])
        ctx.same(q + " unique", kw.pop("unique", False), c["unique"] and len(uq) == 1)
        if c["unique"] and len(uq) == 1:
            ctx.see("single_unique")
        ctx.same(q + " autoincrement", kw.pop("autoincrement", False), c["autoinc"])
        if not c["autoinc"]:
            ctx.same(q + " nullable", kw.pop("nullable", True), not c["notnull"])
        kw.pop("nullable", None)
        ctx.same(q + " other options", kw, {})
