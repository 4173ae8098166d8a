import random
from vlib import dsl, gen as G, model as M, spec

PROPERTY = "C13"
RULE = ("seeded random schemas exported to QuickDBD; the text is read back by an independent reader and every table, "
        "column, key flag, default, reference and comment compared with the schema; distinct = distinct parsed contents")
FLOOR = {"columns_checked": 3000, "refs": 300, "defaults": 300, "multiline": 50}
ASSUMPTIONS = ["names are plain identifiers; line breaks in comments come out as blanks"]


def gen(rng, tier):
    for _ in range(900 if tier == "quick" else 12000):
        s = G.schema(rng, fn_any=0.05, fn_defaults=("CURRENT_TIMESTAMP", "NOW", "timestamp_of_this_transaction"), max_tables=6, names=rng.choice(["plain", "mixed", "odd"]), refs=0.35, onupdate_p=0.1,
                     exotic="uni", lines=0.04)
        for t in s["tables"]:
            for c in [t] + t["columns"]:
                if rng.random() < 0.06:
                    c["desc"] = rng.choice(["first\nsecond line", "a\r\nb", "x\n\ny", "it's \"q\"", "PK UNIQUE"])
        yield {"schema": s, "style": rng.randrange(10 ** 6)}


def one_line(s):
    return " ".join(s.split())


def run(case, ctx):
    f = ctx.write("in.json", case["schema"])
    spec.run(ctx, "export quickdbd", {"input": f, "output": ctx.path("o.txt")}, "mix", random.Random(case["style"]))
    try:
        tables = dsl.quickdbd(ctx.read("o.txt"))
    except dsl.Bad as e:
        ctx.fail("exported QuickDBD is not well-formed: %s" % e)
        return
    want = M.canon(case["schema"])["tables"]
    ctx.same("exported tables", [t["name"] for t in tables], [t["name"] for t in want])
    for t, g in zip(want, tables):
        ctx.same(t["name"] + " comment", one_line(g["desc"]), one_line(t["desc"]))
        ctx.same(t["name"] + " columns", [c["name"] for c in g["columns"]], [c["name"] for c in t["columns"]])
        for c, d in zip(t["columns"], g["columns"]):
            ctx.see("columns_checked")
            p = "%s.%s " % (t["name"], c["name"])
            for k, v in (("type", c["type"]), ("pk", c["pk"]), ("unique", c["unique"]), ("autoinc", c["autoinc"]),
                         ("nullable", not c["notnull"]), ("default", M.fn(c["default"])[0])):
                ctx.same(p + k, d[k], v)
            ctx.same(p + "comment", one_line(d["desc"]), one_line(c["desc"]))
            if "\n" in c["desc"]:
                ctx.see("multiline")
            if c["default"]:
                ctx.see("defaults")
            r = c["ref"]
            if r:
                ctx.see("refs")
            ctx.same(p + "reference", d["ref"], r and {"rel": r["relationship"] or "n:1", "table": r["table"],
                                                       "column": r["column"]})
    ctx.state(tables)
