import json
import random
from vlib import gen as G, model as M, spec

PROPERTY = "C11"
RULE = ("seeded random octopus v1 documents (every v1 type spelling in any letter case, sizes, keys, defaults, "
        "descriptions, references, groups, class names, any table order); the imported v2 document is compared fact by "
        "fact with the v1 one; v1 documents with unknown types or nameless columns must be refused; distinct = distinct "
        "imported documents")
FLOOR = {"columns_checked": 3000, "refs": 300, "defaults": 300, "refused": 40}

# v1 spelling -> meaning in v2
V1 = {"string": "varchar", "varchar": "varchar", "char": "varchar", "int": "int32", "integer": "int32",
      "smallint": "int32", "bigint": "int64", "long": "int64", "datetime": "datetime", "bool": "boolean",
      "boolean": "boolean", "number": "decimal", "double": "decimal", "decimal": "decimal", "float": "float",
      "text": "text16", "date": "date", "time": "time", "blob": "blob16"}


def gen(rng, tier):
    for _ in range(900 if tier == "quick" else 12000):
        yield make(rng)


def make(r):
    s = G.schema(r, names=r.choice(["plain", "mixed", "odd"]), alias=0, casevar=0, refs=0.3, max_tables=7,
                 types=tuple(sorted(set(V1.values()))), ref_rel=("",), indices=0, onupdate_p=0, desc_p=0.6,
                 default_p=0.5, class_name=0.3, autoinc_bad=0.1, lines=0.1, exotic=r.choice(["", "free"]))
    v1 = json.loads(json.dumps(s))
    for t, t1 in zip(s["tables"], v1["tables"]):
        for c, c1 in zip(t["columns"], t1["columns"]):
            sp = r.choice([a for a in V1 if V1[a] == c["type"]])
            c1["type"] = r.choice([sp, sp, sp.upper(), sp.capitalize()])
            if "size" in c and r.random() < 0.1:        # each fact is kept on its own
                del c["size"], c1["size"]
            elif c["type"] in M.DECS and r.random() < 0.1:
                c["scale"] = c1["scale"] = r.choice([1, 2, 4])
            if "desc" in c1:
                c1["description"] = c1.pop("desc")
            if r.random() < 0.1:
                c1["comment"] = "unknown key"
    bad = None
    x = r.random()
    if x < 0.04:
        bad = "type"
        r.choice(v1["tables"])["columns"].append({"name": "weird", "type": r.choice(["nosuch", "strin", "", "nchar", "bigchar", "string2",
                                                                             "uint", "ints", "varchar2"])})
    elif x < 0.08:
        bad = "name"
        t = r.choice(v1["tables"])
        t["columns"].insert(r.randrange(len(t["columns"]) + 1), {"name": "", "type": "int"})
    return {"v1": v1, "schema": s, "bad": bad, "style": r.randrange(10 ** 6), "name": r.choice(["in.ojson", "db.json"])}


def run(case, ctx):
    f = ctx.write(case["name"], case["v1"])
    res = spec.run(ctx, "import ojson", {"input": f, "output": ctx.path("out.json")}, "mix",
                   random.Random(case["style"]), ok=not case["bad"])
    if case["bad"]:
        ctx.see("refused")
        if res.rc == 0 or res.panicked or ctx.exists("out.json"):
            ctx.fail("an invalid v1 document (%s) was not refused cleanly: %s" % (case["bad"], res.brief()))
        return
    got = M.canon(json.loads(ctx.read("out.json")))
    want = M.canon(case["schema"])
    for t in want["tables"]:
        ctx.see("columns_checked", len(t["columns"]))
        for c in t["columns"]:
            ctx.see("refs", 1 if c["ref"] else 0)
            ctx.see("defaults", 1 if c["default"] else 0)
    for p in M.diff_docs(got, want):
        ctx.fail("imported " + p)
    ctx.state(got)
