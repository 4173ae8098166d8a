import json
import random
from vlib import gen as G, model as M, spec

PROPERTY = "C09"
RULE = ("seeded random schemas go export xlsx -> import xlsx (both null-column modes) and have to come back as the same "
        "schema, and a second round trip has to be a fixed point; distinct = distinct re-imported documents")
FLOOR = {"columns_checked": 3000, "refs": 300, "indices": 200}
ASSUMPTIONS = ["the documented layout has no place for enum/set values, a P+U key or a comma inside an attribute; "
               "tables without a group come back in group Common (documented sheet name)"]
TYPES = tuple(t for t in M.CANON if t not in ("enum", "set"))


def gen(rng, tier):
    for _ in range(600 if tier == "quick" else 8000):
        s = G.schema(rng, max_tables=7, names=rng.choice(["plain", "mixed", "odd"]), types=TYPES, commas=False, refs=0.35, onupdate_p=0.2,
                     exotic=rng.choice(["", "free"]), lines=0.04)
        for t in s["tables"]:
            if t.get("indices") and rng.random() < 0.1:
                rng.choice(t["indices"])["name"] = ""
            for c in t["columns"]:
                if c.get("pk"):
                    c.pop("unique", None)
                if "scale" in c and "size" not in c:
                    del c["scale"]
                # without a relationship the first letter of the table would be one
                if c.get("ref") and c["ref"]["table"][0] in "-<>" and not c["ref"].get("relationship"):
                    c["ref"]["relationship"] = "n:1"
        yield {"schema": s, "null": rng.random() < 0.5, "style": rng.randrange(10 ** 6)}


def view(s):
    d = M.canon(s)
    for t in d["tables"]:
        t["group"] = t["group"] or "Common"
        for c in t["columns"]:
            if c["ref"]:
                c["ref"]["relationship"] = c["ref"]["relationship"] or "n:1"
    d["tables"].sort(key=lambda t: (t["group"].encode(), t["name"].encode()))
    return d


def run(case, ctx):
    rng = random.Random(case["style"])
    want = view(case["schema"])
    f = ctx.write("a.json", case["schema"])
    for i in range(2):
        spec.run(ctx, "export xlsx", {"input": f, "output": ctx.path("o.xlsx"), "useNullColumn": case["null"] ^ (i == 1)}, "mix", rng)
        spec.run(ctx, "import xlsx", {"input": ctx.path("o.xlsx"), "output": ctx.path("b%d.json" % i)}, "mix", rng)
        f = ctx.path("b%d.json" % i)
        got = view(json.loads(ctx.read("b%d.json" % i)))
        for p in M.diff_docs(got, want):
            ctx.fail("round trip %d changed the schema: %s" % (i + 1, p))
    ctx.see("columns_checked", sum(len(t["columns"]) for t in want["tables"]))
    ctx.see("refs", sum(c["ref"] is not None for t in want["tables"] for c in t["columns"]))
    ctx.see("indices", sum(len(t["indices"]) for t in want["tables"]))
    ctx.state(got)
