import os
import random
from vlib import dsl, gen as G, model as M, spec

PROPERTY = "C14"
RULE = ("seeded random schemas drawn as PlantUML into files with every documented extension and into directories; the "
        "diagram is read back by an independent reader and entities, attributes, stereotypes, the key separator and "
        "relation lines are compared with the schema; distinct = distinct parsed diagrams")
FLOOR = {"columns_checked": 3000, "relations": 300, "to_directory": 50, "to_file": 200}
ASSUMPTIONS = ["names are plain identifiers"]
EXT = [".wsd", ".pu", ".puml", ".plantuml", ".iuml"]


def gen(rng, tier):
    for _ in range(900 if tier == "quick" else 12000):
        s = G.schema(rng, max_tables=6, names=rng.choice(["plain", "mixed", "odd"]), refs=0.35, exotic="uni", lines=0.04,
                     ref_dangling=0.05)
        x = rng.random()
        if x < 0.6:
            o = "out" + rng.choice(EXT)
            if rng.random() < 0.2:
                o = o.upper()
        else:
            o = rng.choice(["outdir", "a/b/c", "diagram.txt", "x.json", "puml"])
        yield {"schema": s, "out": o, "style": rng.randrange(10 ** 6)}


def run(case, ctx):
    f = ctx.write("in.json", case["schema"])
    spec.run(ctx, "generate plantuml", {"input": f, "output": ctx.path("w", case["out"])
                                        if os.path.splitext(case["out"])[1].lower() not in EXT
                                        else ctx.path(case["out"])}, "mix", random.Random(case["style"]))
    if os.path.splitext(case["out"])[1].lower() in EXT:
        name = case["out"]
        ctx.see("to_file")
    else:
        name = os.path.join("w", case["out"], "output.plantuml")
        ctx.see("to_directory")
    if not os.path.isfile(ctx.path(name)):
        ctx.fail("the diagram is not at %s" % name)
        return
    try:
        tables, rels = dsl.plantuml(ctx.read(name))
    except dsl.Bad as e:
        ctx.fail("not a well-formed diagram: %s" % e)
        return
    want = M.canon(case["schema"])["tables"]
    ctx.same("entities", [t["name"] for t in tables], [t["name"] for t in want])
    wrel = []
    for t, g in zip(want, tables):
        ctx.same(t["name"] + " attributes", [c["name"] for c in g["columns"]], [c["name"] for c in t["columns"]])
        nonpk = [i for i, c in enumerate(t["columns"]) if not c["pk"]]
        ctx.same(t["name"] + " key separator", g["seps"], nonpk[:1])
        for c, d in zip(t["columns"], g["columns"]):
            ctx.see("columns_checked")
            tags = sorted(k for k, v in (("PK", c["pk"]), ("UQ", c["unique"]), ("FK", c["ref"] is not None)) if v)
            p = "%s.%s " % (t["name"], c["name"])
            ctx.same(p + "type", d["type"], c["type"])
            ctx.same(p + "mandatory mark", d["notnull"], c["notnull"])
            ctx.same(p + "stereotypes", d["tags"], tags)
            if c["ref"]:
                ctx.see("relations")
                wrel.append([t["name"], c["ref"]["relationship"] or "n:1", c["ref"]["table"]])
    ctx.same("relations", sorted(rels), sorted(wrel))
    ctx.state([tables, rels])
