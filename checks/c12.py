import random
from vlib import dsl, gen as G, model as M, spec

PROPERTY = "C12"
RULE = ("seeded random schemas (all types, sizes, keys, defaults and functions, references in every direction and "
        "relationship, notes with quotes/backslashes/line breaks) exported to DBML with random --groups; the file is read "
        "back by an independent DBML parser and compared with the schema; distinct = distinct parsed DBML contents")
FLOOR = {"columns_checked": 3000, "refs": 300, "default_fn": 30, "default_str": 100, "nasty_notes": 50, "filtered": 50}
ASSUMPTIONS = ["names are plain identifiers; references whose target is outside the exported groups may be kept or left out"]
NASTY = ["it's", 'say "hi"', "back\\slash", "a, b]", "line\nbreak", "50%", "[x: y]", "{z}", "// no", "`bt`"]


def gen(rng, tier):
    for _ in range(900 if tier == "quick" else 12000):
        s = G.schema(rng, fn_any=0.05, fn_defaults=("CURRENT_TIMESTAMP", "NOW", "timestamp_of_this_transaction"), max_tables=6, names=rng.choice(["plain", "mixed", "odd"]), refs=0.35, onupdate_p=0.1,
                     exotic="uni", lines=0.04)
        for t in s["tables"]:
            for c in t["columns"]:
                if rng.random() < 0.08:
                    c["desc"] = rng.choice(NASTY) + " " + rng.choice(NASTY)
                if M.canon_type(c["type"]) in ("varchar", "char") and rng.random() < 0.05:
                    c["default"] = rng.choice(NASTY)
        yield {"schema": s, "groups": G.groups_arg(rng, s), "style": rng.randrange(10 ** 6)}


def lines(s):
    """A note keeps its lines, not the way they end."""
    return (s or "").replace("\r\n", "\n").replace("\r", "\n")


def run(case, ctx):
    f = ctx.write("in.json", case["schema"])
    spec.run(ctx, "export dbml", {"input": f, "output": ctx.path("o.dbml"), "groups": case["groups"]}, "mix",
             random.Random(case["style"]))
    try:
        tables, refs = dsl.dbml(ctx.read("o.dbml"))
    except dsl.Bad as e:
        ctx.fail("exported DBML is not well-formed: %s" % e)
        return
    want = M.in_groups(M.canon(case["schema"])["tables"], case["groups"])
    if case["groups"]:
        ctx.see("filtered")
    ctx.same("exported tables", [t["name"] for t in tables], [t["name"] for t in want])
    names = {t["name"] for t in want}
    wrefs, opt = [], []
    for t, g in zip(want, tables):
        ctx.same(t["name"] + " columns", [c["name"] for c in g["columns"]], [c["name"] for c in t["columns"]])
        for c, d in zip(t["columns"], g["columns"]):
            ctx.see("columns_checked")
            p = "%s.%s " % (t["name"], c["name"])
            for k, v in (("type", c["type"]), ("size", c["size"]), ("scale", c["scale"] if c["size"] else 0),
                         ("pk", c["pk"]), ("unique", c["unique"]), ("notnull", c["notnull"])):
                ctx.same(p + k, d[k], v)
            ctx.same(p + "note", lines(d["note"]), lines(c["desc"]))
            if any(x in c["desc"] for x in "\"\\\n"):
                ctx.see("nasty_notes")
            text, isfn = M.fn(c["default"])
            if c["default"] == "":
                ctx.same(p + "default", d["default"], None)
            else:
                kind = "fn" if isfn else "raw" if c["type"] in M.INTS + M.DECS + ("boolean",) else "str"
                ctx.see("default_" + kind)
                ctx.same(p + "default", d["default"], [kind, text])
            if c["ref"]:
                r = {"from": [t["name"], c["name"]], "rel": c["ref"]["relationship"] or "n:1",
                     "to": [c["ref"]["table"], c["ref"]["column"]]}
                (wrefs if c["ref"]["table"] in names else opt).append(r)
    for r in refs:
        if r in opt:
            opt.remove(r)
        elif r in wrefs:
            wrefs.remove(r)
            ctx.see("refs")
        else:
            ctx.fail("reference %r is not in the schema" % r)
    if wrefs:
        ctx.fail("references of the schema are missing: %r" % wrefs[:3])
    ctx.state([tables, refs])
