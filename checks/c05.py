from vlib import gen as G, model as M, mysqlddl as D, spec
import random

PROPERTY = "C05"
RULE = ("seeded random schemas (all 31 types, aliases, sizes/scales, keys, defaults, functions, comments with "
        "quotes/backslashes/unicode, indices, groups) exported with random --groups/--uniqueNameSuffix; the DDL is "
        "read back by an independent parser and compared fact by fact with the schema; distinct = distinct parsed "
        "DDL contents with at least one table")
ASSUMPTIONS = ["identifiers are written bare by design (pinned by an existing test): names are plain identifiers, no reserved words "
               "(known finding mysql-reserved-name)"]
FLOOR = {"columns_checked": 2000, "default_fn": 20, "default_literal": 100, "unique_multi": 10}

NASTY = ["it's", "'", "back\\slash", "a'b''c", "100%", "semi;colon", "(paren", "-- dash", "a,b", "\"dq\"", "`bt`", "tab\\t"]


def gen_case(rng):
    s = G.schema(rng, max_tables=6, names=rng.choice(["plain", "mixed"]), default_p=0.45, onupdate_p=0.15, fn_any=0, exotic="uni", lines=0.04, avoid=D.RESERVED)
    for t in s["tables"]:
        for ix in t.get("indices", []):
            if rng.random() < 0.1:
                ix["name"] = ""
        for c in t["columns"]:
            if rng.random() < 0.08:
                c["desc"] = rng.choice(NASTY) + " " + rng.choice(NASTY)
            ct = M.canon_type(c["type"])
            if ct in ("varchar", "char") and rng.random() < 0.05:
                c["default"] = rng.choice(NASTY)
            if ct in ("enum", "set") and rng.random() < 0.1 and len(c["values"]) < 64:
                c["values"] = c["values"] + [rng.choice(NASTY)]
            if ct in M.TEXTS and rng.random() < 0.05:
                c["default"] = "some text"
    return {"schema": s, "groups": G.groups_arg(rng, s),
            "suffix": rng.choice([None, "", "_uq", "_UQ1", "_unique"] + [t["name"][-2:] for t in s["tables"][:1]]), "style": rng.randrange(10 ** 6)}


def gen(rng, tier):
    for _ in range(700 if tier == "quick" else 12000):
        yield gen_case(rng)


def run(case, ctx):
    f = ctx.write("in.json", case["schema"])
    opts = {"input": f, "output": ctx.path("out.sql"), "groups": case["groups"],
            "uniqueNameSuffix": case["suffix"]}
    spec.run(ctx, "export mysql", opts, "mix", random.Random(case["style"]))
    sql = ctx.read("out.sql")
    try:
        got = D.parse_create(sql)
    except D.DdlError as e:
        ctx.fail("exported DDL is not well-formed: %s" % e)
        return
    want = M.in_groups(M.canon(case["schema"])["tables"], case["groups"])
    ctx.same("exported tables", [t["name"] for t in got], [t["name"] for t in want])
    if len(got) != len(want):
        return
    for t, g in zip(want, got):
        if not g["if_not_exists"]:
            ctx.fail("table %s: no IF NOT EXISTS" % t["name"])
        D.compare_table(ctx, t, g, case["suffix"] or "")
        if sum(c["unique"] for c in t["columns"]) > 1:
            ctx.see("unique_multi")
    if got:
        ctx.state(got)

