import copy
import json
import random
import yaml
from vlib import edits as E, gen as G, model as M, spec

PROPERTY = "C28"
RULE = ("seeded schemas diffed against an equivalent rewriting of themselves (table order, type aliases and letter case, "
        "JSON key order and formatting, written-out default values) in all three formats: no difference may be reported; "
        "and seeded pairs of different schemas diffed twice, the second time with both documents rewritten equivalently: "
        "the outputs have to be the same; distinct = distinct schemas/outputs")
FLOOR = {"self_diffs": 900, "pair_diffs": 500, "respelled_types": 1500, "nonempty_pair_diffs": 300}
CMDS = [("diff md", "o.md"), ("diff flyway", "o.sql"), ("diff liquibase", "o.yaml")]


def rewrite(r, s):
    """Another document with the same meaning; (text, number of respelled types)."""
    d = copy.deepcopy(s)
    n = 0
    r.shuffle(d["tables"])
    for t in d["tables"]:
        for c in t["columns"]:
            ct = M.canon_type(c["type"])
            sp = r.choice([a for a, x in M.ALIAS.items() if x == ct] + [ct, ct.upper(), ct.capitalize()])
            n += sp != c["type"]
            c["type"] = sp
            for k, v in (("notnull", False), ("pk", False), ("size", 0), ("desc", ""), ("default", ""),
                         ("unique", False), ("autoinc", False), ("scale", 0)):
                if k not in c and r.random() < 0.1:
                    c[k] = v
    for k in ("author", "name", "version"):
        if k in d and k != "version" and r.random() < 0.3:
            pass

    def shuf(x):
        if isinstance(x, dict):
            ks = list(x)
            r.shuffle(ks)
            return {k: shuf(x[k]) for k in ks}
        return [shuf(y) for y in x] if isinstance(x, list) else x
    return json.dumps(shuf(d), ensure_ascii=r.random() < 0.5, indent=r.choice([None, 1, 4])), n


def gen(rng, tier):
    n = 350 if tier == "quick" else 5000
    for i in range(n):
        r = random.Random(rng.randrange(10 ** 9))
        s = G.schema(r, names=r.choice(["plain", "mixed", "odd"]), max_tables=8, autoinc_bad=0.1, exotic="uni")
        b, k = rewrite(r, s)
        yield {"kind": "self", "a": json.dumps(s), "b": b, "respelled": k, "version": s.get("version", ""),
               "groups": G.groups_arg(r, s), "suffix": r.choice([None, "_uq"]), "comments": r.random() < 0.5,
               "author": r.choice([None, "me"]), "swap": r.random() < 0.5, "style": r.randrange(10 ** 6)}
    for c in E.gen_pairs(rng, n * 5 // 7, exotic="uni"):
        r = random.Random(c["style"])
        c["kind"] = "pair"
        c["from2"], k1 = rewrite(r, c["from"])
        c["to2"], k2 = rewrite(r, c["to"])
        c["respelled"] = k1 + k2
        yield c


def run(case, ctx):
    r = random.Random(case["style"])
    ctx.see("respelled_types", case["respelled"])
    if case["kind"] == "self":
        a, b = ctx.write("a.json", case["a"]), ctx.write("b.json", case["b"])
        if case["swap"]:
            a, b = b, a
        for cmd, out in CMDS:
            spec.run(ctx, cmd, {"from": a, "to": b, "output": ctx.path(out), "groups": case["groups"],
                                "uniqueNameSuffix": case["suffix"], "comments": case["comments"],
                                "author": case["author"]}, "mix", r)
            ctx.see("self_diffs")
        v = case["version"]
        md = [ln for ln in ctx.read("o.md").split("\n") if ln.strip()]
        ctx.same("Markdown diff of equal schemas", md,
                 ["# DB Schema changes", "* from: `%s`" % v, "* to: `%s`" % v])
        ctx.same("Flyway diff of equal schemas", ctx.read("o.sql").strip(), "")
        ctx.same("Liquibase diff of equal schemas", yaml.safe_load(ctx.read("o.yaml")),
                 {"databaseChangeLog": [{"objectQuotingStrategy": "QUOTE_ALL_OBJECTS"}]})
        ctx.state(case["a"])
        return
    one = E.options(ctx, case, "x")
    two = dict(one, **{"from": ctx.write("from2.json", case["from2"]), "to": ctx.write("to2.json", case["to2"])})
    for cmd, out in CMDS:
        spec.run(ctx, cmd, dict(one, output=ctx.path("1" + out)), "mix", r)
        spec.run(ctx, cmd, dict(two, output=ctx.path("2" + out)), "mix", r)
        ctx.see("pair_diffs")
        x, y = ctx.read("1" + out), ctx.read("2" + out)
        if x != y:
            ctx.fail("%s depends on the spelling or order of its inputs:\n%s\n--- and ---\n%s" % (cmd, x[:700], y[:700]))
        if len(x) > 120:
            ctx.see("nonempty_pair_diffs")
        ctx.state(x)
