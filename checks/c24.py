import random
from vlib import gen as G, model as M, lq, spec

PROPERTY = "C24"
RULE = ("seeded random schemas exported with random --groups/--uniqueNameSuffix/--comments; the changelog is executed "
        "change by change on an empty strict catalogue (ids, authors, attribute types, unknown names are checked), and "
        "the catalogue is compared with the schema; distinct = distinct changelogs creating a table")
ASSUMPTIONS = ["indices and on-update values are not part of the changelog"]
FLOOR = {"columns_checked": 4000, "lq_addPrimaryKey": 100, "lq_addUniqueConstraint": 300, "inline_pk": 300,
         "def_computed": 20, "def_boolean": 20, "def_numeric": 200, "def_date": 20, "def_value": 100}

NASTY = ["yes", "no", "on", "off", "null", "~", "true", "1e3", "0x10", "012", "2020-01-01", "a: b", "# c", "- d", "[x]", "{y}",
         "it's", "say \"hi\"", "back\\slash", "tab\there", "line\nbreak", "!tag", "&a", "*b", "%p", "@q", "`r", "a #b",
         " lead", "trail ", "1_000", "12:30", ".inf", "?", "é"]


def gen(rng, tier):
    for _ in range(800 if tier == "quick" else 12000):
        s = G.schema(rng, fn_any=0.05, fn_defaults=("CURRENT_TIMESTAMP", "NOW", "timestamp_of_this_transaction"), names=rng.choice(["plain", "mixed", "odd"]), max_tables=7, default_p=0.45, reserved=0.03,
                     exotic=rng.choice(["", "free"]), lines=0.04)
        for t in s["tables"]:
            if rng.random() < 0.15:
                t["desc"] = rng.choice(NASTY)
            for c in t["columns"]:
                ct = M.canon_type(c["type"])
                if rng.random() < 0.1:
                    c["desc"] = rng.choice(NASTY)
                if ct in ("varchar", "char") and not c.get("autoinc") and rng.random() < 0.15:
                    c["default"] = rng.choice(NASTY)
                if ct in M.INTS and c.get("default") and rng.random() < 0.1:
                    c["default"] = rng.choice(["007", "010", "-08", "0100"])
                if ct in ("enum", "set") and rng.random() < 0.2 and len(c["values"]) < 64:
                    c["values"] = c["values"] + [rng.choice(["it's", "'70s-'80s", "a,b", "é", "x y", "\"q\""])]
        yield {"schema": s, "groups": G.groups_arg(rng, s), "suffix": rng.choice([None, "", "_uq", "_UQ1"] + [t["name"][-2:] for t in s["tables"][:1]]),
               "comments": rng.random() < 0.5, "style": rng.randrange(10 ** 6)}


def run(case, ctx):
    opts = {"input": ctx.write("in.json", case["schema"]), "output": ctx.path("out.yaml"), "groups": case["groups"],
            "uniqueNameSuffix": case["suffix"], "comments": case["comments"]}
    spec.run(ctx, "generate liquibase", opts, "mix", random.Random(case["style"]))
    text = ctx.read("out.yaml")
    db = lq.Db()
    try:
        db.run(text, ctx.see)
    except lq.LqError as e:
        ctx.fail("the changelog fails: %s" % e)
        return
    for tn, c in db.unguarded:
        ctx.fail("table %s: column %s is unique already, and adding its named constraint is not limited to the "
                 "databases that take it twice" % (tn, c))
    for tn, c in db.partial:
        ctx.fail("table %s: only some databases make %s unique" % (tn, c))
    sch = M.canon(case["schema"])
    suffix = case["suffix"] or ""
    want = {t["name"]: lq.table_state(t, suffix) for t in M.in_groups(sch["tables"], case["groups"])}
    ctx.same("created tables", list(db.t), list(want))
    ctx.same("objectQuotingStrategy", db.props, {"objectQuotingStrategy": "QUOTE_ALL_OBJECTS"})
    for a in db.authors:
        ctx.same("changeSet author", a, sch["author"])
    for n in sorted(set(want) & set(db.t)):
        g, w = db.t[n], want[n]
        pre = "table %s " % n
        ctx.same(pre + "column order", g["order"], w["order"])
        ctx.same(pre + "primary key", sorted(g["pk"]), sorted(w["pk"]))
        ctx.same(pre + "unique constraints", g["uniques"], w["uniques"])
        for c in g["inline_unique"]:
            if frozenset([c]) not in w["uniques"].values():
                ctx.fail(pre + "column %s is unique on its own" % c)
        ctx.same(pre + "remarks", g["remarks"], w["remarks"])
        ctx.see("inline_pk", 1 if len(w["pk"]) == 1 else 0)
        for c in sorted(set(g["columns"]) & set(w["columns"])):
            ctx.see("columns_checked")
            gc, wc = dict(g["columns"][c]), dict(w["columns"][c])
            if not case["comments"]:
                wc["remarks"] = ""
            if wc["default"]:
                ctx.see("def_" + wc["default"][0])
            for k in wc:
                ctx.same(pre + "column %s %s" % (c, k), gc[k], wc[k])
    if want:
        ctx.state(text)
