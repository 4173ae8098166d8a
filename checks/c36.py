import random
from vlib import edits as E, model as M, lq, mysqlddl as D, sqlmig, spec

PROPERTY = "C36"
RULE = ("seeded edit histories (1-9 edits out of 26 kinds, many renames, swaps, twins and near-renames); the outputs of "
        "`diff liquibase` and `diff flyway` are executed on catalogues in which every table and column carries a tag for "
        "the data it holds; afterwards each table and column that kept its name has to hold its own data, each new one "
        "no data or that of a vanished one with the same definition, and the data of a vanished table or column may "
        "only be lost if no new one with the same definition came up empty; distinct = distinct maps from new to old")
ASSUMPTIONS = ["a new column of a kept table that differs from a vanished one in its comment only may be either renamed or "
               "added when comments are not compared"]
FLOOR = {"kept_columns": 8000, "renamed_tables": 200, "renamed_columns": 200, "lost_tables": 100, "lost_columns": 200,
         "ambiguous": 4}


def gen(rng, tier):
    return E.gen_pairs(rng, 900 if tier == "quick" else 12000, fn_any=0, exotic="uni", lines=0.04, avoid=D.RESERVED,
                       edits=E.EDITS + [E.rename_table, E.rename_column, E.rename_twins, E.rename_twin_tables] * 5)


def tag(db):
    for n, t in db.t.items():
        t["uid"] = n
        for c, d in t["columns"].items():
            d["uid"] = (n, c)


def run(case, ctx):
    frm, to = M.canon(case["from"]), M.canon(case["to"])
    suffix = case["suffix"] or ""
    style = random.Random(case["style"])
    opts = E.options(ctx, case, "out.yaml")
    spec.run(ctx, "diff liquibase", opts, "mix", style)
    db = lq.Db(frm["tables"], suffix)
    tag(db)
    try:
        db.run(ctx.read("out.yaml"))
    except lq.LqError as e:
        ctx.fail("the changelog fails: %s" % e)
        return
    seen = [judge(case, ctx, "liquibase", frm, to, db)]
    opts = dict(opts, output=ctx.path("out.sql"))
    spec.run(ctx, "diff flyway", opts, "mix", style)
    db = sqlmig.Db(frm["tables"], suffix)
    tag(db)
    try:
        db.run(ctx.read("out.sql"))
    except (sqlmig.MigError, D.DdlError) as e:
        ctx.fail("the migration fails: %s" % e)
        return
    seen.append(judge(case, ctx, "flyway", frm, to, db))
    ctx.state(seen)


def like(a, b, desc):
    return all(a[k] == b[k] for k in E.ATTR if k != "desc" or desc)


def judge(case, ctx, what, frm, to, db):
    created, kept, dropped = E.scope(frm, to, case["groups"])
    old = {t["name"]: t for t in frm["tables"]}
    new = dict((n["name"], (o, n)) for o, n in kept)
    come, gone = {t["name"]: t for t in created}, {t["name"]: t for t in dropped}
    out = {}
    source = {}
    for n in sorted(db.t):
        t = db.t[n]
        out[n] = t.get("uid")
        if n in old and n not in gone:          # kept, or outside the selected groups
            if t.get("uid") != n:
                ctx.fail("%s: table %s lost its rows (dropped and created again, or replaced by %s)" % (what, n, t.get("uid")))
                continue
            o, w = new.get(n, (old[n], old[n]))
            columns(case, ctx, what, n, o, w, t, out)
        elif n in come and t.get("uid"):
            a = t["uid"]
            source[a] = n
            if a not in gone or not same_columns(gone[a], come[n]):
                ctx.fail("%s: the new table %s was made out of %s, which is %s" %
                         (what, n, a, "another table" if a in gone else "still needed"))
                continue
            ctx.see("renamed_tables")
            for c, d in t["columns"].items():
                ctx.same("%s: data of column %s of renamed table %s" % (what, c, n), d.get("uid"), (a, c))
    for a in gone:
        alike = [b for b in come if same_columns(gone[a], come[b])]
        if len(alike) > 1:
            ctx.see("ambiguous")
        if a in source:
            continue
        ctx.see("lost_tables")
        for b in alike:
            if b in db.t and not db.t[b].get("uid"):
                ctx.fail("%s: the rows of %s are dropped although %s is the same table under a new name" % (what, a, b))
    return out


def same_columns(a, b):
    return a["columns"] == b["columns"]


def columns(case, ctx, what, n, o, w, t, out):
    oc, wc = {c["name"]: c for c in o["columns"]}, {c["name"]: c for c in w["columns"]}
    source = {}
    for c in sorted(t["columns"]):
        uid = t["columns"][c].get("uid")
        out[n + "." + c] = uid
        if c in oc and c in wc:
            ctx.see("kept_columns")
            ctx.same("%s: data of column %s.%s" % (what, n, c), uid, (n, c))
        elif c in wc and uid:
            a = uid[1]
            source[a] = c
            if uid[0] != n or a not in oc or a in wc or not like(oc[a], wc[c], False):
                ctx.fail("%s: the new column %s.%s was made out of %s.%s" % ((what, n, c) + tuple(uid)))
                continue
            ctx.see("renamed_columns")
    for a in oc:
        if a in wc or a in source:
            continue
        ctx.see("lost_columns")
        for b in wc:
            if b not in oc and like(oc[a], wc[b], True) and b in t["columns"] and not t["columns"][b].get("uid"):
                ctx.fail("%s: the data of %s.%s is dropped although %s is the same column under a new name" % (what, n, a, b))
