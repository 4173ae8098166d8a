import os
import random
import re
from vlib import cmds as C, edits as E, gen as G, gorm as R, kotlin as K, lq, model as M, mysqlddl as D, naming
from vlib import spec, sqla, sqlmig

PROPERTY = "C34"
RULE = ("seeded schemas and edit histories with none, single, several and all-unique tables, given to every command that "
        "knows uniqueNameSuffix (mysql export, gorm, kt, liquibase, sqlalchemy, both diffs) with one suffix each way an "
        "option can be given; the names and column sets of the unique constraints read from each output are compared "
        "with each other and with the schema; then the database created by the exported DDL (the generated changelog) "
        "is migrated with the diff commands and its constraints compared with those of a database created afresh; "
        "distinct = distinct constraint maps")
FLOOR = {"constraints": 600, "multi_column": 250, "suffixed": 450, "formats": 3000, "flyway_chains": 250,
         "liquibase_chains": 250, "chain_uniques": 800, "constraints_changed": 150, "tables_renamed": 20}
ASSUMPTIONS = ["a single unique column is `unique` in GORM and unique=True in SQLAlchemy: no constraint is named there",
               "the changelog of a table with one unique column also marks the column unique inline (documented output)"]
prepare = R.prepare
SUFFIX = [None, None, "", "_uq", "_UQ1", "_u", "uq", "-u", "_고유", "_unique_key", "."]


def gen(rng, tier):
    for i in range(700 if tier == "quick" else 6000):
        s, d, done = E.pair(rng, names=rng.choice(["plain", "mixed"]), fn_any=0, unique_p=rng.choice([0.1, 0.3, 0.6, 0.95]),
                            max_cols=6, class_name=0.0, avoid=D.RESERVED)
        # a suffix that a table name already ends in is appended all the same
        ends = [t["name"][-rng.choice([1, 2, 3]):] for t in d["tables"]]
        yield {"from": s, "to": d, "suffix": rng.choice(SUFFIX + ends[:2]), "other": rng.choice(SUFFIX[2:]),
               "groups": G.groups_arg(rng, d), "style": rng.randrange(10 ** 6)}


def want_of(ts, suffix):
    """{table: (name, set of columns)}"""
    out = {}
    for t in ts:
        u = [c["name"] for c in t["columns"] if c["unique"]]
        if u:
            out[t["name"]] = (t["name"] + suffix, sorted(u))
    return out


def run(case, ctx):
    r = random.Random(case["style"])
    suffix = case["suffix"] or ""
    f, g = ctx.write("from.json", case["from"]), ctx.write("to.json", case["to"])
    s = M.canon(case["to"])
    ts = M.in_groups(s["tables"], case["groups"])
    want = want_of(ts, suffix)
    several = {t: w for t, w in want.items() if len(w[1]) > 1}
    ctx.see("constraints", len(want))
    ctx.see("multi_column", len(several))
    ctx.see("suffixed", len(want) if suffix else 0)
    got = {}
    o = {"groups": case["groups"], "uniqueNameSuffix": case["suffix"]}
    if not case.get("known"):
        for fmt in (mysql, gorm, kt, liquibase, sqlalchemy):
            ctx.see("formats")
            got[fmt.__name__] = fmt(ctx, r, g, dict(o), ts)
        for k, v in got.items():
            # with one column these two formats mark the column and name no constraint
            ctx.same("%s unique constraints with suffix %r" % (k, case["suffix"]), v,
                     several if k in ("gorm", "sqlalchemy") else want)
        ctx.state(got)
    flyway(case, ctx, r, f, g, suffix)
    liquidiff(case, ctx, r, f, g, suffix)


def add(out, table, name, cols):
    if table in out:
        out[table] = "several: %r and %r" % (out[table], name)
    else:
        out[table] = (name, sorted(cols))


def mysql(ctx, r, f, o, ts):
    spec.run(ctx, "export mysql", dict(o, input=f, output=ctx.path("o.sql")), "mix", r)
    out = {}
    for t in D.parse_create(ctx.read("o.sql")):
        for u in t["uniques"]:
            add(out, t["name"], u["name"], u["columns"])
    return out


def gorm(ctx, r, f, o, ts):
    spec.run(ctx, "generate gorm", dict(o, input=f, output=ctx.path("m.go"), embed="gorm.Model:"), "mix", r)
    d = R.read_go(ctx.path("m.go"))
    out = {}
    byname = {naming.class_name(t): t for t in ts}
    for st in d["structs"]:
        t = byname.get(st["name"])
        if t is None:
            continue
        cols, names = [], []
        for fl in st["fields"]:
            for p in R.tag_parts(fl["tag"]):
                m = re.match(r"unique_index:(.*)$", p)
                if m:
                    names.append(m.group(1))
                    cols.append(fl["name"])
        for n in sorted(set(names)):
            fields = {R.field_name(c["name"]): c["name"] for c in t["columns"]}
            add(out, t["name"], n, [fields.get(c, c) for c, m in zip(cols, names) if m == n])
    return out


def kt(ctx, r, f, o, ts):
    spec.run(ctx, "generate kt", dict(o, input=f, output=ctx.path("kt")), "mix", r)
    out = {}
    byname = {naming.class_name(t): t["name"] for t in ts}
    for d, _, files in os.walk(ctx.path("kt")):
        for x in files:
            with open(os.path.join(d, x), encoding="utf8") as h:
                doc = K.parse(h.read())
            cls = doc["decls"][0]
            for a, args in cls["annotations"]:
                if a == "Table":
                    args = dict(args)
                    for u in (args.get("uniqueConstraints") or []):
                        u = dict(u[2])
                        add(out, byname.get(cls["name"], cls["name"]), u["name"][1], [c[1] for c in u["columnNames"]])
    return out


def liquibase(ctx, r, f, o, ts):
    spec.run(ctx, "generate liquibase", dict(o, input=f, output=ctx.path("o.yaml")), "mix", r)
    db = lq.Db()
    db.run(ctx.read("o.yaml"))
    out = {}
    for n, t in db.t.items():
        for u, cols in t["uniques"].items():
            add(out, n, u, cols)
    return out


def sqlalchemy(ctx, r, f, o, ts):
    spec.run(ctx, "generate sqlalchemy", dict(o, input=f, output=ctx.path("m.py")), "mix", r)
    out = {}
    for m in sqla.run(ctx.read("m.py"))[0]:
        for n, cols in m["unique"]:
            add(out, m["table"], n, cols)
    return out


def uniques(db):
    return {n: {u: sorted(c) for u, c in t["uniques"].items()} for n, t in db.t.items() if t["uniques"]}


def expected(doc, suffix):
    return {t: {n: c} for t, (n, c) in want_of(M.canon(doc)["tables"], suffix).items()}


def flyway(case, ctx, r, f, g, suffix):
    """The script works on the database the exported DDL made, under the names used there."""
    if case.get("known"):
        return
    o = {"uniqueNameSuffix": case["suffix"]}
    spec.run(ctx, "export mysql", dict(o, input=f, output=ctx.path("from.sql")), "mix", r)
    spec.run(ctx, "export mysql", dict(o, input=g, output=ctx.path("to.sql")), "mix", r)
    spec.run(ctx, "diff flyway", dict(o, **{"from": f, "to": g, "output": ctx.path("mig.sql")}), "mix", r)
    db, ref = sqlmig.Db([], suffix), sqlmig.Db([], suffix)
    ref.run(ctx.read("to.sql"))
    try:
        db.run(ctx.read("from.sql"))
        before = uniques(db)
        db.run(ctx.read("mig.sql"))
    except (sqlmig.MigError, D.DdlError) as e:
        ctx.fail("diff flyway does not fit the database of export mysql: %s" % e)
        return
    ctx.see("flyway_chains")
    ctx.see("chain_uniques", len(uniques(db)))
    ctx.see("constraints_changed", before != uniques(db))
    ctx.see("tables_renamed", len(re.findall(r"RENAME", ctx.read("mig.sql"))))
    ctx.same("unique keys after export mysql and diff flyway (suffix %r)" % case["suffix"], uniques(db), uniques(ref))
    # the same constraints under another suffix: the names of one suffix appear nowhere in the script of another
    o2 = {"uniqueNameSuffix": case["other"]}
    spec.run(ctx, "diff flyway", dict(o2, **{"from": f, "to": g, "output": ctx.path("m2.sql")}), "mix", r)
    d2 = sqlmig.Db(M.canon(case["from"])["tables"], case["other"])
    try:
        d2.run(ctx.read("m2.sql"))
    except (sqlmig.MigError, D.DdlError) as e:
        ctx.fail("diff flyway with suffix %r: %s" % (case["other"], e))
        return
    ctx.same("unique keys after diff flyway (suffix %r)" % case["other"], uniques(d2), expected(case["to"], case["other"]))


def liquidiff(case, ctx, r, f, g, suffix):
    o = {"uniqueNameSuffix": case["suffix"]}
    spec.run(ctx, "generate liquibase", dict(o, input=f, output=ctx.path("from.yaml")), "mix", r)
    spec.run(ctx, "generate liquibase", dict(o, input=g, output=ctx.path("to.yaml")), "mix", r)
    spec.run(ctx, "diff liquibase", dict(o, **{"from": f, "to": g, "output": ctx.path("mig.yaml")}), "mix", r)
    db, ref = lq.Db(), lq.Db()
    ref.run(ctx.read("to.yaml"))
    db.run(ctx.read("from.yaml"))
    inline = {n: set(t["inline_unique"]) for n, t in db.t.items()}
    single = {n for n, (_, c) in want_of(M.canon(case["from"])["tables"], suffix).items() if len(c) == 1}
    ctx.same("tables with an inline unique column", sorted(n for n in inline if inline[n] and n not in single), [])
    if not case.get("known"):   # listed finding: these outlive the named constraint
        for x in db.t.values():
            ctx.see("inline_uniques", len(x["inline_unique"]))
            x["inline_unique"] = set()
    db.ids = []         # another file: ids are per changelog
    try:
        db.run(ctx.read("mig.yaml"))
    except lq.LqError as e:
        ctx.fail("diff liquibase does not fit the database of generate liquibase: %s" % e)
        return
    ctx.see("liquibase_chains")
    ctx.same("unique constraints after generate liquibase and diff liquibase (suffix %r)" % case["suffix"],
             uniques(db), uniques(ref))
    for n, t in db.t.items():
        for c in t["inline_unique"]:
            if [c] not in uniques(db).get(n, {}).values():
                ctx.fail("table %s: column %s stays unique through the unnamed inline constraint after its named "
                         "constraint was dropped" % (n, c))
