import random
from vlib import edits as E, gen as G, lq, model as M, mysqlddl as D, spec, sqlmig

PROPERTY = "C37"
RULE = ("seeded histories of 3-6 versions of a schema (1-9 edits out of 26 kinds between two of them); one database is created "
        "by the DDL (the changelog) generated from the first version and migrated by the outputs of `diff flyway` (`diff "
        "liquibase`) between neighbouring versions, a second one is created from what is generated from the last version, a "
        "third one skips the versions in between; all statements run on strict catalogues and the three have to be the "
        "same; distinct = distinct final catalogues")
ASSUMPTIONS = ["comments of tables are no part of the exported DDL and are left out; Liquibase does not remove auto-increment, "
               "NOT NULL of a former key column, or the unnamed inline constraint (known finding liquibase-inline-unique)",
               "after a change of its type a column may keep a default value whose text did not change (Liquibase)"]
FLOOR = {"sql_steps": 900, "lq_steps": 900, "columns_checked": 8000, "defaults_checked": 800}


def gen(rng, tier):
    for _ in range(250 if tier == "quick" else 3000):
        g = G.Gen(rng, names=rng.choice(["plain", "mixed"]), fn_any=0, exotic="uni", lines=0.04, avoid=D.RESERVED, autoinc_bad=0,
                  max_tables=5)
        docs = [g.schema()]
        for _ in range(rng.choice([2, 3, 3, 4, 5])):
            docs[-1], b, _ = E.evolve(rng, g, docs[-1])
            docs.append(b)
        yield {"docs": docs, "suffix": rng.choice([None, "_uq", "_UQ1"]), "comments": rng.random() < 0.6,
               "style": rng.randrange(10 ** 6)}


def mark(db):
    for t in db.t.values():
        for c, d in t["columns"].items():
            if c in t["pk"]:
                d["was_pk"] = True
            if d["autoinc"]:
                d["was_ai"] = True
            ty = d.get("type") or [d.get("base"), d.get("args")]
            if d.setdefault("first_type", ty) != ty:
                d["retyped"] = True


def run(case, ctx):
    r = random.Random(case["style"])
    files = [ctx.write("v%d.json" % i, d) for i, d in enumerate(case["docs"])]
    for what, create, diff, new in (("flyway", "export mysql", "diff flyway", lambda: sqlmig.Db([], case["suffix"] or "")),
                                    ("liquibase", "generate liquibase", "diff liquibase",
                                     lambda: lq.Db([], case["suffix"] or ""))):
        ext = ".sql" if what == "flyway" else ".yaml"

        def make(i, name):
            o = {"input": files[i], "output": ctx.path(name + ext), "uniqueNameSuffix": case["suffix"]}
            if what == "liquibase":
                o["comments"] = case["comments"]
            spec.run(ctx, create, o, "mix", r)
            return ctx.read(name + ext)

        def step(a, b, name):
            spec.run(ctx, diff, {"from": files[a], "to": files[b], "output": ctx.path(name + ext),
                                 "uniqueNameSuffix": case["suffix"], "comments": case["comments"]}, "mix", r)
            ctx.see("sql_steps" if what == "flyway" else "lq_steps")
            return ctx.read(name + ext)
        last = len(files) - 1
        dbs = {}
        where = ""
        try:
            db = dbs["migrated step by step"] = new()
            where = "creating version 0"
            db.run(make(0, "create0"))
            mark(db)
            for i in range(last):
                where = "migrating version %d to %d" % (i, i + 1)
                restart(db)
                db.run(step(i, i + 1, "step%d" % i))
                mark(db)
            db = dbs["migrated at once"] = new()
            db.run(make(0, "create0b"))
            mark(db)
            where = "migrating version 0 to %d" % last
            restart(db)
            db.run(step(0, last, "direct"))
            mark(db)
            where = "creating the last version"
            fresh = new()
            fresh.run(make(last, "fresh"))
        except (lq.LqError, sqlmig.MigError, D.DdlError) as e:
            ctx.fail("%s: %s fails: %s" % (what, where, e))
            continue
        for how, db in dbs.items():
            compare(case, ctx, "%s, %s: " % (what, how), what, db, fresh)
        ctx.state([[n, sorted(t["columns"]), sorted(t["pk"])] for n, t in sorted(fresh.t.items())])


def restart(db):
    """Every changelog counts its change sets from one; they are kept apart by their file."""
    if hasattr(db, "ids"):
        db.ids = []


def compare(case, ctx, pre, what, db, fresh):
    if not ctx.same(pre + "tables", sorted(db.t), sorted(fresh.t)):
        return
    for n in sorted(db.t):
        g, w = db.t[n], fresh.t[n]
        p = pre + "table %s " % n
        ctx.same(p + "columns", sorted(g["columns"]), sorted(w["columns"]))
        ctx.same(p + "primary key", sorted(g["pk"]), sorted(w["pk"]))
        ctx.same(p + "unique constraints", {k: sorted(v) for k, v in g["uniques"].items()},
                 {k: sorted(v) for k, v in w["uniques"].items()})
        if what == "liquibase" and case["comments"]:
            ctx.same(p + "remarks", g["remarks"], w["remarks"])
        for c in sorted(set(g["columns"]) & set(w["columns"])):
            ctx.see("columns_checked")
            a, b = g["columns"][c], w["columns"][c]
            skip = set() if case["comments"] else {"remarks", "comment"}
            if what == "liquibase":
                if a.get("was_pk"):
                    skip.add("notnull")
                if a.get("was_ai") and not b["autoinc"]:
                    skip.add("autoinc")
                if a.get("retyped"):
                    skip.add("default")
            for k in b:
                if k not in skip:
                    ctx.same(p + "column %s %s" % (c, k), a[k], b[k])
                    if k == "default" and b[k]:
                        ctx.see("defaults_checked")
