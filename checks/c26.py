import random
from vlib import edits as E, model as M, mysqlddl as D, sqlmig, spec

PROPERTY = "C26"
RULE = ("seeded edit histories (1-9 edits out of 26 kinds: tables and columns added, dropped, renamed, swapped, types, "
        "sizes, values, nullability, defaults, on-update, comments, unique sets, primary keys, auto-increment, groups, "
        "order); the SQL of `diff flyway` is executed statement by statement on a strict catalogue in the state of the "
        "old schema, and the resulting catalogue is compared with the new schema; distinct = distinct SQL scripts")
ASSUMPTIONS = ["identifiers are plain names; an auto-increment column is part of the primary key (MySQL requires a key)",
               "indices, references and column order are not part of a diff; comments only with --comments; the comment "
               "of a created table is not written (as by export mysql)"]
FLOOR = {"sql_create_table": 100, "sql_drop_table": 60, "sql_rename_table": 25, "sql_modify_column": 200,
         "sql_add_column": 80, "sql_drop_column": 50, "sql_change_column": 50, "sql_add_pk": 40, "sql_drop_pk": 30,
         "sql_add_unique": 60, "sql_drop_index": 50, "sql_table_comment": 20}


def gen(rng, tier):
    return E.gen_pairs(rng, 1100 if tier == "quick" else 14000, fn_any=0, exotic="uni", lines=0.04, avoid=D.RESERVED)


def run(case, ctx):
    opts = E.options(ctx, case, "out.sql")
    spec.run(ctx, "diff flyway", opts, "mix", random.Random(case["style"]))
    sql = ctx.read("out.sql")
    suffix = case["suffix"] or ""
    frm, to = M.canon(case["from"]), M.canon(case["to"])
    created, kept, dropped = E.scope(frm, to, case["groups"])
    db = sqlmig.Db(frm["tables"], suffix)
    try:
        db.run(sql, ctx.see)
    except (sqlmig.MigError, D.DdlError) as e:
        ctx.fail("the migration fails: %s" % e)
        return
    want = {t["name"]: sqlmig.table_state(t, suffix) for t in frm["tables"]}
    for t in dropped:
        del want[t["name"]]
    touched = set()
    for t in created + [n for _, n in kept]:
        want[t["name"]] = sqlmig.table_state(t, suffix)
        touched.add(t["name"])
    ctx.same("tables after the migration", sorted(db.t), sorted(want))
    for n in sorted(set(db.t) & set(want)):
        g, w = db.t[n], want[n]
        pre = "after the migration, table %s " % n
        ctx.same(pre + "columns", sorted(g["columns"]), sorted(w["columns"]))
        ctx.same(pre + "primary key", sorted(g["pk"]), sorted(w["pk"]))
        ctx.same(pre + "unique keys", g["uniques"], w["uniques"])
        if (case["comments"] or n not in touched) and not g["created"]:
            ctx.same(pre + "comment", g["comment"], w["comment"])
        for c in sorted(set(g["columns"]) & set(w["columns"])):
            ctx.see("columns_checked")
            for k in w["columns"][c]:
                if k == "comment" and not (case["comments"] or n not in touched):
                    continue
                ctx.same(pre + "column %s %s" % (c, k), g["columns"][c][k], w["columns"][c][k])
    ctx.state(sql)
