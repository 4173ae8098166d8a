import random
from vlib import edits as E, model as M, lq, spec

PROPERTY = "C25"
RULE = ("seeded edit histories (1-9 edits out of 26 kinds over tables, columns, keys, defaults, comments, groups); the "
        "YAML of `diff liquibase` is executed change by change on a strict catalogue in the state of the old schema "
        "(missing tables, columns, keys and constraints are errors), and the resulting catalogue is compared with the "
        "new schema; distinct = distinct changelogs")
ASSUMPTIONS = ["Liquibase has no change that removes auto-increment and none for on-update values or indices of this "
               "tool's schemas: these are not compared", "comments only with --comments",
               "column order is only checked for added columns (afterColumn)"]
FLOOR = {"lq_createTable": 100, "lq_dropTable": 60, "lq_renameTable": 50, "lq_addColumn": 80, "lq_dropColumn": 50,
         "lq_renameColumn": 50, "lq_modifyDataType": 100, "lq_addNotNullConstraint": 40, "lq_dropNotNullConstraint": 20,
         "lq_addDefaultValue": 40, "lq_dropDefaultValue": 30, "lq_addPrimaryKey": 40, "lq_dropPrimaryKey": 30,
         "lq_addUniqueConstraint": 60, "lq_dropUniqueConstraint": 50, "lq_setColumnRemarks": 20,
         "lq_setTableRemarks": 10, "lq_addAutoIncrement": 5}


def gen(rng, tier):
    return E.gen_pairs(rng, 1200 if tier == "quick" else 14000, fn_any=0.05, fn_defaults=("CURRENT_TIMESTAMP", "NOW", "timestamp_of_this_transaction"), exotic="free", lines=0.04)


def run(case, ctx):
    opts = E.options(ctx, case, "out.yaml")
    spec.run(ctx, "diff liquibase", opts, "mix", random.Random(case["style"]))
    text = ctx.read("out.yaml")
    suffix = case["suffix"] or ""
    frm, to = M.canon(case["from"]), M.canon(case["to"])
    created, kept, dropped = E.scope(frm, to, case["groups"])
    db = lq.Db(frm["tables"], suffix)
    try:
        db.run(text, ctx.see)
    except lq.LqError as e:
        ctx.fail("the changelog fails: %s" % e)
        return
    before = lq.Db(frm["tables"], suffix, old=True)
    before.run(text)
    if not case["comments"]:                # no comments: none written, none changed
        ctx.see("no_comments")
        ctx.same("remarks without --comments", lq.remarks(text), [])
    ctx.same("objectQuotingStrategy", db.props, {"objectQuotingStrategy": "QUOTE_ALL_OBJECTS"})
    author = case["author"] or to["author"]
    for a in db.authors:
        ctx.same("changeSet author", a, author)
    # a column that becomes NOT NULL: its empty cells get its default
    for tn, cn, v in db.nullvalues:
        for t in to["tables"]:
            for c in t["columns"]:
                if t["name"] == tn and c["name"] == cn:
                    ctx.see("null_values")
                    ctx.same("value for the empty cells of %s.%s" % (tn, cn), str(v), (c["default"][4:] if c["default"].startswith("fn::") else c["default"]))
    want = {t["name"]: lq.table_state(t, suffix) for t in frm["tables"]}
    for t in dropped:
        del want[t["name"]]
    new = {t["name"]: t for t in created + [n for _, n in kept]}
    for t in new.values():
        want[t["name"]] = lq.table_state(t, suffix)
    old = {t["name"]: t for t in frm["tables"]}
    ctx.same("tables after the changelog", sorted(db.t), sorted(want))
    for n in sorted(set(db.t) & set(want)):
        g, w = db.t[n], want[n]
        pre = "after the changelog, table %s " % n
        ctx.same(pre + "columns", sorted(g["columns"]), sorted(w["columns"]))
        ctx.same(pre + "primary key", sorted(g["pk"]), sorted(w["pk"]))
        ctx.same(pre + "unique constraints", g["uniques"], w["uniques"])
        for c in g["inline_unique"]:
            if frozenset([c]) not in w["uniques"].values():
                ctx.fail(pre + "column %s is unique on its own" % c)
        same_comments = case["comments"] or n not in new
        if same_comments:
            ctx.same(pre + "remarks", g["remarks"], w["remarks"])
        oc = {c["name"]: c for c in old[n]["columns"]} if n in old else {}
        for c in sorted(set(g["columns"]) & set(w["columns"])):
            ctx.see("columns_checked")
            gc, wc = g["columns"][c], w["columns"][c]
            ctx.same(pre + "column %s type" % c, gc["type"], wc["type"])
            # a default whose text stays the same while the type changes need not be set again (0 -> false)
            kept_default = c in oc and n in new and oc[c]["default"] and \
                oc[c]["default"] == next(x for x in new[n]["columns"] if x["name"] == c)["default"] and \
                gc["default"] == lq.table_state(old[n], suffix)["columns"][c]["default"]
            if not kept_default:
                ctx.same(pre + "column %s default" % c, gc["default"], wc["default"])
            if c not in w["pk"]:
                # a column that left the primary key: the flag of the schema decides, but the key implied NOT NULL
                if not (c in oc and oc[c]["pk"]):
                    ctx.same(pre + "column %s notnull" % c, gc["notnull"], wc["notnull"])
                    ctx.same(pre + "column %s notnull (before Liquibase 4)" % c,
                             before.t[n]["columns"][c]["notnull"], wc["notnull"])
            if wc["autoinc"] or n not in old:
                ctx.same(pre + "column %s autoinc" % c, gc["autoinc"], wc["autoinc"])
            elif gc["autoinc"] and not (c in oc and oc[c]["autoinc"]):
                ctx.fail(pre + "column %s became auto-increment" % c)
            if same_comments:
                ctx.same(pre + "column %s remarks" % c, gc["remarks"], wc["remarks"])
        # added columns stand behind the column that precedes them in the new schema
        if n in new:
            order = w["order"]
            for i, c in enumerate(order):
                if i and c not in oc and n in old and order[i - 1] in g["order"] and c in g["order"] \
                        and c not in [b for _, b in renames(old[n], new[n])]:
                    ctx.see("positions_checked")
                    ctx.same(pre + "column before %s" % c, after(g["order"], c, oc, order), order[i - 1])
    ctx.state(text)


def after(order, c, oc, want):
    return order[order.index(c) - 1] if order.index(c) else None


def renames(o, n):
    on, nn = {c["name"] for c in o["columns"]}, {c["name"] for c in n["columns"]}
    gone = [c for c in o["columns"] if c["name"] not in nn]
    come = [c for c in n["columns"] if c["name"] not in on]
    key = lambda c: [c[k] for k in ("type", "size", "scale", "notnull", "pk", "unique", "autoinc", "default",
                                    "onupdate", "values")]
    return [(a["name"], b["name"]) for a in gone for b in come if key(a) == key(b)]
