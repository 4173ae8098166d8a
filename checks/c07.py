import random
from vlib import gen as G, model as M, spec, xlsxio as X

PROPERTY = "C07"
RULE = ("seeded random schemas exported to xlsx (both null-column modes); the workbook is opened by an independent "
        "reader and every sheet, table block, column cell, attribute, reference mark and index row is compared with the "
        "schema; distinct = distinct workbook contents with at least one table")
FLOOR = {"columns_checked": 2000, "refs": 100, "indices": 100, "nullable_mode": 50, "notnull_mode": 50}


def gen(rng, tier):
    for _ in range(700 if tier == "quick" else 8000):
        s = G.schema(rng, max_tables=7, names=rng.choice(["plain", "mixed", "odd"]), refs=0.35, onupdate_p=0.2,
                     exotic=rng.choice(["", "free"]), lines=0.04)
        for t in s["tables"]:
            if t.get("indices") and rng.random() < 0.1:
                rng.choice(t["indices"])["name"] = ""
            for c in t["columns"]:
                if rng.random() < 0.05:
                    c["desc"] = rng.choice(["<b>&amp;</b>", "a\nb", "1", "=1+1", "  padded  ", "O", "\"q\""])
                if rng.random() < 0.05:
                    c["onupdate"] = rng.choice(["x", "1", "fn::NOW"])
        yield {"schema": s, "null": rng.random() < 0.5, "style": rng.randrange(10 ** 6)}


def run(case, ctx):
    f = ctx.write("in.json", case["schema"])
    spec.run(ctx, "export xlsx", {"input": f, "output": ctx.path("o.xlsx"), "useNullColumn": case["null"]},
             "mix", random.Random(case["style"]))
    book = X.read(ctx.read("o.xlsx", True))
    d = M.canon(case["schema"])
    ctx.see("nullable_mode" if case["null"] else "notnull_mode")
    groups = sorted({t["group"] for t in d["tables"]}, key=lambda g: g.encode())
    ctx.same("sheets", [n for n, _ in book], ["Meta"] + [g or "Common" for g in groups])
    sheets = dict(book)
    meta = {(r + ["", ""])[0]: (r + ["", ""])[1] for r in sheets.get("Meta", [])}
    for k in ("author", "name", "version"):
        ctx.same("Meta " + k, meta.get(k), d[k])
    for g in groups:
        rows = sheets.get(g or "Common")
        if rows is None:
            continue
        try:
            blocks = X.parse_group_sheet(rows, "nullable" if case["null"] else "not null")
        except ValueError as e:
            ctx.fail("sheet %s: %s" % (g, e))
            continue
        tabs = [t for t in d["tables"] if t["group"] == g]
        if not ctx.same("tables of sheet %s" % g, [b["name"] for b in blocks], [t["name"] for t in tabs]):
            continue
        for t, b in zip(tabs, blocks):
            check_table(ctx, t, b, case["null"])
    ctx.state(book)


def check_table(ctx, t, b, null):
    p = "table %s " % t["name"]
    ctx.same(p + "desc", b["desc"], t["desc"].strip())
    ctx.same(p + "class", b["attrs"], "class=" + t["className"] if t["className"] else "")
    ctx.same(p + "other cells of the table row", b["rest"], ["", "", ""])
    if ctx.same(p + "columns", [c["name"] for c in b["columns"]], [c["name"] for c in t["columns"]]):
        for c, x in zip(t["columns"], b["columns"]):
            q = p + "column " + c["name"] + " "
            ctx.see("columns_checked")
            ctx.same(q + "type", x["type"], X.type_text(c))
            ctx.same(q + "key", x["key"], "P" if c["pk"] else "U" if c["unique"] else "")
            ctx.same(q + "null cell", x["null"], (not c["notnull"]) if null else c["notnull"])
            ctx.same(q + "desc", x["desc"], c["desc"].strip())
            ref = c["ref"]
            if ref:
                ctx.see("refs")
            ctx.same(q + "ref", x["ref"], "%s%s.%s" % (X.MARK[ref["relationship"]], ref["table"], ref["column"]) if ref else "")
            want = {}
            if c["autoinc"]:
                want["autoinc"] = ""
            if c["default"]:
                want["default"] = c["default"]
            if c["onupdate"]:
                want["onupdate"] = c["onupdate"]
            if "," in c["default"] + c["onupdate"]:
                continue
            ctx.same(q + "attributes", X.attrs(x["attrs"]), want)
    ctx.see("indices", len(t["indices"]))
    merged = {}
    for i in t["indices"]:
        merged.setdefault(i["name"], []).extend(i["columns"])
    ctx.same(p + "indices", list(b["indices"].items()), list(merged.items()))
