import json
import random
from vlib import gen as G, model as M, spec, strcase, xlsxio as X

PROPERTY = "C08"
RULE = ("seeded random workbooks written by an independent xlsx writer after docs/xlsx.md (shared/inline strings, sparse "
        "rows, nullable / not null header, type aliases and sizes, P/U/I keys, > < - reference marks, attributes in any "
        "order and spacing, blank and stray rows, several sheets); the imported document is compared with what the "
        "workbook states; distinct = distinct imported documents")
FLOOR = {"columns_checked": 3000, "refs": 300, "index_rows": 300, "nullable_mode": 50, "notnull_mode": 50, "sized": 300}
TYPES = tuple(t for t in M.CANON if t not in ("enum", "set"))


def gen(rng, tier):
    for _ in range(700 if tier == "quick" else 9000):
        yield make(rng)


def make(r):
    g = G.Gen(r, names=r.choice(["plain", "mixed", "odd"]), types=TYPES, commas=False, alias=0.3, casevar=0.2, refs=0.35, exotic=r.choice(["", "free"]), lines=0.04,
              onupdate_p=0.2, max_tables=6, autoinc_bad=0.1, group_pool=None)
    s = g.schema()
    for t in s["tables"]:
        for x in [t] + t["columns"]:
            if x.get("desc"):       # XML reads every line end as \n
                x["desc"] = x["desc"].replace("\r\n", "\n").replace("\r", "\n")
        t["group"] = t.get("group") or r.choice(["Common", "Sheet1", "한글"])
        for i, ix in enumerate(t.get("indices", [])):
            ix["name"] = "ix%d_%s" % (i, t["name"]) if i or r.random() < 0.8 else r.choice([ix["columns"][0], t["name"]])
        for c in t["columns"]:
            if c.get("unique") and c.get("pk"):
                del c["unique"]
            if "ref" in c:
                c["ref"].setdefault("relationship", "")
                if c["ref"]["table"][0] in "-<>":       # without a mark its first letter would be one
                    c["ref"]["relationship"] = c["ref"]["relationship"] or "n:1"
            # sizes beyond what the type needs are still what the sheet says
            if r.random() < 0.1:
                c["size"] = r.choice([1, 9, 10, 99, 100, 255, 256, 1000, 65535, 65536, 99999, 1000000])
                if r.random() < 0.3:
                    c["scale"] = r.choice([1, 2, 10, 12])
            if "scale" in c and "size" not in c:
                del c["scale"]
    null0 = r.random() < 0.5
    groups = []
    for t in s["tables"]:
        if t["group"] not in groups:
            groups.append(t["group"])
    sheets = []
    for grp in groups:
        null = null0 != (r.random() < 0.15)     # each sheet states its own mode
        hdr = ["table/ref.", "column", "type", "key", "nullable" if null else "not null", "attributes", "description"]
        if r.random() < 0.1:
            hdr[4] = " %s " % hdr[4]
        extra = r.random() < 0.1        # remarks to the right of the seven columns are nobody's business
        if extra:
            hdr.append(r.choice(["remarks", "not null", "nullable"]))
        rows = [hdr]
        if r.random() < 0.1:
            rows.append(["", "stray", "int32"])
        for t in s["tables"]:
            if t["group"] != grp:
                continue
            for _ in range(r.choice([0, 0, 1, 1, 2])):
                rows.append([])
            a = "class=" + t["className"] if t.get("className") else ""
            rows.append([t["name"], "", "table", "", "", a, t.get("desc", "")])
            for c in t["columns"]:
                rows.append(colrow(r, c, null))
                if extra and len(rows[-1]) == 7 and r.random() < 0.5:
                    rows[-1].append(r.choice(["O", "x", "to do", "default=1"]))
                if r.random() < 0.03:
                    rows.append(["", "", "", "", "", "", "a note without a column name"])
            ixrows = [(i, col) for i, ix in enumerate(t.get("indices", [])) for col in ix["columns"]]
            if r.random() < 0.3 and ixrows:       # same index names combine, whatever the row order
                keyed = [(r.random(), x) for x in ixrows]
                per = {}
                for x in ixrows:
                    per.setdefault(x[0], []).append(x)
                order = []
                while any(per.values()):
                    k = r.choice([k for k in per if per[k]])
                    order.append(per[k].pop(0))
                ixrows = order
                names = []
                for i, _c in ixrows:
                    if i not in names:
                        names.append(i)
                t["indices"] = [t["indices"][i] for i in names]
                remap = {i: n for n, i in enumerate(names)}
                ixrows = [(remap[i], c) for i, c in ixrows]
            for i, col in ixrows:
                rows.append([t["indices"][i]["name"], col, "", "I"])
        sheets.append((grp, rows))
    if r.random() < 0.8:
        meta = [[k, s[k]] for k in ("author", "name", "version") if k in s]
        r.shuffle(meta)
        if r.random() < 0.2:
            meta.append(["other", "x"])
        sheets.insert(r.choice([0, 0, len(sheets)]), ("Meta", meta))
    else:
        for k in ("author", "name", "version"):
            s.pop(k, None)
    return {"sheets": sheets, "schema": s, "null": null0, "inline": r.random() < 0.2, "sparse": r.random() < 0.6,
            "style": r.randrange(10 ** 6)}


def colrow(r, c, null):
    ref = ""
    if "ref" in c:
        ref = X.MARK[c["ref"]["relationship"]] + c["ref"]["table"] + "." + c["ref"]["column"]
    ty = c["type"]
    if c.get("size"):
        ty += "(%d)" % c["size"] if not c.get("scale") else r.choice(["(%d,%d)", "(%d, %d)"]) % (c["size"], c["scale"])
    at = []
    if c.get("autoinc"):
        at.append(r.choice(["autoinc", "autoInc"]))
    if c.get("default"):
        at.append("default=" + c["default"])
    if c.get("onupdate"):
        at.append("onUpdate=" + c["onupdate"])
    r.shuffle(at)
    mark = c.get("notnull", False) != null
    pad = r.choice(["", "", "", " "])
    return [ref, c["name"] + pad, pad + ty, "P" if c.get("pk") else "U" if c.get("unique") else "",
            r.choice(["O", "O", "O", "o", " O "]) if mark else r.choice(["", "", "", " "]), r.choice([",", ", ", " , "]).join(at), c.get("desc", "")]


def run(case, ctx):
    f = ctx.write("in.xlsx", X.write([(n, rows) for n, rows in case["sheets"]], case["inline"], case["sparse"]))
    spec.run(ctx, "import xlsx", {"input": f, "output": ctx.path("o.json")}, "mix", random.Random(case["style"]))
    got = M.canon(json.loads(ctx.read("o.json")))
    want = M.canon(case["schema"])
    ctx.see("nullable_mode" if case["null"] else "notnull_mode")
    for t in want["tables"]:
        ctx.see("columns_checked", len(t["columns"]))
        ctx.see("index_rows", sum(len(i["columns"]) for i in t["indices"]))
        for c in t["columns"]:
            if c["size"]:
                ctx.see("sized")
            if c["ref"]:
                ctx.see("refs")
                c["ref"]["relationship"] = c["ref"]["relationship"] or "n:1"
    for p in M.diff_docs(got, want):
        ctx.fail("imported " + p)
    ctx.state(got)
