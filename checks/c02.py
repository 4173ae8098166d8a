import json
import os
import random
from vlib import cmds as C, damage as D, gen as G, imports as I, spec, xlsxio as X

PROPERTY = "C02"
RULE = ("a valid input of every command (both sides of a diff, every import format) is damaged in one place - JSON syntax, "
        "truncation, value kinds, unknown, missing or null types, nameless columns, enum/set values, null tables, columns "
        "and indices, DDL syntax, workbook parts, a missing file, a directory, another file type - in selected and "
        "unselected groups, over fresh and existing outputs; the command has to end with a nonzero status and a message, "
        "without a crash, and no file may have been written or changed; the undamaged control has to succeed; "
        "distinct = distinct (command, damage, message) observed")
FLOOR = {"refused": 3500, "json": 400, "value": 1000, "top": 80, "sql": 150, "xlsx": 150, "path": 300, "controls": 500,
         "over_existing": 1200, "unselected_group": 100, "second_side": 150}
ASSUMPTIONS = ["unknown keys, and null for a single optional value, are tolerated: they leave a valid schema",
               "empty directories may be left behind; only files count as output",
               "a worksheet part missing from the archive is skipped by the spreadsheet library, like a chart sheet"]


def gen(rng, tier):
    n = 90 if tier == "quick" else 1000
    for _ in range(n):
        s = G.schema(rng, names=rng.choice(["plain", "mixed"]), max_tables=4, refs=0.2, min_cols=1)
        s2 = G.schema(rng, names="plain", max_tables=3, refs=0.0)
        jobs = []
        for cmd in C.SINGLE + C.DIFF:
            if cmd == "generate graphql":
                o = {}
            else:
                o = C.options(rng, cmd, s)
                o.pop("embed", None)
                o.pop("relation", None)
            for _ in range(4 if cmd in C.DIFF else 3):
                jobs.append(one(rng, cmd, s, s2, o))
        for cmd in I.CMDS:
            imp = I.make(rng, cmd)
            for _ in range(5):
                jobs.append(one_import(rng, cmd, imp))
        yield {"jobs": jobs, "schema": s, "second": s2, "style": rng.randrange(10 ** 6)}


def path_kind(rng):
    return rng.choice(["missing", "directory", "extension", "noext", "empty name"])


def one(rng, cmd, s, s2, o):
    j = {"cmd": cmd, "opts": o, "out": C.outname(rng, cmd), "exists": rng.random() < 0.5,
         "side": rng.choice([0, 1]) if cmd in C.DIFF else 0, "control": rng.random() < 0.3}
    if rng.random() < 0.12:
        return dict(j, kind="path:" + path_kind(rng))
    kind, b = D.schema(rng, s)
    j["groupless"] = bool(rng.random() < 0.2 and kind.startswith("value") and "groups" in {x[0] for x in spec.COMMANDS[cmd]})
    return dict(j, kind=kind, data=b.decode("utf8", "surrogateescape"))


def one_import(rng, cmd, imp):
    j = {"cmd": cmd, "opts": imp["opts"], "out": "o.json", "exists": rng.random() < 0.5, "imp": imp,
         "name": imp["name"], "control": rng.random() < 0.3, "side": 0}
    if rng.random() < 0.12:
        return dict(j, kind="path:" + rng.choice(["missing", "directory", "empty name"]))
    if cmd == "import mysql":
        kind, b = D.sql(rng, imp["text"])
    elif cmd == "import xlsx":
        if rng.random() < 0.35:
            return dict(j, kind="xlsx:type", sheets=xlsx_type(rng, imp))
        kind, b = D.xlsx(rng, I.data(imp))
    elif cmd == "import ojson":
        kind, b = D.schema(rng, json.loads(imp["text"]), True)
    else:
        kind, b = mdj(rng, json.loads(imp["text"]))
    return dict(j, kind=kind, data=b.decode("latin1") if cmd == "import xlsx" else b.decode("utf8", "surrogateescape"))


def xlsx_type(rng, imp):
    """A column row whose type is unknown."""
    sheets = json.loads(json.dumps(imp["sheets"]))
    rows = [r for n, rs in sheets[0] if n != "Meta" for r in rs[1:] if len(r) > 3 and r[1].strip() and r[2].strip()
            and r[2].strip() != "table"]
    if not rows:
        return None
    row = rng.choice(rows)
    row[2] = rng.choice(["foo", "varcharr", "text64", "varchar2(20)", "-", "int 32", "??"])
    return sheets


def mdj(rng, doc):
    ents, cols = [], []

    def walk(e):
        if e.get("_type") == "ERDEntity":
            ents.append(e)
            cols.extend(c for c in e.get("columns", []) if c.get("_type") == "ERDColumn")
        for x in e.get("ownedElements", []) or []:
            walk(x)
    walk(doc)
    x = rng.random()
    if x < 0.3 or not cols:
        return D.text_damage(rng, doc)
    if x < 0.35:
        return D.top_damage(rng, doc)
    # only what is imported can be wrong: the first data model
    models = [m for m in doc["ownedElements"] if m and m.get("_type") == "ERDDataModel"]
    es = [e for e in (models[0].get("ownedElements") or []) if e.get("_type") == "ERDEntity"] if models else []
    cs = [c for e in es for c in e.get("columns", []) if c.get("_type") == "ERDColumn"]
    k = rng.randrange(8)
    if k == 0:
        doc["ownedElements"] = [m for m in doc["ownedElements"] if m.get("_type") != "ERDDataModel"]
        return "value:no model", json.dumps(doc).encode()
    if not cs:
        return D.text_damage(rng, doc)
    c = rng.choice(cs)
    if k == 1:
        c["type"] = rng.choice(D.BADTYPES[1:5])
    elif k == 2:
        c["name"] = ""
    elif k == 3:
        c.pop("type", None)
    elif k == 4:
        c["referenceTo"] = {"$ref": "no such id"}
    elif k == 5:
        rng.choice(es).setdefault("columns", []).append(None)
    elif k == 6:
        models[0]["ownedElements"].insert(0, None)
    else:
        c[rng.choice(["name", "type"])] = rng.choice([5, [], {}, True])
    return "value:mdj %d" % k, json.dumps(doc, ensure_ascii=False).encode("utf8", "surrogatepass")


def files(d):
    return {k: v for k, v in C.snapshot(d).items() if v is not None}


def run(case, ctx):
    r = random.Random(case["style"])
    for i, j in enumerate(case["jobs"]):
        base = "j%d" % i
        os.mkdir(ctx.path(base))
        job(case, ctx, r, j, base)


def job(case, ctx, r, j, base):
    cmd, kind = j["cmd"], j["kind"]
    imp = j.get("imp")
    name = j["name"] if imp else "in.json"
    p = ctx.path(base, name)
    good = I.data(imp) if imp else json.dumps(case["schema"]).encode()
    if kind == "xlsx:type" and j["sheets"] is None:
        return
    if kind == "path:directory":
        os.mkdir(p)
    elif kind == "path:extension":
        p = ctx.write(os.path.join(base, "in" + r.choice([".txt", ".yaml", ".jsn", ".json.bak", ".sql", ".xlsx", ".mdj"])), good)
    elif kind == "path:noext":
        p = ctx.write(os.path.join(base, "injson"), good)
    elif kind == "path:missing":
        p = ctx.path(base, r.choice(["gone.json", "no/such/dir/in.json", "IN2.JSON"]) if not imp else "gone" + os.path.splitext(name)[1])
    elif kind == "path:empty name":
        p = ""
    elif kind == "xlsx:type":
        ctx.write(os.path.join(base, name), X.write([(n, rows) for n, rows in j["sheets"][0]], j["sheets"][1], j["sheets"][2]))
    else:
        b = j["data"].encode("latin1") if cmd == "import xlsx" else j["data"].encode("utf8", "surrogateescape")
        if b == good:
            return
        ctx.write(os.path.join(base, name), b)
    opts = dict(j["opts"])
    if j.get("groupless"):      # the damage is refused wherever it is
        opts["groups"] = "no such group"
        ctx.see("unselected_group")
    out = ctx.path(base, "out", j["out"])
    if j["exists"]:
        ctx.write(os.path.join(base, "out", j["out"], "x.txt") if "." not in j["out"] else os.path.join(base, "out", j["out"]),
                  "earlier content\n" * 50)
        ctx.see("over_existing")
    else:
        os.mkdir(ctx.path(base, "out"))
    if cmd in C.DIFF:
        other = ctx.write(os.path.join(base, "other.json"), case["second"])
        io = {"from": p, "to": other} if j["side"] == 0 else {"from": other, "to": p}
        ctx.see("second_side", j["side"])
    else:
        io = {"input": p}
    before = files(ctx.path(base))
    res = spec.run(ctx, cmd, dict(opts, output=out, **io), "mix" if p else "long", r, ok=False)
    what = "%s with invalid input (%s)" % (cmd, kind)
    if res.rc == 0:
        ctx.fail("%s ended with status 0" % what)
    if res.panicked or res.rc not in (0, 1):
        ctx.fail("%s crashed: %s" % (what, res.brief()))
    if not (res.err.strip() or res.out.strip()):
        ctx.fail("%s ended without a message" % what)
    d = C.describe(before, files(ctx.path(base)))
    if d:
        ctx.fail("%s left files changed: %s" % (what, d))
    ctx.see("refused")
    ctx.see(kind.split(":")[0])
    ctx.state([cmd, kind, res.err.replace(ctx.dir, "")[20:100]])
    if j["control"]:
        ctx.see("controls")
        os.makedirs(ctx.path(base, "c"))
        p = ctx.write(os.path.join(base, "c", name), good)
        io = {"from": p, "to": p} if cmd in C.DIFF else {"input": p}
        spec.run(ctx, cmd, dict(opts, output=ctx.path(base, "c", "out." + ("d" if "." not in j["out"] else j["out"].split(".")[-1])), **io), "mix", r)
