import json
import os
import re
import resource
import signal
import subprocess
import threading
from collections import Counter
from vlib import cmds as C, imports as I, spec, xlsxio as X

PROPERTY = "C38"
RULE = ("schemas of hundreds of tables, columns, keys, values, indices or groups, and densely linked ones (chains, rings, "
        "cliques, layered graphs with exponentially many paths), through every command; the CPU time and peak memory "
        "of each process are measured and limited, and the output has to mention alike what the schema states alike: every table of a row of "
        "equal tables, every column of a row of equal columns, every value, key and index column, as often as the first; distinct = distinct "
        "(command, shape, size) observed")
CPU = 30            # seconds; the slowest run takes about one
MEMORY = 1500       # megabytes; the largest run takes about 200
FLOOR = {"runs": 250, "units_counted": 30000}
ASSUMPTIONS = ["'moderate' is %d s of CPU time and %d MB for inputs of up to some 36,000 columns, which leaves a margin of more than 10 on the unchanged tree" % (CPU, MEMORY)]
TYPES = [("varchar", {"size": 20}), ("bigint", {}), ("datetime", {"notnull": True}), ("decimal", {"size": 10, "scale": 2}),
         ("text", {}), ("boolean", {}), ("int", {"notnull": True, "default": "7"}), ("varchar", {"size": 9, "default": "x"})]


def idcol():
    return {"name": "id", "type": "bigint", "pk": True, "notnull": True}


def cols(n, one=False):
    r = []
    for i in range(n):
        ty, x = TYPES[0 if one else i % len(TYPES)]
        r.append(dict({"name": "col%04d" % i, "type": ty}, **x))
    return r


def link(name, table, rel="n:1"):
    return {"name": name, "type": "bigint", "ref": {"table": table, "column": "id", "relationship": rel}}


def tabs(n, m, **kw):
    return [dict({"name": "tab%04d" % i, "columns": [idcol()] + cols(m)}, **kw) for i in range(n)]


def build(shape, n, m=0):
    """(tables, units which all have to be mentioned equally often)"""
    if shape == "tables":
        return tabs(n, m, desc="a table"), "tab"
    if shape == "groups":
        ts = tabs(n, m)
        for i, t in enumerate(ts):
            t["group"] = "grp%04d" % i
        return ts, "tab"
    if shape == "indices":
        return [{"name": "one", "columns": [idcol()] + cols(n, True),
                 "indices": [{"name": "idx%04d" % i, "columns": ["col%04d" % i]} for i in range(n)]}], "col"
    if shape == "wide":
        return [{"name": "one", "columns": [idcol()] + cols(n, True)}], "col"
    if shape == "unique":
        return [{"name": "one", "columns": [idcol()] + [dict(c, unique=True) for c in cols(n, True)]}], "col"
    if shape == "keys":
        return [{"name": "one", "columns": [dict(c, pk=True, notnull=True) for c in cols(n, True)]}], "col"
    if shape == "values":
        return [{"name": "one", "columns": [idcol(), {"name": "kind", "type": "enum", "values": ["val%04d" % i for i in range(n)]}]}], "val"
    if shape == "chain":
        ts = tabs(n, 1)
        for i in range(n - 1):
            ts[i]["columns"].append(link("next_id", "tab%04d" % (i + 1)))
        return ts, None
    if shape == "ring":
        ts = tabs(n, 1)
        for i in range(n):
            ts[i]["columns"].append(link("next_id", "tab%04d" % ((i + 1) % n)))
        return ts, "tab"
    if shape == "star":
        ts = tabs(n, 1)
        for i in range(n):
            ts[i]["columns"].append(link("hub_id", "hub", ["n:1", "1:1", "1:n"][m]))
        return ts + [{"name": "hub", "columns": [idcol()]}], "tab"
    if shape == "hub":
        return [{"name": "hub", "columns": [idcol()] + [link("to%04d_id" % i, "tab%04d" % i, ["n:1", "1:1", "1:n"][m])
                                                       for i in range(n)]}] + tabs(n, 1), "tab"
    if shape == "clique":
        ts = tabs(n, 0)
        for t in ts:
            t["columns"] += [link("to_%s_id" % chr(97 + k // 26) + chr(97 + k % 26), "tab%04d" % k, ["n:1", "1:1", "1:n"][m])
                             for k in range(n)]
        return ts, "tab"
    if shape == "layers":
        ts = tabs(n * m, 0)
        for i in range((n - 1) * m):
            ts[i]["columns"] += [link("to%d_id" % k, "tab%04d" % ((i // m + 1) * m + k), ["n:1", "1:1", "1:n"][k % 3]) for k in range(m)]
        return ts, None
    if shape == "texts":        # four long texts
        return [{"name": "one", "desc": "twd " * n + "end", "columns": [
            idcol(), {"name": "note", "type": "text", "desc": "cwd " * n + "end"},
            {"name": "word", "type": "varchar", "size": 5 * n, "default": "dwd " * n + "end"},
            {"name": "kind", "type": "enum", "values": ["vwd_" * n + "end", "b"]}]}], "texts"
    raise ValueError(shape)


SHAPES = [("tables", 300, 20), ("groups", 150, 3), ("indices", 60), ("wide", 700), ("unique", 60), ("keys", 60), ("values", 800),
          ("chain", 400), ("ring", 400), ("star", 300, 0), ("star", 200, 2), ("hub", 200, 0), ("hub", 200, 1), ("hub", 200, 2),
          ("clique", 30, 0), ("clique", 24, 2), ("layers", 26, 3), ("layers", 40, 2), ("texts", 25000)]
DIFFS = ["rename tables", "create", "drop", "change", "swap", "alike", "rename columns", "same", "comments"]
OPTIONS = {"generate kt": [{}, {"idEntity": "IdEntity", "relation": "VRelation", "reposPackage": "repos", "package": "a.b"}],
           "generate gorm": [{}, {"pointerAssociation": True}, {"embed": "gorm.Model:"}]}
# what a format does not state
SILENT = {("val", c) for c in ("export dbml", "export quickdbd", "export xlsx", "generate gorm", "generate graphql", "generate kt",
                               "generate plantuml", "generate pb", "generate sqlalchemy")}


def gen(rng, tier):
    k = 1 if tier == "quick" else 3
    shapes = list(SHAPES) if tier == "quick" else SHAPES + [
        (s[0], s[1] * f) + s[2:] for s in SHAPES for f in (2, 4) if s[0] not in ("clique",)]
    for s in shapes:
        for cmd in C.SINGLE:
            if s[0] == "groups" and s[1] > 300:
                continue
            for o in OPTIONS.get(cmd, [{}]):
                opts = dict(o)
                names = {x[0] for x in spec.COMMANDS[cmd]}
                if "uniqueNameSuffix" in names:
                    opts["uniqueNameSuffix"] = "_uq"
                if s[0] == "groups" and rng.random() < 0.5:
                    opts["groups"] = ",".join("grp%04d" % i for i in range(s[1]))
                if "groups" not in names:
                    opts.pop("groups", None)
                yield {"kind": "single", "cmd": cmd, "shape": s, "opts": opts, "out": rng.choice(C.OUTS[cmd])}
    for d in DIFFS:
        for n, m in [(400 * k, 30), (150, 4)]:
            for cmd in C.DIFF:
                if d == "swap":         # every table that goes is compared with every one that comes
                    n = min(n, 400)
                yield {"kind": "diff", "cmd": cmd, "shape": [d, n, m], "opts": {"comments": True, "uniqueNameSuffix": "_uq"}}
    for cmd in I.CMDS:
        for n, m in [(300 * k, 12), (400, 3), (2, 600 * k)]:
            yield {"kind": "import", "cmd": cmd, "shape": ["tables", n, m]}
    for n in (200, 1000 * k):
        yield {"kind": "import", "cmd": "import staruml", "shape": ["deep", n, 2]}


def measured(ctx, cmd, opts):
    """Run a command with its CPU time limited; record what it used."""
    argv, env = spec.cmdline(cmd, opts)
    what = "%s with %s" % (cmd, ctx.shape)

    def limit():
        resource.setrlimit(resource.RLIMIT_CPU, (CPU, CPU + 2))

    with open(ctx.path("stderr"), "wb") as err:
        p = subprocess.Popen([ctx.oct_bin] + argv, cwd=ctx.dir, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err,
                             env=dict({"PATH": "/usr/bin:/bin", "HOME": ctx.dir, "GOTRACEBACK": "none"}, **env), preexec_fn=limit)
        t = threading.Timer(400, p.kill)
        t.start()
        _, status, use = os.wait4(p.pid, 0)
        t.cancel()
        p.returncode = os.waitstatus_to_exitcode(status)
    ctx.see("runs")
    cpu = use.ru_utime + use.ru_stime
    ctx.see("cpu_milliseconds", int(cpu * 1000))
    ctx.trace.append({"argv": [a.replace(ctx.dir, "$D")[:200] for a in argv], "rc": p.returncode, "cpu": round(cpu, 2),
                      "rss_mb": use.ru_maxrss >> 10})
    if cpu >= CPU or p.returncode == -signal.SIGKILL:
        ctx.fail("%s takes more than %d s of CPU time" % (what, CPU))
        return False
    if use.ru_maxrss >> 10 > MEMORY:
        ctx.fail("%s takes %d MB" % (what, use.ru_maxrss >> 10))
    if p.returncode:
        ctx.fail("%s fails with status %s: %s" % (what, p.returncode, ctx.read("stderr")[-400:]))
        return False
    return True


def text(files):
    parts = []
    for f, b in sorted(files.items()):
        parts.append(f)
        if b is None:
            continue
        if f.endswith(".xlsx"):
            parts += [c for name, rows in X.read(b) for row in rows for c in row]
        else:
            parts.append(b.decode("utf8"))
    return "\n".join(parts)


def counts(s, unit):
    return Counter(int(x) for x in re.findall(r"%s_?(\d{4})(?!\d)" % unit, s, re.I))


def alike(ctx, cmd, s, unit, n):
    """Every one of the units is mentioned, and as often as the others."""
    c = counts(s, unit)
    ctx.see("units_counted", n)
    first = c.get(0, 0)
    odd = [i for i in range(n) if c.get(i, 0) != first or not c.get(i, 0)]
    if odd:
        ctx.fail("%s: %s mentions %s%04d %d times, %s%04d %d times (%d of %d differ)" % (
            cmd, ctx.shape, unit, odd[-1], c.get(odd[-1], 0), unit, 0, first, len(odd), n))


def run(case, ctx):
    ctx.shape = "%s (%s)" % (case["shape"][0], " x ".join(map(str, case["shape"][1:])))
    {"single": single, "diff": diff, "import": imported}[case["kind"]](case, ctx)
    ctx.state([case["cmd"], case["shape"], case.get("opts")])


def single(case, ctx):
    ts, unit = build(*case["shape"])
    f = ctx.write("in.json", {"version": "1.0.0", "tables": ts})
    os.mkdir(ctx.path("w"))
    cmd = case["cmd"]
    if not measured(ctx, cmd, dict(case["opts"], input=f, output=ctx.path("w", case["out"]))):
        return
    s = text(C.snapshot(ctx.path("w")))
    if cmd == "export dbml" and case["shape"][0] in ("ring", "star", "hub", "clique"):
        unit = None         # references to tables further on stand apart and name the table again
    if cmd == "generate liquibase":
        changesets(ctx, s)
    if unit == "texts":
        for w in ("twd", "cwd", "dwd", "vwd"):
            k = len(re.findall(w, s))
            ctx.see("units_counted", k)
            if k % case["shape"][1]:
                ctx.fail("%s: %s states %d of the %d words of a text" % (ctx.shape, cmd, k, case["shape"][1]))
    elif unit and (unit, cmd) not in SILENT:
        alike(ctx, cmd, s, unit, sum(t["name"].startswith("tab") for t in ts) if unit == "tab" else case["shape"][1])
    elif not unit:
        c = counts(s, "tab")
        ctx.see("units_counted", len(ts))
        gone = [t["name"] for t in ts if t["name"].startswith("tab") and not c.get(int(t["name"][3:]))]
        if gone:
            ctx.fail("%s: %s does not mention table %s (%d of %d)" % (ctx.shape, cmd, gone[0], len(gone), len(ts)))


def changesets(ctx, s):
    """No two change sets have the same id."""
    ids = re.findall(r"^\s*(?:- )?id:\s*(\S+)\s*$", s, re.M)
    ctx.see("changesets", len(ids))
    two = [i for i, k in Counter(ids).items() if k > 1]
    if two:
        ctx.fail("%s: %d change sets have the id %s" % (ctx.shape, ids.count(two[0]), two[0]))


def diff(case, ctx):
    d, n, m = case["shape"]
    a, b, unit = tabs(n, m), tabs(n, m), "tab"
    if d == "rename tables":
        for i, t in enumerate(a):
            t["columns"].append({"name": "own%d" % i, "type": "int"})
        b = json.loads(json.dumps(a))
        for t in b:
            t["name"] = "x" + t["name"]
    elif d == "create":
        a = [{"name": "one", "columns": [idcol()]}]
        b.append(a[0])
    elif d == "drop":
        b = [{"name": "one", "columns": [idcol()]}]
        a.append(b[0])
    elif d == "change":
        for t in b:
            t["columns"][1]["size"] = 77
            t["columns"][2]["notnull"] = True
            t["columns"][3]["default"] = "2020-01-01 00:00:00"
            t["columns"][4]["unique"] = True
            t["columns"].append({"name": "more", "type": "int"})
    elif d == "comments":
        for t in b:
            t["desc"] = "new"
            t["columns"][1]["desc"] = "new"
    elif d == "swap":           # many tables go, as many others come
        for i, t in enumerate(b):
            t["name"] = "x" + t["name"]
            t["columns"][-1]["size"] = 55
            t["columns"][-1]["type"] = "char"
    elif d == "alike":          # many tables go, as many of the same columns come
        for t in b:
            t["name"] = "x" + t["name"]
        unit = None
    elif d == "rename columns":
        unit = "col"
        n = min(n, 400)
        a = [{"name": "one", "columns": [idcol()] + [{"name": "col%04d" % i, "type": "decimal", "size": i + 1} for i in range(n)]}]
        b = json.loads(json.dumps(a))
        for c in b[0]["columns"][1:]:
            c["name"] = "new_" + c["name"]
    elif d == "same":
        b.reverse()
        unit = ""
    f, t = ctx.write("a.json", {"version": "1.0.0", "tables": a}), ctx.write("b.json", {"version": "2.0.0", "tables": b})
    out = C.OUTS[case["cmd"]][0]
    if not measured(ctx, case["cmd"], dict(case["opts"], **{"from": f, "to": t, "output": ctx.path(out)})):
        return
    s = ctx.read(out)
    if case["cmd"] == "diff liquibase":
        changesets(ctx, s)
    if unit == "":
        if counts(s, "tab"):
            ctx.fail("%s: %s reports a difference of equal schemas" % (ctx.shape, case["cmd"]))
    elif unit:
        alike(ctx, case["cmd"], s, unit, n)
    else:
        c = counts(s, "tab")
        gone = [i for i in range(n) if not c.get(i)]
        ctx.see("units_counted", n)
        if gone:
            ctx.fail("%s: %s does not mention table %d" % (ctx.shape, case["cmd"], gone[0]))


def source(cmd, shape):
    kind, n, m = shape
    if cmd == "import mysql":
        return "in.sql", "".join("CREATE TABLE `tab%04d` (\n  `id` bigint NOT NULL,\n%s  PRIMARY KEY (`id`),\n  KEY `ix` (`col0000`)\n) COMMENT='x';\n" % (
            i, "".join("  `col%04d` varchar(20) DEFAULT 'a' COMMENT 'c',\n" % k for k in range(m))) + (
                "INSERT INTO `tab%04d` VALUES %s;\n" % (i, ",".join("(%d,'abc; def')" % k for k in range(20000))) if i < 3 else "")
            for i in range(n))
    if cmd == "import ojson":
        return "in.ojson", {"author": "a", "name": "n", "version": "1.0.0", "tables": [
            {"name": "tab%04d" % i, "columns": [{"name": "id", "type": "bigint", "pk": True}] +
             [{"name": "col%04d" % k, "type": "varchar", "size": 20, "desc": "c"} for k in range(m)]} for i in range(n)]}
    if cmd == "import xlsx":
        meta = ["table", "column", "type", "key", "null", "attributes", "reference", "description"]
        return None, meta
    els = []
    for i in range(n if kind == "tables" else 1):
        els.append({"_type": "ERDEntity", "_id": "e%d" % i, "name": "tab%04d" % i, "columns": [
            {"_type": "ERDColumn", "_id": "c%d_%d" % (i, k), "name": "col%04d" % k, "type": "VARCHAR", "length": "20"} for k in range(m)]})
    owned = [{"_type": "ERDDiagram", "_id": "d", "name": "dia"}] + els
    top = {"_type": "ERDDataModel", "_id": "m", "name": "model", "ownedElements": owned}
    if kind == "deep":
        for i in range(n):
            top["ownedElements"].insert(0, {"_type": "ERDDiagram", "_id": "dd%d" % i, "name": "x" * i})
    return "in.mdj", {"_type": "Project", "_id": "p", "name": "pro", "ownedElements": [top]}


def imported(case, ctx):
    kind, n, m = case["shape"]
    cmd = case["cmd"]
    if cmd == "import xlsx":        # the tool's own workbook of such a schema
        f = ctx.write("s.json", {"version": "1.0.0", "tables": tabs(n, m)})
        name = ctx.path("in.xlsx")
        ctx.ok("export", "xlsx", "-i", f, "-o", name, timeout=120)
    else:
        name, data = source(cmd, case["shape"])
        name = ctx.write(name, data)
    if not measured(ctx, cmd, {"input": name, "output": ctx.path("o.json")}):
        return
    ts = json.loads(ctx.read("o.json"))["tables"]
    want = n if kind == "tables" else 1
    ctx.see("units_counted", want)
    ctx.same("%s: tables of %s" % (cmd, ctx.shape), [t["name"] for t in ts], ["tab%04d" % i for i in range(want)])
    texts = [re.sub(r"\d{4}", "#", json.dumps(t)) for t in ts]
    for i, x in enumerate(texts):
        if x != texts[0]:
            ctx.fail("%s: table %d of %s is not imported like the first: %s and %s" % (cmd, i, ctx.shape, x[:300], texts[0][:300]))
            break
    k = m + (0 if cmd == "import staruml" else 1)
    if ts and len(ts[0]["columns"]) != k:
        ctx.fail("%s: %d columns of %d imported" % (cmd, len(ts[0]["columns"]), k))
