import json
import os
import random
from vlib import cmds as C, edits as E, gen as G, harness, hostile as H, imports as I, spec, xlsxio as X

PROPERTY = "C35"
RULE = ("valid inputs of every command mutated at value level (hostile strings, numbers, kinds, duplicate and dangling "
        "names, key and reference cycles, empty and huge tables), at token level (DDL), at cell and part level (workbooks) "
        "and at byte level, with hostile option values; each run has to end by itself within the time limit with status 0, "
        "or 1 and a message, without a Go panic, fatal error or signal; a share of the runs uses a binary built with the "
        "race detector and checkptr; distinct = distinct (command, status, message) observed")
FLOOR = {"cli_runs": 4000, "status_0": 1500, "status_1": 1000, "hostile_options": 1000, "byte_level": 500,
         "value_level": 1500, "import_mysql": 300, "import_xlsx": 300, "import_staruml": 200, "import_ojson": 200, "race_runs": 100}
ASSUMPTIONS = ["time limit per run 30 s, retried once with 90 s"]
RACE = {}


def prepare(base):
    p = os.path.join(base, "oct-race")
    try:
        harness.go_build(p, ["-race"])
        os.environ["OCT_RACE"] = p
    except harness.BuildError as e:
        print("note: no race build: %s" % str(e)[-200:])


def gen(rng, tier):
    n = 260 if tier == "quick" else 5000
    for i in range(n):
        a, b, _ = E.pair(rng, names=rng.choice(["plain", "mixed", "odd"]), max_tables=4, max_cols=5)
        jobs = []
        for cmd in C.SINGLE + C.DIFF:
            names = [x[0] for x in spec.COMMANDS[cmd]]
            opts = H.options(rng, names) if rng.random() < 0.6 else {}
            if rng.random() < 0.15:
                kind, data = "byte", H.damaged(rng, json.dumps(b, ensure_ascii=False).encode())
            else:
                kind, data = "value", json.dumps(H.schema(rng, b), ensure_ascii=rng.random() < 0.7).encode("utf8", "surrogatepass")
            jobs.append({"cmd": cmd, "opts": opts, "kind": kind, "data": data.decode("latin1"), "out": C.outname(rng, cmd),
                         "side": rng.choice([0, 1]), "race": rng.random() < 0.03})
        for cmd in I.CMDS:
            imp = I.make(rng, cmd)
            names = [x[0] for x in spec.COMMANDS[cmd]]
            for _ in range(3 if cmd in ("import mysql", "import xlsx") else 2):
                kind, data = mutated(rng, cmd, imp)
                jobs.append({"cmd": cmd, "opts": H.options(rng, names), "kind": kind, "data": data.decode("latin1"),
                             "out": "o.json", "name": imp["name"], "race": rng.random() < (0.15 if cmd == "import xlsx" else 0.03)})
        yield {"jobs": jobs, "other": a}


def mutated(rng, cmd, imp):
    raw = I.data(imp)
    if cmd == "import xlsx":
        sheets, inline, sparse = imp["sheets"]
        if rng.random() < 0.5:
            return "value", X.write([(n, rows) for n, rows in H.xlsx_rows(rng, sheets)], inline, sparse)
        return "byte", H.xlsx_bytes(rng, raw)
    if rng.random() < 0.25:
        return "byte", H.damaged(rng, raw)
    if cmd == "import mysql":
        return "value", H.sql(rng, imp["text"]).encode("utf8", "surrogatepass")
    doc = json.loads(imp["text"])
    return "value", json.dumps(H.mdj(rng, doc) if cmd == "import staruml" or rng.random() < 0.3 else H.schema(rng, doc)).encode()


def run(case, ctx):
    race = os.environ.get("OCT_RACE")
    for i, j in enumerate(case["jobs"]):
        base = "j%d" % i
        p = ctx.write(os.path.join(base, j.get("name", "in.json")), j["data"].encode("latin1"))
        cmd = j["cmd"]
        if cmd in C.DIFF:
            q = ctx.write(os.path.join(base, "b.json"), case["other"])
            io = {"from": p, "to": q} if j["side"] == 0 else {"from": q, "to": p}
        else:
            io = {"input": p}
        argv, env = spec.cmdline(cmd, dict(j["opts"], output=ctx.path(base, "out", j["out"]), **io), "eq")
        os.mkdir(ctx.path(base, "out"))
        if any("\x00" in a for a in argv):
            continue
        plain = ctx.oct_bin
        if j["race"] and race:
            ctx.oct_bin = race
            harness.memory_limit(False)
            ctx.see("race_runs")
        try:
            r = ctx.oct(*argv, env=dict(env or {}, GORACE="exitcode=66"))
        finally:
            ctx.oct_bin = plain
            harness.memory_limit(True)
        ctx.see("status_%d" % r.rc)
        ctx.see(cmd.replace(" ", "_"))
        ctx.see(j["kind"] + "_level")
        ctx.see("hostile_options", bool(j["opts"]))
        what = "%s %s" % (cmd, j["opts"] or "")
        if r.rc not in (0, 1) or r.panicked or "goroutine " in r.err and "runtime" in r.err:
            ctx.fail("%s: the command crashed: rc=%d %s" % (what, r.rc, head(r.err)))
        elif "DATA RACE" in r.err:
            ctx.fail("%s: data race: %s" % (what, head(r.err)))
        elif r.rc == 1 and not (r.err.strip() or r.out.strip()):
            ctx.fail("%s: status 1 without a message" % what)
        ctx.state([cmd, r.rc, r.err.replace(ctx.dir, "")[20:90] if r.rc else len(r.err)])


def head(err):
    i = max(err.find("panic:"), err.find("fatal error"), err.find("DATA RACE"), 0)
    lines = [x for x in err[i:].split("\n") if x.strip()]
    at = [x.strip() for x in lines if "/format/" in x or "/util/" in x][:3]
    return " | ".join(lines[:2] + at)[:700]
