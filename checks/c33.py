import json
import os
import random
import stat
from concurrent.futures import ThreadPoolExecutor
from vlib import cmds as C, edits as E, gen as G, imports as I, model as M, naming, spec

PROPERTY = "C33"
RULE = ("every command runs in a scratch tree with its inputs and decoy files (backups, neighbours with similar names, "
        "files of an earlier run) with outputs beside the inputs, in existing or new directories, over absent, shorter "
        "or much longer earlier files; the tree (contents, modes, modification times) is compared before and after: "
        "exactly the documented files appear, with the content a run into a fresh directory gives, and nothing in the home, "
        "temporary and working directory, which are part of the tree; all commands then run at the same time side by side "
        "in one directory and have to give the same files; then writing is made "
        "impossible (missing parent, directory or file in the way, a full device behind the target, also for the last "
        "of several files) and the command has to fail; distinct = distinct written file sets")
ALL = C.SINGLE + C.DIFF + I.CMDS + ["init"]
FLOOR = dict({"trees_compared": 1500, "replaced_longer": 200, "replaced_shorter": 100, "fault_parent_missing": 60,
              "fault_is_directory": 60, "fault_full": 200, "fault_parent_is_file": 60, "decoys": 5000,
              "hostile_names": 30, "side_by_side": 1000}, **{c.replace(" ", "_"): 40 for c in ALL})
ASSUMPTIONS = ["the check runs as root, so permission faults are replaced by a full device and by objects in the way",
               "whether a Kotlin repository is written for a table without a key is left open"]


def gen(rng, tier):
    n = 130 if tier == "quick" else 2400
    for i in range(n):
        a, b, _ = E.pair(rng, names=rng.choice(["plain", "mixed"]), max_tables=4, class_name=0.2)
        jobs = []
        for cmd in C.SINGLE + C.DIFF:
            jobs.append({"cmd": cmd, "opts": C.options(rng, cmd, b), "out": C.outname(rng, cmd)})
        for cmd in I.CMDS:
            imp = I.make(rng, cmd)
            jobs.append({"cmd": cmd, "opts": imp["opts"], "imp": imp, "out": rng.choice(["o.json", "db.octopus", "noext"])})
        jobs.append({"cmd": "init", "opts": {}, "out": rng.choice(["o.json", "x.y", None])})
        for j in jobs:
            j["place"] = rng.choice(["in", "in", "sub", "new"])
            j["prior"] = rng.choice([None, "short", "long", "long"])
            j["fault"] = rng.choice(["parent_missing", "is_directory", "full", "full", "parent_is_file"])
        if rng.random() < 0.04:                 # a schema without tables is still written as the documented file
            b["tables"] = []
        hostile = None
        if rng.random() < 0.35 and b["tables"]:
            hostile = rng.choice(["../up", "a/b", "/abs", "..", "../../up2", "x\\y", "sub/../..//z"])
        yield {"a": a, "b": b, "jobs": jobs, "hostile": hostile, "style": rng.randrange(10 ** 6)}


def expected(job, b):
    """Documented output files, relative to the directory that holds --output, and those which may be there."""
    cmd, out = job["cmd"], job["out"]
    ext = os.path.splitext(out or "")[1].lower()
    s = M.canon(b)
    o = job["opts"]
    ts = M.in_groups(s["tables"], o.get("groups"))
    if cmd == "init":
        return {out or "db.json"}, set()
    if cmd == "generate gorm" and ext != ".go":
        return {out + "/output.go"}, set()
    if cmd == "generate plantuml" and ext not in (".wsd", ".pu", ".puml", ".plantuml", ".iuml"):
        return {out + "/output.plantuml"}, set()
    if cmd == "generate graphql":
        return {"%s/%s-%s.graphqls" % (out, s["name"], s["version"])}, set()
    if cmd == "generate sqlalchemy" and ext != ".py":
        return {"%s/%s.py" % (out, t["name"]) for t in ts}, set()
    if cmd == "generate kt":
        must, may = set(), set()
        for t in ts:
            n = naming.class_name(t, o.get("prefix"), o.get("removePrefix"))
            must.add(os.path.normpath(os.path.join(out, *(o.get("package") or "").split("."), n + ".kt")))
            if o.get("reposPackage"):
                p = os.path.normpath(os.path.join(out, *o["reposPackage"].split("."), n + "Repository.kt"))
                (must if any(c["pk"] for c in t["columns"]) else may).add(p)
        return must, may
    return {out}, set()


def state(root):
    """{path: (kind, mode, mtime, content)}"""
    out = {}
    for d, dirs, files in os.walk(root):
        for f in files:
            p = os.path.join(d, f)
            st = os.lstat(p)
            c = os.readlink(p) if stat.S_ISLNK(st.st_mode) else open(p, "rb").read()
            out[os.path.relpath(p, root)] = (stat.S_IFMT(st.st_mode), st.st_mode, st.st_mtime_ns, c)
    return out


DIRS = ("generate gorm", "generate plantuml", "generate graphql", "generate sqlalchemy", "generate kt")


def dirs(root):
    return {os.path.relpath(os.path.join(d, x), root) for d, ds, _ in os.walk(root) for x in ds}


def around(ctx, w):
    """Home, temporary and working directory of a run are part of the watched tree."""
    for d in ("home", "tmp", "cwd"):
        os.makedirs(ctx.path(w, d), exist_ok=True)
    ctx.write(w + "/tmp/other-program.tmp", "keep")
    ctx.write(w + "/cwd/db.octopus.bak", "keep")
    ctx.write(w + "/home/.octrc", "keep")
    return {"HOME": ctx.path(w, "home"), "TMPDIR": ctx.path(w, "tmp")}


def isdir(job):
    return job["cmd"] in DIRS and "." not in job["out"]


def decoys(ctx, r, base, out):
    stem = os.path.splitext(out)[0]
    for n in (out + ".bak", out + ".tmp", out + "~", stem + ".old", "." + out.replace("/", "_") + ".swp", "zz/keep.json",
              "db.json.orig", "output.txt", stem + "2.json"):
        if r.random() < 0.6:
            ctx.see("decoys")
            ctx.write(os.path.join(base, n), "decoy " + n)


def run(case, ctx):
    r = random.Random(case["style"])
    refs = []
    for i, job in enumerate(case["jobs"]):
        cmd = job["cmd"]
        if cmd in HOSTILE and case["hostile"]:
            hostile_name(ctx, case, job, i)
        # a run into a fresh directory shows the content
        fresh = "f%d" % i
        args = inputs(ctx, case, job, "i%d" % i)
        os.makedirs(ctx.path(fresh))
        go(ctx, r, job, args, fresh, True)
        ref = C.snapshot(ctx.path(fresh))
        refs.append((job, ref))
        must, may = expected(job, case["b"])
        ctx.see(cmd.replace(" ", "_"))
        names = set(n for n in ref if not n.endswith("/"))
        if not (must <= names <= must | may):
            ctx.fail("%s %r wrote %r, documented are %r" % (cmd, job["opts"], sorted(names), sorted(must)))
            continue
        for n in ref:
            if n.endswith("/") and not (isdir(job) and (n == job["out"] + "/" or cmd == "generate kt")):
                ctx.fail("%s %r left the empty directory %s" % (cmd, job["opts"], n))
        ctx.state([cmd, sorted(names)])
        effects(ctx, r, case, job, i, ref)
        fault(ctx, r, case, job, i, ref)
    together(ctx, r, case, refs)


def inputs(ctx, case, job, where):
    if job["cmd"] == "init":
        return {}
    if "imp" in job:
        return {"input": ctx.write(where + "/" + job["imp"]["name"], I.data(job["imp"]))}
    a, b = ctx.write(where + "/a.json", case["a"]), ctx.write(where + "/b.json", case["b"])
    return C.inputs(job["cmd"], [a, b] if job["cmd"] in C.DIFF else b)


def go(ctx, r, job, args, base, ok, env=None, cwd=None):
    opts = dict(job["opts"], **args)
    if job["out"] is None:
        cwd = ctx.path(base)
    else:
        opts["output"] = ctx.path(base, job["out"])
        if r.random() < 0.3:
            cwd = ctx.path(base)
            opts["output"] = job["out"]
    return spec.run(ctx, job["cmd"], opts, "mix", r, ok=ok, cwd=cwd, env=env)


def effects(ctx, r, case, job, i, ref):
    w = "w%d" % i
    args = inputs(ctx, case, job, w)
    base = w if job["place"] == "in" else w + "/sub"
    os.makedirs(ctx.path(base), exist_ok=True)
    decoys(ctx, r, base, job["out"] or "db.json")
    if job["place"] != "new":
        for n, data in ref.items():
            if job["prior"] and not n.endswith("/"):
                old = b"old\n" if job["prior"] == "short" else b"an older, longer file\n" * (200 + len(data) // 10)
                ctx.see("replaced_shorter" if len(old) < len(data) else "replaced_longer")
                ctx.write(os.path.join(base, n), old)
        if isdir(job):
            ctx.write(os.path.join(base, job["out"], "unrelated.txt"), "keep")
            ctx.write(os.path.join(base, job["out"], "Old.kt"), "keep")
            ctx.write(os.path.join(base, job["out"], "deep/er/x.py"), "keep")
    env = around(ctx, w)
    before, dbefore = state(ctx.path(w)), dirs(ctx.path(w))
    go(ctx, r, job, args, base, True, env, ctx.path(w, "cwd"))
    after, dnew = state(ctx.path(w)), dirs(ctx.path(w)) - dbefore
    ctx.see("trees_compared")
    targets = {os.path.relpath(os.path.join(ctx.path(base), n), ctx.path(w)): d for n, d in ref.items() if d is not None}
    for p in sorted(set(before) | set(after)):
        if p in targets:
            if p not in after:
                ctx.fail("%s did not leave %s" % (job["cmd"], p))
            elif after[p][3] != targets[p]:
                g = after[p][3]
                k = next((x for x in range(min(len(g), len(targets[p]))) if g[x] != targets[p][x]), min(len(g), len(targets[p])))
                ctx.fail("%s: %s differs from a run into a fresh directory at byte %d: %r instead of %r"
                         % (job["cmd"], p, k, g[k:k + 60], targets[p][k:k + 60]))
            elif not stat.S_ISREG(after[p][1]) or after[p][1] & 0o400 == 0:
                ctx.fail("%s: %s is not a readable file (%o)" % (job["cmd"], p, after[p][1]))
        elif p not in before:
            ctx.fail("%s %r also wrote %s" % (job["cmd"], job["opts"], p))
        elif p not in after:
            ctx.fail("%s removed %s" % (job["cmd"], p))
        elif before[p] != after[p]:
            ctx.fail("%s touched %s" % (job["cmd"], p))
    outs = set(targets) | {os.path.relpath(os.path.join(ctx.path(base), n), ctx.path(w)) + "/" for n in ref if n.endswith("/")} | \
        {os.path.relpath(os.path.join(ctx.path(base), job["out"] or "db.json"), ctx.path(w)) + ("/" if isdir(job) else "")}
    for d in sorted(dnew | (dbefore - dirs(ctx.path(w)))):
        if not any(o.startswith(d + "/") for o in outs):
            ctx.fail("%s %s the directory %s" % (job["cmd"], "made" if d in dnew else "removed", d))


def together(ctx, r, case, refs):
    """Runs at the same time, side by side in one directory, are as good as runs one after the other."""
    w = "t"
    env = around(ctx, w)
    jobs, want = [], {}
    for i, (job, ref) in enumerate(refs):
        if job["out"] is None or ref is None:
            continue
        j = dict(job, out="%d%s" % (i, job["out"]))
        names = {n: d for n, d in ref.items()}
        if any(not n.startswith(job["out"]) for n in names):
            continue
        want.update({"%d%s" % (i, n): d for n, d in names.items()})
        jobs.append((j, inputs(ctx, case, j, "ti%d" % i), random.Random(case["style"] + i)))
    os.makedirs(ctx.path(w, "out"))
    before = state(ctx.path(w))
    with ThreadPoolExecutor(8) as ex:
        for x in [ex.submit(go, ctx, q, j, args, w + "/out", True, env, None) for j, args, q in jobs]:
            x.result()
    ctx.see("side_by_side", len(jobs))
    got = C.snapshot(ctx.path(w, "out"))
    p = C.describe(got, want)
    if p:
        ctx.fail("%d runs at the same time in one directory: %s" % (len(jobs), p))
    after = state(ctx.path(w))
    for p in sorted(set(before) | set(after)):
        if not p.startswith("out/") and before.get(p) != after.get(p):
            ctx.fail("runs at the same time touched %s" % p)


def fault(ctx, r, case, job, i, ref):
    """Make one target impossible to write."""
    w = "x%d" % i
    args = inputs(ctx, case, job, w)
    base = w + "/o"
    out = job["out"] or "db.json"
    files = sorted(n for n, d in ref.items() if d)
    if not files:
        return
    kind = job["fault"]
    if kind == "parent_missing":
        if isdir(job) or job["out"] is None:
            kind = "full"
        else:
            out = "no/such/" + out
    if kind == "parent_is_file":
        if job["out"] is None:
            kind = "full"
        else:
            ctx.write(base + "/blocker", "a file")
            out = "blocker/" + out
    os.makedirs(ctx.path(base), exist_ok=True)
    victim = r.choice(files)
    if kind == "is_directory":
        if isdir(job) and r.random() < 0.4:
            ctx.write(os.path.join(base, job["out"]), "a file where the directory should be")
        else:
            os.makedirs(ctx.path(base, victim))
    elif kind == "full":
        p = ctx.path(base, victim)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        os.symlink("/dev/full", p)
    before = state(ctx.path(w))
    ctx.see("fault_" + kind)
    res = go(ctx, r, dict(job, out=out if job["out"] else None), args, base, False)
    what = "%s with an unwritable output (%s)" % (job["cmd"], kind)
    if res.panicked:
        ctx.fail("%s crashed: %s" % (what, res.brief()))
    elif res.rc == 0 and kind == "parent_missing" and ctx.exists(os.path.join(base, out)) and \
            ctx.read(os.path.join(base, out), True) == ref[files[0]]:
        ctx.see("parent_created")
    elif res.rc == 0:
        ctx.fail("%s ended with status 0" % what)
    elif not res.err.strip():
        ctx.fail("%s gave no message" % what)
    after = state(ctx.path(w))
    for p, v in before.items():
        if after.get(p) != v:
            ctx.fail("%s changed %s" % (what, p))


HOSTILE = ("generate graphql", "generate kt", "generate sqlalchemy")


def hostile_name(ctx, case, job, i):
    """Names of the schema or its tables are part of file names: nothing may end up outside the output directory."""
    ctx.see("hostile_names")
    doc = json.loads(json.dumps(case["b"]))
    if job["cmd"] == "generate graphql":
        doc["name"] = case["hostile"]
    elif job["cmd"] == "generate kt":
        doc["tables"][0]["className"] = case["hostile"]
    else:
        doc["tables"][0]["name"] = case["hostile"]
    base = "h%d/1/2/3/4" % i
    f = ctx.write(base + "/in/b.json", doc)
    ctx.write(base + "/decoy.graphqls", "x")
    before = state(ctx.path("h%d" % i))
    res = spec.run(ctx, job["cmd"], {"input": f, "output": ctx.path(base, "out/x")}, "long", ok=False)
    after = state(ctx.path("h%d" % i))
    new = [p for p in after if p not in before]
    stray = [p for p in new if not p.startswith(base[base.index("/") + 1:] + "/out/x/")]
    what = "%s with the name %r" % (job["cmd"], case["hostile"])
    if stray or any(before[p] != after.get(p) for p in before):
        ctx.fail("%s wrote outside its output directory: %r" % (what, stray))
    n = 1 if job["cmd"] == "generate graphql" else len(doc["tables"])
    if res.panicked or res.rc == 0 and len(new) != n:
        ctx.fail("%s: status %s with files %r" % (what, res.rc, new))
