import calendar
import io
import json
import os
import random
import re
import shutil
import subprocess
import time
import zipfile
from vlib import cmds as C, edits as E, gen as G, harness, imports as I, spec

PROPERTY = "C31"
RULE = ("every command (init, imports, exports, generators, diffs) is run 2-5 times as separate processes on the same "
        "generated input and options (schemas with many tables, groups, keys, indices and references, so that any "
        "iteration over a hash map shows), in different working directories, with different TZ, locale, GOMAXPROCS and "
        "environment, relative or absolute paths, over fresh or pre-existing output, some more than a second apart, and with a build whose standard library tells another date, host and user; "
        "files and status must be byte-identical and must not contain the current date, time or process id; distinct = "
        "distinct output sets")
ALL = C.SINGLE + C.DIFF + I.CMDS + ["init"]
FLOOR = dict({"repeated_runs": 4000, "other_clock": 1000, "slow_pairs": 10, "failing_runs": 15}, **{c.replace(" ", "_"): 60 for c in ALL if c != "init"})
ENVS = [{}, {"TZ": "Pacific/Kiritimati"}, {"TZ": "America/Los_Angeles", "LANG": "de_DE.UTF-8", "LC_ALL": "de_DE.UTF-8"},
        {"GOMAXPROCS": "1"}, {"USER": "someone", "HOSTNAME": "h1", "LOGNAME": "someone"}, {"GOGC": "1", "GOMAXPROCS": "8"},
        {"LANG": "ko_KR.UTF-8", "PWD": "/nowhere"}]


# a second build of the tool in which the standard library tells another time, host and user
OVERLAY = {
    "time/time.go": [("func Now() Time {", """func Now() Time {
	t := realNow()
	if s, ok := syscall.Getenv("VERIF_CLOCK"); ok {
		if d, err := ParseDuration(s); err == nil {
			return t.Add(d)
		}
	}
	return t
}

func realNow() Time {"""), ("import (", "import (\n\t\"syscall\"")],
    "os/sys.go": [("return hostname()", """if s := Getenv("VERIF_HOST"); s != "" {
		return s, nil
	}
	return hostname()""")],
    "os/user/lookup.go": [("func Current() (*User, error) {", """func Current() (*User, error) {
	if s, ok := syscall.Getenv("VERIF_USER"); ok {
		return &User{Uid: "4711", Gid: "4712", Username: s, Name: s, HomeDir: "/home/" + s}, nil
	}"""), ('import "sync"', 'import (\n\t"sync"\n\t"syscall"\n)')],
}
CLOCKS = ["1h", "-1h", "23h", "25h", "-49h", "750h", "-750h", "3000h", "8784h", "-17520h", "70000h", "200000h", "-300000h"]


def prepare(base):
    d = os.path.join(base, "overlay")
    os.makedirs(d)
    try:
        root = subprocess.run(["go", "env", "GOROOT"], stdout=subprocess.PIPE, env=harness.GOENV, check=True).stdout.decode().strip()
        rep = {}
        for f, edits in OVERLAY.items():
            src = open(os.path.join(root, "src", f)).read()
            if any(a not in src for a, _ in edits):
                print("note: %s of this Go is unknown" % f)
                continue
            for a, b in edits:
                src = src.replace(a, b, 1)
            rep[os.path.join(root, "src", f)] = os.path.join(d, f.replace("/", "_"))
            with open(rep[os.path.join(root, "src", f)], "w") as w:
                w.write(src)
        with open(os.path.join(d, "overlay.json"), "w") as w:
            json.dump({"Replace": rep}, w)
        harness.go_build(os.path.join(base, "oct-clock"), ["-overlay", os.path.join(d, "overlay.json")])
        os.environ["OCT_CLOCK"] = os.path.join(base, "oct-clock")
    except (harness.BuildError, OSError, subprocess.SubprocessError) as e:
        print("note: no build with another clock: %s" % str(e)[-300:])


def big(rng):
    pool = ["g%d" % i for i in range(rng.choice([1, 2, 5]))] + rng.choice([[], [""]])
    return dict(names=rng.choice(["plain", "mixed"]), min_tables=3, max_tables=9, max_cols=10, group_pool=pool,
                refs=0.4, unique_p=0.45, indices=0.7, class_name=0.15)


def gen(rng, tier):
    for i in range(110 if tier == "quick" else 2200):
        a, b, _ = E.pair(rng, nedits=rng.choice([3, 8, 15, 30]), **big(rng))
        runs = []
        for cmd in C.SINGLE + C.DIFF:
            o = C.options(rng, cmd, b)
            if rng.random() < 0.5:
                o.pop("groups", None)
            runs.append([cmd, o, C.outname(rng, cmd), rng.choice([2, 3, 3, 4, 5])])
        imps = [I.make(rng, c) for c in I.CMDS]
        yield {"a": a, "b": b, "runs": runs, "imports": imps, "slow": i % 8 == 0, "style": rng.randrange(10 ** 6)}
    for _ in range(25 if tier == "quick" else 300):      # refused inputs are refused the same way each time
        a, b, _ = E.pair(rng, **big(rng))
        t = rng.choice(b["tables"])
        t["columns"].append({"name": "bad", "type": rng.choice(["nosuch", "", "enum"])})
        yield {"a": a, "b": b, "runs": [[c, {}, C.outname(rng, c), 2] for c in rng.sample(C.SINGLE, 4) + C.DIFF[:1]],
               "imports": [], "slow": False, "style": rng.randrange(10 ** 6), "bad": True}


def now_marks():
    out = set()
    for t in (time.time() - 86400, time.time(), time.time() + 86400):
        g = time.gmtime(t)
        for f in ("%Y-%m-%d", "%Y%m%d", "%Y/%m/%d", "%Y.%m.%d", "%d %b %Y", "%b %d, %Y", "%d.%m.%Y", "%m/%d/%Y",
                  "%B %d, %Y", "%y%m%d%H"):
            out.add(time.strftime(f, g).encode())
        out.add(str(int(t))[:6].encode() + b"\\d{4}")
    return out


def texts(snap):
    for f, b in snap.items():
        yield f.encode()
        if b and b[:2] == b"PK":
            z = zipfile.ZipFile(io.BytesIO(b))
            for n in z.namelist():
                yield z.read(n)
        elif b:
            yield b


def run(case, ctx):
    r = random.Random(case["style"])
    a, b = ctx.write("a.json", case["a"]), ctx.write("b.json", case["b"])
    jobs = []
    for cmd, opts, out, n in case["runs"]:
        jobs.append((cmd, dict(opts, **C.inputs(cmd, [a, b] if cmd in C.DIFF else b)), out, n))
    for i, imp in enumerate(case["imports"]):
        f = ctx.write("i%d/%s" % (i, imp["name"]), I.data(imp))
        jobs.append((imp["cmd"], dict(imp["opts"], input=f), "o.json", r.choice([2, 3, 4])))
    if not case.get("bad"):
        jobs.append(("init", {}, "o.json", 2))
    slow = r.sample(range(len(jobs)), 2) if case["slow"] else []
    first = {}
    marks = re.compile(b"|".join(now_marks()))
    for j, (cmd, opts, out, n) in enumerate(jobs):
        for k in range(n):
            s = once(ctx, r, j, k, cmd, opts, out, case.get("bad"))
            judge(ctx, cmd, opts, first, j, k, s)
            if k == 0:
                ctx.see(cmd.replace(" ", "_"))
                ctx.state(sorted((f, str(x)) for f, x in s[1].items()))
                inp = repr(case).encode()
                for t in texts(s[1]):
                    m = marks.search(t)
                    if m and m.group(0) not in inp:
                        ctx.fail("%s writes the current time into its output: %r" % (cmd, t[max(0, m.start() - 60):m.end() + 60]))
                        break
    if slow:
        time.sleep(1.1)
        for j in slow:
            cmd, opts, out, n = jobs[j]
            ctx.see("slow_pairs")
            judge(ctx, cmd, opts, first, j, "late", once(ctx, r, j, "late", cmd, opts, out, case.get("bad")))


def once(ctx, r, j, k, cmd, opts, out, bad):
    where = ctx.path("o%d_%s" % (j, k))
    os.makedirs(where)
    env = dict(r.choice(ENVS))
    o = dict(opts)
    style = r.random()
    if k and style < 0.4:            # relative paths from another directory
        cwd = ctx.path("cwd%d_%s" % (j, k))
        os.makedirs(cwd)
        for n in ("input", "from", "to"):
            if n in o:
                o[n] = os.path.relpath(o[n], cwd)
        o["output"] = os.path.relpath(os.path.join(where, out), cwd)
    elif k and style < 0.6:
        cwd, o["output"] = where, out
    else:
        cwd, o["output"] = None, os.path.join(where, out)
    if k and r.random() < 0.25 and "." in out:      # over an older, longer file
        ctx.write(os.path.relpath(os.path.join(where, out), ctx.dir), "stale content\n" * r.choice([1, 5000]))
    argv, e = spec.cmdline(cmd, o, "long")
    env.update(e)
    plain = ctx.oct_bin
    if k and os.environ.get("OCT_CLOCK") and r.random() < 0.4:
        ctx.oct_bin = os.environ["OCT_CLOCK"]
        env.update({"VERIF_CLOCK": r.choice(CLOCKS), "VERIF_HOST": r.choice(["h2", "build.example"]), "VERIF_USER": r.choice(["kim", "ci"])})
        ctx.see("other_clock")
    try:
        res = ctx.oct(*argv, env=env, cwd=cwd)
    finally:
        ctx.oct_bin = plain
    ctx.see("repeated_runs")
    if bad:
        ctx.see("failing_runs")
    elif res.rc:
        ctx.fail("%s failed on a valid input: %s" % (cmd, res.brief()))
    snap = C.snapshot(where)
    shutil.rmtree(where)
    return res.rc, snap if not bad else {}


def judge(ctx, cmd, opts, first, j, k, s):
    if k == 0:
        first[j] = s
        return
    if s[0] != first[j][0]:
        ctx.fail("%s: status %s the first time, %s when repeated" % (cmd, first[j][0], s[0]))
    p = C.describe(first[j][1], s[1])
    if p:
        ctx.fail("%s %r is not reproducible: %s" % (cmd, {x: y for x, y in opts.items() if "/" not in str(y)}, p))
