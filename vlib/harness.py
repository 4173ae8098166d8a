"""Execution harness: builds the real CLI from /repo's working tree, runs cases
in worker processes, collects the monitors' verdicts, writes evidence.

A check module (checks/<id>.py) provides
    PROPERTY      id
    RULE          how cases are made and what counts as non-trivial
    gen(rng, tier)        -> iterable of JSON-able cases (fixed by the seed)
    run(case, ctx)        -> None; reports through ctx
ctx.fail(msg)        a monitor saw the property violated
ctx.see(kind, n=1)   an event the monitor actually observed (counted in evidence)
ctx.state(obj)       a digest of the observed behaviour (distinct ones are counted)
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import resource
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
KNOWN = os.path.join(VERIF, "known-findings.json")
EVID = os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence")
STOP_AFTER = 300        # seconds; a quick check with violations at hand does not go on longer (runs that hang)

GOENV = {
    "HOME": "/root", "PATH": "/usr/local/bin:/usr/bin:/bin",
    "GOTOOLCHAIN": "local", "GOFLAGS": "-mod=mod", "GOPROXY": "off",
    "GO111MODULE": "on", "GOWORK": "off", "GOPATH": "/root/go",
    "GOMODCACHE": "/root/go/pkg/mod", "GOCACHE": "/root/.cache/go-build",
}


class BuildError(Exception):
    pass


def go_build(out, extra=()):
    env = dict(GOENV)
    if not os.access(os.path.dirname(GOENV["GOCACHE"]), os.W_OK):
        env["GOCACHE"] = os.path.join(os.path.dirname(out), "gocache")
    p = subprocess.run(["go", "build", *extra, "-o", out, "."], cwd=REPO, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError(p.stdout.decode("utf8", "replace"))


class Res:
    """One observed execution of the CLI."""
    __slots__ = ("rc", "out", "err", "argv")

    def __init__(self, rc, out, err, argv):
        self.rc, self.out, self.err, self.argv = rc, out, err, argv

    @property
    def panicked(self):
        return self.rc == 2 and ("goroutine " in self.err or "panic:" in self.err) or self.rc < 0 \
            or "panic: " in self.err and "goroutine " in self.err

    def brief(self):
        return "rc=%s stderr=%s" % (self.rc, self.err[-400:])


class Hang(Exception):
    pass


class Ctx:
    """Per-case monitor context."""

    def __init__(self, oct_bin, scratch):
        self.oct_bin = oct_bin
        self.root = scratch
        self.dir = None
        self.n = 0

    def begin(self):
        self.n += 1
        self.dir = os.path.join(self.root, "c%d" % self.n)
        os.mkdir(self.dir)
        self.problems = []
        self.events = Counter()
        self.digests = []
        self.trace = []

    def end(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def write(self, name, data):
        p = self.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if isinstance(data, bytes):
            with open(p, "wb") as f:
                f.write(data)
        else:
            if not isinstance(data, str):
                data = json.dumps(data, ensure_ascii=False)
            with open(p, "w", encoding="utf8") as f:
                f.write(data)
        return p

    def read(self, name, binary=False):
        with open(self.path(name), "rb") as f:
            b = f.read()
        return b if binary else b.decode("utf8")

    def exists(self, name):
        return os.path.exists(self.path(name))

    def oct(self, *args, env=None, cwd=None, timeout=30):
        e = {"PATH": "/usr/bin:/bin", "HOME": self.dir, "GOTRACEBACK": "single"}
        if env:
            e.update(env)
        argv = [self.oct_bin, *args]
        for attempt, tmo in ((0, timeout), (1, timeout * 3)):
            try:
                p = subprocess.run(argv, cwd=cwd or self.dir, env=e, stdin=subprocess.DEVNULL,
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=tmo)
                break
            except subprocess.TimeoutExpired:
                if attempt:
                    raise Hang("no answer in %ds: oct %s" % (tmo, " ".join(args)))
        self.events["cli_runs"] += 1
        r = Res(p.returncode, p.stdout.decode("utf8", "replace"),
                p.stderr.decode("utf8", "replace"), list(args))
        self.trace.append({"argv": [a.replace(self.dir, "$D") for a in args], "rc": r.rc,
                           "stderr": r.err[-600:]})
        return r

    def ok(self, *args, **kw):
        """Run a command that has to succeed."""
        r = self.oct(*args, **kw)
        if r.rc != 0:
            self.fail("command failed on a valid input: oct %s -> %s"
                      % (" ".join(a.replace(self.dir, "$D") for a in args), r.brief()))
            raise Stop()
        return r

    # monitors report here
    def fail(self, msg):
        self.problems.append(str(msg)[:2000])

    def see(self, kind, n=1):
        self.events[kind] += n

    def state(self, obj):
        s = obj if isinstance(obj, (str, bytes)) else json.dumps(obj, sort_keys=True, default=str)
        if isinstance(s, str):
            s = s.encode("utf8", "surrogatepass")
        self.digests.append(hashlib.sha1(s).hexdigest()[:16])

    def same(self, what, got, want, kind="facts_compared"):
        self.events[kind] += 1
        if got != want:
            self.fail("%s: observed %r, the property requires %r" % (what, got, want))
            return False
        return True


class Stop(Exception):
    """The case cannot be continued; the reason is already reported."""


_W = {}


def memory_limit(on):
    """A run that eats memory without end has to fail by itself, not take the sandbox along."""
    hard = resource.getrlimit(resource.RLIMIT_DATA)[1]
    resource.setrlimit(resource.RLIMIT_DATA, (4 << 30 if on else hard, hard))


def _winit(mod, oct_bin, scratch_root):
    sys.path.insert(0, VERIF)
    _W["mod"] = importlib.import_module(mod)
    memory_limit(True)
    d = tempfile.mkdtemp(prefix="w", dir=scratch_root)
    _W["ctx"] = Ctx(oct_bin, d)


def _run_one(arg):
    i, case = arg
    return (i,) + execute(_W["mod"], _W["ctx"], case)


def execute(mod, ctx, case):
    ctx.begin()
    try:
        try:
            mod.run(case, ctx)
        except Stop:
            pass
        except Hang as e:
            ctx.fail("hang: %s" % e)
        except Exception:
            tb = traceback.format_exc()
            ctx.fail("the output could not be interpreted by the oracle: %s" % tb[-900:])
        return ctx.problems, dict(ctx.events), ctx.digests, ctx.trace
    finally:
        ctx.end()


def load_known(prop):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        data = json.load(f)
    return [k for k in data["findings"] if k["property"] == prop and k.get("status") == "known"]


def setup():
    """Warm the build caches and show that the framework starts."""
    base = tempfile.mkdtemp(prefix="octverif-setup-")
    try:
        go_build(os.path.join(base, "oct"))
        from . import gorm
        gorm.prepare(base)
        print("setup ok")
        return 0
    except BuildError as e:
        print("BUILD FAILED\n%s" % e)
        return 1
    finally:
        shutil.rmtree(base, ignore_errors=True)


def main(prop, argv):
    mod_name = "checks." + prop.lower()
    sys.path.insert(0, VERIF)
    mod = importlib.import_module(mod_name)
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    replay = None
    if "--replay" in argv:
        replay = argv[argv.index("--replay") + 1]
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    t0 = time.time()
    base = tempfile.mkdtemp(prefix="octverif-%s-" % prop)
    try:
        oct_bin = os.path.join(base, "oct")
        try:
            go_build(oct_bin, getattr(mod, "BUILD_FLAGS", ()))
        except BuildError as e:
            print("BUILD FAILED\n%s" % e)
            return 3
        if hasattr(mod, "prepare"):
            mod.prepare(base)
        if replay:
            with open(replay) as f:
                case = json.load(f)["case"]
            ctx = Ctx(oct_bin, base)
            problems, events, digests, trace = execute(mod, ctx, case)
            print(json.dumps({"problems": problems, "events": events, "trace": trace}, indent=1))
            if problems:
                print("VIOLATION property=%s replay=%s" % (prop, replay))
                return 1
            return 0
        return _run_all(prop, mod, mod_name, oct_bin, base, seed, tier, t0)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _run_all(prop, mod, mod_name, oct_bin, base, seed, tier, t0):
    os.makedirs(EVID, exist_ok=True)
    rdir = os.path.join(EVID, "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rdir, f))

    rng = random.Random("%s/%d" % (prop, seed))
    cases = list(mod.gen(rng, tier))
    known = load_known(prop)
    events = Counter()
    digests = set()
    bad = []
    samples = []
    evaluations = 0
    nproc = min(8, os.cpu_count() or 4)
    with mp.Pool(nproc, _winit, (mod_name, oct_bin, base)) as pool:
        for i, problems, ev, dg, trace in pool.imap_unordered(_run_one, list(enumerate(cases)), chunksize=4):
            evaluations += 1
            events.update(ev)
            digests.update(dg)
            if problems:
                bad.append((i, problems, trace))
                if time.time() - t0 > STOP_AFTER and tier == "quick":
                    print("note: stopped early, with violations found")
                    pool.terminate()
                    known = []
                    break
            if i in (0, len(cases) // 2, len(cases) - 1):
                samples.append({"case": _clip(cases[i]), "observed": ev, "trace": trace[:6]})
        known_state = []
        for k, (i, problems, ev, dg, trace) in zip(
                known, pool.imap(_run_one, [(j, k["case"]) for j, k in enumerate(known)]) if known else ()):
            events["known_finding_cases"] += 1
            # the listed failure, and only it: every reported problem has to match it
            other = [p for p in problems if not any(m in p for m in k["match"])]
            known_state.append((k, bool(problems) and not other))
            if other:
                bad.append((-1 - i, other, trace))
                cases_extra = k["case"]
                k["_case"] = cases_extra
    for k, still in known_state:
        if still:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        else:
            print("note: known finding %s did not reproduce" % k["id"])

    bad.sort(key=lambda b: b[0] if b[0] >= 0 else 10 ** 9 - b[0])
    for n, (i, problems, trace) in enumerate(bad[:5]):
        case = cases[i] if i >= 0 else known[-1 - i]["case"]
        rp = os.path.join(rdir, "%s-%d.json" % (prop, n))
        with open(rp, "w") as f:
            json.dump({"property": prop, "seed": seed, "tier": tier, "index": i, "problems": problems,
                       "trace": trace, "case": case}, f, indent=1, ensure_ascii=True)
        print("  " + "\n  ".join(p.replace("\n", "\n    ") for p in problems[:4]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))

    floor = getattr(mod, "FLOOR", {})
    starved = ["%s=%d<%d" % (k, events.get(k, 0), v) for k, v in floor.items() if events.get(k, 0) < v]
    distinct = len(digests)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": mod.RULE,
            "samples": samples or [{"note": "no case ran"}],
            "observed_events": dict(sorted(events.items())),
            "known_findings_replayed": [k["id"] for k in known],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bad),
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    print("%s: %d executions judged, %d distinct behaviours, %d violating, %.1fs; events %s"
          % (prop, evaluations, distinct, len(bad), time.time() - t0,
             {k: v for k, v in sorted(events.items())}))
    if bad:
        return 1
    if evaluations == 0 or distinct == 0 or starved:
        print("INCONCLUSIVE: the monitors observed too little: %s" % ", ".join(starved))
        return 3
    return 0


def _clip(case):
    s = json.dumps(case, ensure_ascii=True)
    return case if len(s) < 6000 else s[:6000] + "..."
