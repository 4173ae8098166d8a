"""Development aid: mutation analysis of the checks.
usage: python3 tools/mutate.py MUTANTS.jsonl RESULTS.jsonl [--jobs N] [--full]   (--full: every case of the checks nearest to the file, 25 of the others)
Each mutant (tools/mutgen) is built in a scratch copy; it is 'killed' by the first check whose monitors report it;
survivors are run through the existing tests, so that what remains are changes neither sees."""
import importlib
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vlib import harness as H  # noqa: E402

FIRST = [("mysql/importer", "C04 C06 C02 C35"), ("mysql/exporter", "C05 C06 C34 C31"), ("mysql/cli", "C04 C05 C06 C32 C29 C34"),
         ("xlsx/importer", "C08 C09 C35 C02"), ("xlsx/", "C07 C09 C08 C32"), ("staruml", "C10 C35 C02 C03"), ("ojson", "C11 C02 C03 C35"),
         ("dbml", "C12 C34 C32"), ("quickdbd", "C13 C32"), ("plantuml", "C14 C32"), ("graphql", "C15 C32"), ("protobuf", "C16 C17 C30 C32"),
         ("gorm", "C18 C19 C30 C32 C34"), ("jpa", "C20 C21 C30 C32"), ("sqlalchemy", "C22 C23 C30 C32"),
         ("liquibase/generator", "C24 C25 C34"), ("liquibase", "C25 C37 C24 C28 C34 C36"), ("diff/mysql", "C26 C37 C36 C28"), ("diff/flyway", "C26 C28"),
         ("diff/markdown", "C27 C28 C31"), ("diff/", "C27 C26 C37 C36 C25 C28"), ("octopus", "C02 C03 C04 C25 C29 C01 C12"), ("common", "C30 C18 C16"),
         ("util", "C18 C21 C16 C22 C04"), ("main.go", "C32 C33 C02")]
ALL = ["C%02d" % i for i in range(1, 38)]
CASES, MODS = {}, {}
STATE = {}


def order(path):
    first = []
    for k, v in FIRST:
        if k in path:
            first = v.split()
            break
    narrow = ("util" in path or "octopus" in path or "common" in path or "main.go" in path)
    rest = [c for c in ALL if c not in first]
    if not narrow:
        rest = [c for c in rest if c in ("C01", "C02", "C03", "C29", "C30", "C31", "C32", "C33", "C34", "C35")]
    return first, rest


def init(base, q):
    i = q.get()
    w = os.path.join(base, "w%d" % i)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    H.memory_limit(True)
    STATE.update(w=w, ctx=H.Ctx(os.path.join(w, "oct"), tempfile.mkdtemp(prefix="x", dir=base)))


def go(cmd, w, timeout=120):
    try:
        return subprocess.run(cmd, cwd=w, env=H.GOENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None


def one(m):
    w, ctx = STATE["w"], STATE["ctx"]
    rel = m["file"].replace("/repo/", "", 1)
    p = os.path.join(w, rel)
    src = open(p, "rb").read()
    mut = src[:m["start"]] + m["text"].encode() + src[m["end"]:]
    t0 = time.time()
    try:
        open(p, "wb").write(mut)
        b = go(["go", "build", "-o", "oct", "."], w)
        if b is None or b.returncode:
            return dict(m, result="nobuild")
        first, rest = order(rel)
        full = STATE.get("full")
        stages = [(first, 0, 30), (first[:1], 30, 10 ** 9), (first[1:], 30, 200), (rest, 0, 10)] if not FULL else [(first, 0, 10 ** 9), (rest, 0, 25)]
        late = False
        for names, a, n in stages:
            for c in names:
                for case in CASES[c][a:n]:
                    r = H.execute(MODS[c], ctx, case)
                    if r[0]:
                        return dict(m, result="killed", by=c, why=r[0][0][:200], t=round(time.time() - t0, 1))
                    late = late or time.time() - t0 > (70 if not FULL else 3000)
                    if late:
                        break
        t = go(["go", "test", "-vet=off", "-count=1", "./..."], w)
        if t is None or t.returncode:
            return dict(m, result="tests", t=round(time.time() - t0, 1))
        return dict(m, result="SURVIVED", late=late, t=round(time.time() - t0, 1))
    finally:
        open(p, "wb").write(src)


FULL = "--full" in sys.argv
if __name__ == "__main__":
    jobs = int(sys.argv[sys.argv.index("--jobs") + 1]) if "--jobs" in sys.argv else 7
    base = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    os.environ.pop("OCT_RACE", None)
    done = set()
    if os.path.exists(sys.argv[2]):
        for x in open(sys.argv[2]):
            d = json.loads(x)
            done.add((d["file"], d["start"], d["end"], d["text"]))
    ms = [json.loads(x) for x in open(sys.argv[1])]
    ms = [m for m in ms if (m["file"], m["start"], m["end"], m["text"]) not in done]
    for c in ALL:
        MODS[c] = importlib.import_module("checks." + c.lower())
        if hasattr(MODS[c], "prepare") and c not in ("C31", "C35"):
            MODS[c].prepare(base)
        CASES[c] = list(MODS[c].gen(random.Random("%s/1" % c), "quick"))
    print("cases ready", flush=True)
    q = mp.Queue()
    for i in range(jobs):
        q.put(i)
    try:
        with mp.Pool(jobs, init, (base, q)) as pool, open(sys.argv[2], "a") as out:
            for r in pool.imap_unordered(one, ms):
                out.write(json.dumps(r) + "\n")
                out.flush()
    finally:
        shutil.rmtree(base, ignore_errors=True)
