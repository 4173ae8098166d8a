"""Development aid: turn bug descriptions into /verif/seeded/<id>/ after confirming them in a scratch copy.
usage: python3 tools/seed.py SPEC.py [id ...]   (SPEC.py defines SEEDS)
       python3 tools/seed.py --catch [id ...]   (run the property's quick check on each seeded bug)"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedrepo"
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GO111MODULE="on", GOWORK="off")


def sh(cmd, cwd=W, timeout=300, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, timeout=timeout, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, **kw)


def fresh():
    if not os.path.exists(W):
        sh("cp -a /repo %s" % W, cwd="/")
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")
    b = sh("go build ./... && go build -o oct .")
    assert b.returncode == 0, b.stdout.decode()


def original(path, lines):
    """1-based line numbers of HEAD's file written by the original repository."""
    root = sh("git rev-list --max-parents=0 HEAD").stdout.decode().split()
    base = sh("git log --format=%H --grep='^fix:' --invert-grep -1").stdout.decode().strip()
    out = sh("git blame -s -l HEAD -- %s" % path).stdout.decode().split("\n")
    fixes = set(sh("git log --format=%%H %s..HEAD" % base).stdout.decode().split())
    return [n for n in lines if out[n - 1].split()[0].lstrip("^") not in fixes]


def add(s):
    fresh()
    d = os.path.join(HERE, "seeded", s["id"])
    tmp = "/tmp/sd/" + s["id"]
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    for n, c in s.get("files", {}).items():
        open(os.path.join(tmp, n), "w").write(c)
    open(os.path.join(tmp, "demo.sh"), "w").write(DEMO_HEAD + s["demo"].lstrip("\n"))
    os.chmod(os.path.join(tmp, "demo.sh"), 0o755)
    r = sh("bash %s/demo.sh" % tmp)
    if r.returncode != 0:
        print(s["id"], "DEMO FAILS ON CLEAN TREE", r.stdout.decode()[-1500:])
        return False
    for path, old, new in s["edits"]:
        p = os.path.join(W, path)
        t = open(p).read()
        assert t.count(old) == 1, (s["id"], path, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = sh("git diff -U3").stdout.decode()
    changed, path, ln = [], None, 0
    for x in diff.split("\n"):
        if x.startswith("--- a/"):
            path = x[6:]
        elif x.startswith("@@"):
            ln = int(x.split()[1][1:].split(",")[0])
        elif x.startswith("-") and not x.startswith("---"):
            changed.append((path, ln))
            ln += 1
        elif x.startswith(" "):
            ln += 1
    mine = [(p, n) for p, n in changed if not original(p, [n])]
    if not changed or mine:
        print(s["id"], "NOTE: touches fix lines", mine, "of", len(changed))
    if not [c for c in changed if c not in mine]:
        print(s["id"], "REJECTED: no original line changed")
        return False
    b = sh("gofmt -l $(git diff --name-only); go build ./... && go build -o oct .")
    if b.returncode:
        print(s["id"], "BUILD", b.stdout.decode()[-1500:])
        return False
    t = sh("go test -json -vet=off -count=1 ./... ").stdout.decode()
    stable = set(map(str, json.load(open("/opt/vp/BASELINE.json")).get("stable", []))) or None
    failed = [json.loads(x) for x in t.split("\n") if x.startswith("{")]
    failed = [x["Test"] for x in failed if x["Action"] == "fail" and x.get("Test")]
    if failed:
        print(s["id"], "TESTS FAIL", failed)
        return False
    r = sh("bash %s/demo.sh" % tmp)
    if r.returncode == 0:
        print(s["id"], "DEMO DOES NOT FAIL")
        return False
    print(s["id"], "ok:", r.stdout.decode().strip().split("\n")[-1][:200])
    open(os.path.join(tmp, "patch.diff"), "w").write(diff)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(tmp, "meta.json"), "w"), indent=1)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(tmp, d)
    return True


DEMO_HEAD = """#!/bin/bash
# cwd: /repo, after the build; everything is written to a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export T here OCT="$PWD/oct"
"""


def catch(ids):
    for i in ids:
        d = os.path.join(HERE, "seeded", i)
        prop = json.load(open(d + "/meta.json"))["property"]
        fresh()
        a = sh("git apply %s/patch.diff" % d)
        if a.returncode:
            print(i, "DOES NOT APPLY")
            continue
        env = dict(ENV, VERIF_REPO=W)
        p = subprocess.run(["python3", "run.py", prop], cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        o = p.stdout.decode()
        hit = p.returncode == 1 and "VIOLATION property=%s " % prop in o
        first = [x for x in o.split("\n") if x.startswith("  ")][:1]
        print("%-28s %-4s %s rc=%d %s" % (i, prop, "CAUGHT" if hit else "** MISSED **", p.returncode, first[0][:160] if first else ""))
    fresh()


if __name__ == "__main__":
    if sys.argv[1] == "--catch":
        catch(sys.argv[2:] or sorted(os.listdir(os.path.join(HERE, "seeded"))))
    else:
        ns = {}
        exec(open(sys.argv[1]).read(), ns)
        for s in ns["SEEDS"]:
            if len(sys.argv) < 3 or s["id"] in sys.argv[2:]:
                add(s)
