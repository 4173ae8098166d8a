from vlib import spec
from checks import c16

PROPERTY = "C17"
RULE = ("seeded random schemas generated to proto3 with every combination of relationTagStart (unset, -1, small enough to "
        "collide, exactly last+1, far beyond) and relationTagDecr, under random groups; a monitor assigns the documented "
        "numbers itself and compares every field number; distinct = distinct (numbers, options) tuples")
FLOOR = {"numbers_checked": 5000, "decreasing": 100, "shifted": 100, "start_kept": 100, "bad_start_refused": 10}


def gen(rng, tier):
    for _ in range(900 if tier == "quick" else 10000):
        c = c16.make(rng)
        c["start"] = rng.choice([None, None, "-1", "0", "1", "2", "3", "5", "8", "10", "12", "15", "100", "1000", "-5"])
        c["decr"] = rng.random() < 0.5
        if rng.random() < 0.03:
            c["start"] = rng.choice(["abc", "1x", "1.5"])
        yield c


def numbers(n, k, start, decr):
    """Column numbers 1..n and k relation numbers."""
    if decr:
        if start - k + 1 <= n:
            start = n + k
        return [start - i for i in range(k)]
    if start <= n:
        start = n + 1
    return [start + i for i in range(k)]


def run(case, ctx):
    extra = {"relationTagStart": case["start"], "relationTagDecr": case["decr"]}
    try:
        start = int(case["start"]) if case["start"] is not None else -1
    except ValueError:
        f = ctx.write("in.json", case["schema"])
        r = spec.run(ctx, "generate pb", {"input": f, "output": ctx.path("o.proto"), **extra}, ok=False)
        ctx.see("bad_start_refused")
        if r.rc == 0 or r.panicked:
            ctx.fail("relationTagStart %r is accepted: %s" % (case["start"], r.brief()))
        return
    d = c16.generate(case, ctx, **extra)
    if d is None:
        return
    exp = c16.expected(case)
    ctx.same("messages", [m["name"] for m in d["messages"]], [e[1] for e in exp])
    seen = []
    for (t, name, fields, rels), m in zip(exp, d["messages"]):
        got = [f["tag"] for f in m["fields"]]
        n, k = len(fields), len(rels)
        want = list(range(1, n + 1)) + numbers(n, k, start, case["decr"])
        ctx.see("numbers_checked", len(got))
        ctx.same("%s field numbers" % name, got, want)
        if len(set(got)) != len(got) or any(x < 1 for x in got):
            ctx.fail("%s has duplicate or non-positive field numbers %r" % (name, got))
        if k:
            if case["decr"]:
                ctx.see("decreasing")
            ctx.see("start_kept" if want[n] == start else "shifted")
        seen.append(got)
    if seen:
        ctx.state([seen, case["start"], case["decr"]])
