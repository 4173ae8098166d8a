import copy
import random
from vlib import cmds as C, edits as E, gen as G, model as M

PROPERTY = "C01"
RULE = ("seeded random schemas are written once with canonical lower-case types and once with random documented aliases "
        "and letter cases; every export, generate and diff command runs on both with the same random options and all "
        "files written have to be byte-identical; distinct = distinct output sets")
FLOOR = dict({"pairs": 2500, "respelled": 5000}, **{c.replace(" ", "_"): 150 for c in C.SINGLE + C.DIFF})
for _a in M.ALIAS:
    FLOOR["alias_" + _a] = 20
for _t in M.CANON:
    FLOOR["upper_" + _t] = 5


def gen(rng, tier):
    for _ in range(260 if tier == "quick" else 4000):
        kw = dict(names=rng.choice(["plain", "mixed", "odd"]), max_tables=4, alias=0, casevar=0, max_cols=10,
                  class_name=0.15, autoinc_p=0.6)
        a, b, _ = E.pair(rng, **kw)
        for d in (a, b):
            for t in d["tables"]:
                for c in t["columns"]:
                    c["type"] = M.canon_type(c["type"])
        runs = []
        for cmd in C.SINGLE + C.DIFF:
            runs.append([cmd, C.options(rng, cmd, b), C.outname(rng, cmd), rng.randrange(10 ** 6)])
        yield {"a": a, "b": b, "runs": runs, "mode": rng.choice(["alias", "alias", "mix", "case"]),
               "style": rng.randrange(10 ** 6)}


def respell(r, doc, mode, see):
    d = copy.deepcopy(doc)
    for t in d["tables"]:
        for c in t["columns"]:
            ct = c["type"]
            al = [a for a, x in M.ALIAS.items() if x == ct]
            s = ct
            if al and mode != "case" and r.random() < 0.85:
                s = r.choice(al)
                see("alias_" + s)
            if mode != "alias" or s == ct or r.random() < 0.2:
                k = r.random()
                if k < 0.4:
                    s = s.upper()
                    if s.lower() == ct:
                        see("upper_" + ct)
                elif k < 0.6:
                    s = s.capitalize()
                elif k < 0.9:
                    s = "".join(ch.upper() if r.random() < 0.5 else ch for ch in s)
            if s != ct:
                see("respelled")
            c["type"] = s
    return d


def run(case, ctx):
    r = random.Random(case["style"])
    one = [ctx.write("a.json", case["a"]), ctx.write("b.json", case["b"])]
    two = [ctx.write("a2.json", respell(r, case["a"], case["mode"], ctx.see)),
           ctx.write("b2.json", respell(r, case["b"], case["mode"], ctx.see))]
    for i, (cmd, opts, out, style) in enumerate(case["runs"]):
        d1, d2 = (one, two) if cmd in C.DIFF else (one[1], two[1])
        r1, s1 = C.produce(ctx, cmd, d1, opts, out, "x%d" % i, "mix", random.Random(style))
        r2, s2 = C.produce(ctx, cmd, d2, opts, out, "y%d" % i, "mix", random.Random(style))
        ctx.see("pairs")
        ctx.see(cmd.replace(" ", "_"))
        p = C.describe(s1, s2)
        if p:
            ctx.fail("%s %r depends on the spelling of column types: %s" % (cmd, opts, p))
        ctx.state(sorted((k, str(v)) for k, v in s1.items()))
