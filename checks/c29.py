import copy
import random
from vlib import cmds as C, edits as E, gen as G, model as M, spec

PROPERTY = "C29"
RULE = ("seeded schemas (and pairs of schemas for diffs) with groups whose names are prefixes, suffixes or case variants "
        "of each other; every command with a groups option runs on the whole schema with --groups (any order, repeated, "
        "unknown or missing names) and on a schema reduced to the tables of these groups without the option; the files "
        "have to be byte-identical; no option, an empty one and all groups are the same; distinct = distinct outputs")
CMDS = [c for c in C.SINGLE + C.DIFF if any(o[0] == "groups" for o in spec.COMMANDS[c])]
FLOOR = dict({"filtered": 1500, "proper_subsets": 600, "empty_selection": 100, "all_groups": 300, "tables_left_out": 1500,
              "crossing_refs": 80}, **{c.replace(" ", "_"): 150 for c in CMDS})
ASSUMPTIONS = ["references between a selected table and one left out are compared only as far as that the same tables "
               "are written; tables which move to another group between two compared schemas are judged by C25-C27"]
POOLS = [["a", "ab", "abc", "b", "A"], ["g1", "g10", "g", "1", "g1x"], ["common", "commons", "Common", "com", "admin"],
         ["user", "order", "product", "my group"], ["a", "b"], ["가", "가나", "나"], ["x-y", "x", "y", "x.y", "x*"]]


def gen(rng, tier):
    for _ in range(300 if tier == "quick" else 4000):
        pool = rng.choice(POOLS)
        pool = rng.sample(pool, rng.randint(1, len(pool))) + rng.choice([[], [""]])
        kw = dict(group_pool=pool, max_tables=8, min_tables=2, names=rng.choice(["plain", "mixed"]), refs=0.4,
                  class_name=0.15)
        a, b, _ = E.pair(rng, **kw)
        ga = {t["name"]: t.get("group", "") for t in a["tables"]}
        for t in b["tables"]:
            if t["name"] in ga:
                t.pop("group", None)
                if ga[t["name"]]:
                    t["group"] = ga[t["name"]]
        runs = [[cmd, C.options(rng, cmd, b, groups=False), C.outname(rng, cmd)] for cmd in CMDS]
        groups = sorted({t.get("group", "") for t in a["tables"] + b["tables"]} - {""})
        sel = []
        if groups and rng.random() < 0.9:
            sel = rng.sample(groups, rng.randint(1, max(1, len(groups) - (rng.random() < 0.7))))
        if rng.random() < 0.25 or not sel:
            sel.append(rng.choice([x for x in rng.choice(POOLS) + ["nosuch"] if x]))
        if rng.random() < 0.2:
            sel.append(rng.choice(sel))
        rng.shuffle(sel)
        yield {"a": a, "b": b, "runs": runs, "sel": sel, "cross": rng.random() < 0.3, "style": rng.randrange(10 ** 6)}


def reduce(doc, sel):
    d = copy.deepcopy(doc)
    d["tables"] = [t for t in d["tables"] if t.get("group", "") in sel]
    return d


def uncross(doc, sel):
    """Drop references between selected and unselected tables; how many there were."""
    n = 0
    gr = {t["name"]: t.get("group", "") in sel for t in doc["tables"]}
    for t in doc["tables"]:
        for c in t["columns"]:
            if "ref" in c and gr[t["name"]] != gr.get(c["ref"]["table"], True):
                del c["ref"]
                n += 1
    return n


def run(case, ctx):
    r = random.Random(case["style"])
    sel, a, b = case["sel"], copy.deepcopy(case["a"]), copy.deepcopy(case["b"])
    crossing = sum(uncross(copy.deepcopy(d), sel) for d in (a, b))
    if not case["cross"]:
        uncross(a, sel), uncross(b, sel)
        crossing = 0
    full = [ctx.write("a.json", a), ctx.write("b.json", b)]
    ra, rb = reduce(a, sel), reduce(b, sel)
    red = [ctx.write("ra.json", ra), ctx.write("rb.json", rb)]
    for i, (cmd, opts, out) in enumerate(case["runs"]):
        dd = cmd in C.DIFF
        left = len(b["tables"]) - len(rb["tables"]) + (len(a["tables"]) - len(ra["tables"]) if dd else 0)
        refless = crossing and cmd in ("export dbml", "generate gorm", "generate kt", "generate pb", "generate plantuml")
        if refless:
            ctx.see("crossing_refs")
            r1 = crossed(ctx, r, i, cmd, full[1], opts, out, sel, rb)
            continue
        _, s1 = C.produce(ctx, cmd, full if dd else full[1], dict(opts, groups=",".join(sel)), out, "x%d" % i, "mix", r)
        _, s2 = C.produce(ctx, cmd, red if dd else red[1], opts, out, "y%d" % i, "mix", r)
        ctx.see("filtered")
        ctx.see(cmd.replace(" ", "_"))
        ctx.see("tables_left_out", left)
        if left:
            ctx.see("proper_subsets")
        if not rb["tables"]:
            ctx.see("empty_selection")
        p = C.describe(s1, s2)
        if p:
            ctx.fail("%s --groups %s is not what the tables of these groups alone give: %s" % (cmd, ",".join(sel), p))
        ctx.state([cmd] + sorted((k, str(v)) for k, v in s1.items()))
        # no groups, an empty value, all groups
        if i == case["style"] % len(case["runs"]) or i == (case["style"] // 7) % len(case["runs"]):
            ctx.see("all_groups")
            docs = full if dd else full[1]
            _, s0 = C.produce(ctx, cmd, docs, opts, out, "n%d" % i, "mix", r)
            _, s3 = C.produce(ctx, cmd, docs, dict(opts, groups=""), out, "m%d" % i, "long", r)
            p = C.describe(s0, s3)
            gs = [t.get("group", "") for t in b["tables"] + (a["tables"] if dd else [])]
            if not p and "" not in gs:
                gs = sorted(set(gs))
                r.shuffle(gs)
                _, s4 = C.produce(ctx, cmd, docs, dict(opts, groups=",".join(gs)), out, "k%d" % i, "mix", r)
                p = C.describe(s0, s4)
            if p:
                ctx.fail("%s without a group filter does not cover all tables: %s" % (cmd, p))


def crossed(ctx, r, i, cmd, doc, opts, out, sel, rb):
    """References leave the selection: the run has to work (or refuse a virtual relation), and the tables written
    have to be those of the groups."""
    os_ = dict(opts, groups=",".join(sel))
    res, s1 = C.produce(ctx, cmd, doc, os_, out, "x%d" % i, "mix", r)
    f = ctx.write("dropped.json", dropped(rb))
    _, s2 = C.produce(ctx, cmd, f, opts, out, "y%d" % i, "mix", r)
    ctx.same("%s files" % cmd, sorted(s1), sorted(s2))
    marks = [("Table ", "export dbml"), ("type ", "generate gorm"), ("message ", "generate pb")]
    for w, c in marks:
        if c == cmd:
            def heads(s):
                return [ln for k in sorted(s) for ln in s[k].decode("utf8").split("\n") if ln.startswith(w)]
            ctx.same("%s tables" % cmd, heads(s1), heads(s2))


def dropped(d):
    d = copy.deepcopy(d)
    have = {t["name"] for t in d["tables"]}
    for t in d["tables"]:
        for c in t["columns"]:
            if c.get("ref", {}).get("table") not in have:
                c.pop("ref", None)
    return d
