import os
import random
import re
from vlib import cmds as C, gen as G, model as M, naming, spec, strcase

PROPERTY = "C30"
RULE = ("seeded schemas with prefixed, mixed-case and numbered table names, class names and groups which are prefixes of "
        "each other; random --prefix (one for all, per group, empty, unknown groups, prefixes containing colons) and "
        "--removePrefix lists (several, overlapping, repeated, matching elsewhere in the name); the classes of every "
        "generator, the references to them and file names are compared with the documented rule; then entries of other "
        "groups and prefixes that match nothing are added, which must change nothing; distinct = distinct name maps")
CMDS = ["generate gorm", "generate kt", "generate pb", "generate sqlalchemy", "generate graphql"]
FLOOR = {"names_checked": 4000, "class_names": 400, "prefixed": 800, "stripped": 600, "stripped_twice": 20,
         "references": 800, "neutral_entries": 1500, "group_prefixes": 500, "empty_prefix": 50}
ASSUMPTIONS = ["className is for ORM code: proto messages do not use it", "graphql has no prefix options",
               "names stay distinct and are identifiers"]
HEAD = {"generate gorm": r"^type (\w+) struct", "generate pb": r"^message (\w+) \{", "generate sqlalchemy": r"^class (\w+)\(Base\)",
        "generate graphql": r"^type (\w+) \{", "generate kt": r"^data class (\w+)"}
POOLS = [["a", "ab", "abc", "b"], ["g1", "g10", "g"], ["common", "com", "admin"], ["x y", "x", "y"], ["한글", "a"], ["Ab", "ab", "Shop"], ["AUTH", "auth", "g"]]


def gen(rng, tier):
    for _ in range(420 if tier == "quick" else 7000):
        pool = list(rng.choice(POOLS)) + rng.choice([[], [""]])
        g = G.Gen(rng, names=rng.choice(["plain", "mixed", "mixed"]), group_pool=pool, max_tables=7, min_tables=2,
                  max_cols=5, refs=0.4, class_name=0.25, desc_p=0.2)
        s = g.schema()
        for t in s["tables"]:               # more prefixes to remove
            if rng.random() < 0.5:
                new = rng.choice(["tb_", "t_", "tb_t_", "app_", "TB_", "db2_"]) + t["name"]
                if new not in {x["name"] for x in s["tables"]}:
                    for x in s["tables"]:
                        for c in x["columns"]:
                            if c.get("ref", {}).get("table") == t["name"]:
                                c["ref"]["table"] = new
                    t["name"] = new
        ts = M.canon(s)["tables"]
        jobs = []
        for cmd in CMDS:
            o = C.options(rng, cmd, s)
            o.pop("embed", None), o.pop("prefix", None), o.pop("removePrefix", None)
            if cmd != "generate graphql":
                o.update(pick(rng, ts, cmd != "generate pb"))
            else:
                names = [naming.class_name(t).lower() for t in ts]
                if len(set(names)) != len(names):
                    continue
            jobs.append([cmd, o, C.outname(rng, cmd)])
        yield {"schema": s, "jobs": jobs, "style": rng.randrange(10 ** 6)}


def pick(rng, ts, use_class):
    groups = sorted({t["group"] for t in ts} - {""})
    for _ in range(60):
        o = {}
        x = rng.random()
        if x < 0.2:
            o["prefix"] = rng.choice(["P", "App", "X1", "My_"])
        elif x < 0.85 and groups:
            toks = ["%s:%s" % (g, rng.choice(["C", "Adm", "Sh", "Z9", ""])) for g in rng.sample(groups, rng.randint(1, len(groups)))]
            if rng.random() < 0.2:
                toks.insert(rng.randrange(len(toks) + 1), "nosuch:N")
            if rng.random() < 0.15:
                toks.insert(rng.randrange(len(toks) + 1), rng.choice(["stray", ""]))
            o["prefix"] = ",".join(toks)
        if rng.random() < 0.7:
            firsts = [t["name"].split("_")[0] + "_" for t in ts if "_" in t["name"]]
            pool = ["tb_", "t_", "app_", "TB_", "tb_t_", "nosuch_", "user", "b_", "db2_"] + firsts
            o["removePrefix"] = ",".join(rng.choice(pool) for _ in range(rng.choice([1, 1, 2, 3, 4])))
        names = [naming.class_name(t, o.get("prefix"), o.get("removePrefix"), use_class) for t in ts]
        if len({n.lower() for n in names}) == len(names) and all(re.fullmatch(r"[A-Za-z]\w*", n) for n in names):
            return o
    return {}


def run(case, ctx):
    r = random.Random(case["style"])
    f = ctx.write("in.json", case["schema"])
    s = M.canon(case["schema"])
    for i, (cmd, opts, out) in enumerate(case["jobs"]):
        o = dict(opts)
        use = cmd != "generate pb"
        prefix, remove = o.get("prefix"), o.get("removePrefix")
        ts = M.in_groups(s["tables"], o.get("groups"))
        have = {t["name"] for t in s["tables"]}
        nm = {t["name"]: naming.class_name(t, prefix, remove, use) for t in s["tables"]}
        _, snap = C.produce(ctx, cmd, f, o, out, "x%d" % i, "mix", r)
        text = {k: v.decode("utf8") for k, v in snap.items() if v is not None}
        got = []
        for k in sorted(text):
            got += [m for m in re.findall(HEAD[cmd], text[k], re.M)]
        if cmd == "generate kt":
            got = [n for n in got if n in [os.path.basename(k)[:-3] for k in text]]
        if cmd == "generate graphql":
            got = [n for n in got if n != "Query"]
        if cmd == "generate gorm":
            got = [n for n in got if n != (o.get("embed") or ":").split(":")[0]]
        ctx.same("%s %s classes" % (cmd, {"prefix": prefix, "removePrefix": remove}), sorted(got),
                 sorted(nm[t["name"]] for t in ts))
        for t in ts:
            ctx.see("names_checked")
            if use and t["className"]:
                ctx.see("class_names")
                continue
            st = naming.strip(t["name"], remove)
            ctx.see("stripped", st != t["name"])
            ctx.see("prefixed", bool(naming.prefix_for(prefix, t["group"])))
            ctx.see("group_prefixes", ":" in (prefix or "") and bool(naming.prefix_for(prefix, t["group"])))
            ctx.see("empty_prefix", ":" in (prefix or "") and "%s:" % t["group"] in (prefix or "").split(","))
            n = sum(1 for p in (remove or "").split(",") if p and (t["name"] + "/").find(p) >= 0)
            ctx.see("stripped_twice", n > 1 and st != t["name"])
        ctx.state([cmd, prefix, remove, sorted(nm.items())])
        references(ctx, cmd, o, ts, nm, text, have, s)
        neutral(ctx, r, i, cmd, f, o, out, snap, s)


def references(ctx, cmd, o, ts, nm, text, have, s):
    """Other classes are referred to by the same name."""
    every = "\n".join(text.values())
    sel = {t["name"] for t in ts}
    for t in ts:
        for c in t["columns"]:
            if not c["ref"] or c["ref"]["table"] not in have:
                continue
            n = nm[c["ref"]["table"]]
            if cmd == "generate kt" and o.get("relation") == "VRelation":
                ctx.see("references")
                if 'cls = "%s"' % n not in text_of(text, nm[t["name"]] + ".kt"):
                    ctx.fail("kt %s: the virtual relation to %s is not to class %s" % (t["name"], c["ref"]["table"], n))
            elif cmd == "generate pb" and c["ref"]["table"] in sel:
                ctx.see("references")
                m = re.search(r"^message %s \{(.*?)^\}" % re.escape(nm[t["name"]]), every, re.M | re.S)
                if not m or not re.search(r"^\s+(repeated )?%s \w+ = \d+;" % re.escape(n), m.group(1), re.M):
                    ctx.fail("pb %s: no relation field of type %s" % (t["name"], n))
            elif cmd == "generate gorm" and c["ref"]["table"] in sel:
                ctx.see("references")
                m = re.search(r"^type %s struct \{(.*?)^\}" % re.escape(nm[t["name"]]), every, re.M | re.S)
                if not m or not re.search(r"^\s+\w+\s+[*\[\]]*%s(\s|$)" % re.escape(n), m.group(1), re.M):
                    ctx.fail("gorm %s: no association of type %s" % (t["name"], n))
        if cmd == "generate kt" and o.get("reposPackage") and any(c["pk"] for c in t["columns"]):
            ctx.see("references")
            n = nm[t["name"]]
            if "interface %sRepository" % n not in text_of(text, n + "Repository.kt"):
                ctx.fail("kt: no repository named after class %s" % n)


def text_of(text, base):
    return "\n".join(v for k, v in text.items() if os.path.basename(k) == base)


def neutral(ctx, r, i, cmd, f, o, out, snap, s):
    """Entries of other groups, and prefixes no table starts with, have no effect."""
    if cmd == "generate graphql":
        return
    o2 = dict(o)
    groups = {t["group"] for t in s["tables"]}
    if ":" in o.get("prefix", ":") and o.get("prefix"):
        toks = o["prefix"].split(",")
        for g in ("zzz", "a1", "g100", "commo", "", "admin2"):
            if g not in groups:
                toks.insert(r.randrange(len(toks) + 1), "%s:%s" % (g, r.choice(["Bad", "Q"])))
        o2["prefix"] = ",".join(toks)
    rem = [x for x in (o.get("removePrefix") or "").split(",") if x]
    r2 = list(rem)
    for p in ("qqq_", "zz", "_user9"):
        if not any(p in t["name"] for t in s["tables"]):
            r2.insert(r.randrange(len(r2) + 1), p)
    o2["removePrefix"] = ",".join(r2)
    ctx.see("neutral_entries")
    _, s2 = C.produce(ctx, cmd, f, o2, out, "y%d" % i, "mix", r)
    p = C.describe(snap, s2)
    if p:
        ctx.fail("%s: prefix entries of other groups or names (%r instead of %r) change the output: %s"
                 % (cmd, {k: o2.get(k) for k in ("prefix", "removePrefix")}, {k: o.get(k) for k in ("prefix", "removePrefix")}, p))
