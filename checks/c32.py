import itertools
import os
import random
import re
from vlib import cmds as C, edits as E, gen as G, imports as I, model as M, spec, strcase

PROPERTY = "C32"
RULE = ("for every command and each of its documented options, generated inputs and values on which the option shows an "
        "effect: `--name value`, `--name=value`, `-alias value`, `-alias=value` and the environment variable, combined "
        "with a random spelling of the other options in random order, give byte-identical files; an explicit value wins "
        "over a different value in the environment; flags also as =true/=false/1/0; leaving out any required option "
        "fails and writes nothing, while the environment may supply it; unknown commands and options, options without their value and flags with another value than true or false are refused with a message and no file; --help lists each option with alias and variable; distinct = distinct (command, option, output)")
VALUES = {"prefix": ["Pre", "Zz"], "removePrefix": ["tb_", "t_"], "uniqueNameSuffix": ["_uq", "_KEY"],
          "author": ["alice", "bob"], "version": ["1.2.3", "9.0"], "package": ["alpha", "beta.gamma"],
          "graphqlPackage": ["a.b", "c.d"], "goPackage": ["x/y", "z"], "relation": ["VRelation", "Other"],
          "idEntity": ["IdEntity", "base.HasId"], "reposPackage": ["repos", "com.repos"],
          "annotation": ["@One", "@Two"], "relationTagStart": ["30", "50"], "embed": ["Base:id,name", "Other:id"],
          "groups": ["ga", "gb"], "excludes": ["tb_user", "t_order"]}
NOEFFECT = {("generate graphql", "graphqlPackage"), ("generate kt", "useUTC"), ("diff flyway", "author"),
            ("diff md", "author"), ("diff md", "uniqueNameSuffix")}
REQUIRED = ("input", "output", "from", "to")
ALL = C.SINGLE + C.DIFF + I.CMDS + ["init"]
FLOOR = {"spellings": 3000, "env_overridden": 500, "missing_required": 200, "required_from_env": 100, "refused_lines": 500, "help_texts": 200}
for _c in ALL:
    for _o in spec.COMMANDS[_c]:
        if _o[0] not in REQUIRED and (_c, _o[0]) not in NOEFFECT:
            FLOOR["effect %s %s" % (_c, _o[0])] = 5
ASSUMPTIONS = ["five documented options have no effect on the output (graphqlPackage; useUTC of generate kt; author of "
               "diff flyway and md; uniqueNameSuffix of diff md): for them only the acceptance of every spelling is observed"]


def schema(r):
    g = G.Gen(r, names="plain", max_tables=3, max_cols=5, group_pool=["ga", "gb", ""], alias=0, desc_p=0.8, class_name=0)
    s = g.schema()
    used = {t["name"] for t in s["tables"]}
    s["tables"] = [t for t in s["tables"] if t["name"] not in ("tb_user", "t_order", "user", "order")]
    for t in s["tables"]:
        for c in t["columns"]:
            if c.get("ref", {}).get("table") not in {x["name"] for x in s["tables"]}:
                c.pop("ref", None)
    s["tables"] += [
        {"name": "tb_user", "group": "ga", "desc": "users", "columns": [
            {"name": "id", "type": "int64", "pk": True, "notnull": True, "desc": "key"},
            {"name": "name", "type": "varchar", "size": r.choice([10, 20]), "unique": True, "desc": "login"},
            {"name": "created_at", "type": "datetime"}]},
        {"name": "t_order", "group": "gb", "desc": "orders", "columns": [
            {"name": "id", "type": "int64", "pk": True, "notnull": True, "desc": "key"},
            {"name": "name", "type": "varchar", "size": 40, "unique": True},
            {"name": "user_id", "type": "int64", "desc": "buyer",
             "ref": {"table": "tb_user", "column": "id", "relationship": r.choice(["n:1", "1:n"])}},
            {"name": "parent_id", "type": "int64",
             "ref": {"table": "t_order", "column": "id", "relationship": "n:1"}},
            {"name": "created_at", "type": "timestamp", "notnull": True}]}]
    return s


def gen(rng, tier):
    for _ in range(20 if tier == "quick" else 150):
        for cmd in ALL:
            case = {"cmd": cmd, "style": rng.randrange(10 ** 6)}
            if cmd in I.CMDS:
                case["imp"] = I.make(rng, cmd)
                if cmd == "import mysql":
                    case["imp"]["text"] = "CREATE TABLE tb_user (id int);\nCREATE TABLE t_order (id int);\n" \
                                          + "CREATE TABLE other%d (x int);" % rng.randrange(99)
            elif cmd != "init":
                a = schema(rng)
                g = G.Gen(rng, names="plain", class_name=0)
                _, b, _ = E.evolve(rng, g, a, 4)
                for t in b["tables"]:
                    t["desc"] = "changed " + t.get("desc", "")
                    for c in t["columns"]:
                        c["desc"] = "new " + c.get("desc", "")
                    t["columns"].append({"name": "extra_%d" % rng.randrange(9), "type": "int32"})
                    t["columns"].append({"name": "xname_%d" % rng.randrange(9), "type": "char", "unique": True})
                b["tables"].append({"name": "brand_new", "group": "gb",
                                    "columns": [{"name": "id", "type": "int32", "pk": True, "desc": "d"}]})
                b["tables"].append({"name": "brand_new_a", "group": "ga",
                                    "columns": [{"name": "id", "type": "int32", "pk": True, "desc": "d"}]})
                case["a"], case["b"] = a, b
            yield case


def argv(r, cmd, given):
    """given: [(name, value, spelling)] in random order -> argv, env."""
    table = {o[0]: o for o in spec.COMMANDS[cmd]}
    parts, env = [], {}
    for name, v, st in given:
        _, short, var, kind = table[name]
        if not short and st in ("short", "shorteq"):
            st = "long"
        flag = {"long": "--" + name, "eq": "--" + name, "short": "-%s" % short, "shorteq": "-%s" % short}.get(st)
        if st == "env":
            env[var] = {True: r.choice(["true", "1", "TRUE"]), False: r.choice(["false", "0"])}[v] if kind == "bool" else v
        elif kind == "bool":
            if v and st in ("long", "short"):
                parts.append([flag])
            else:
                parts.append(["%s=%s" % (flag, {True: r.choice(["true", "1"]), False: r.choice(["false", "0"])}[v])])
        elif st in ("eq", "shorteq"):
            parts.append(["%s=%s" % (flag, v)])
        else:
            parts.append([flag, v])
    r.shuffle(parts)
    return cmd.split() + list(itertools.chain(*parts)), env


SP = ("long", "eq", "short", "shorteq", "env")


def run(case, ctx):
    r = random.Random(case["style"])
    cmd = case["cmd"]
    n = [0]
    req = {}
    if "imp" in case:
        req["input"] = ctx.write(case["imp"]["name"], I.data(case["imp"]))
    elif cmd in C.DIFF:
        req["from"], req["to"] = ctx.write("a.json", case["a"]), ctx.write("b.json", case["b"])
    elif cmd != "init":
        req["input"] = ctx.write("b.json", case["b"])
    out = r.choice(C.OUTS[cmd]) if cmd in C.OUTS else "o.json"
    opts = [o for o in spec.COMMANDS[cmd] if o[0] not in REQUIRED]

    def value(o):
        return True if o[3] == "bool" else r.choice(VALUES[o[0]])

    def go(given, output=True, extra_env=None, ok=True, missing=None):
        """Files written (or None if the command failed) with `given` options [(name, value, spelling)]."""
        n[0] += 1
        w = "w%d" % n[0]
        os.makedirs(ctx.path(w, "cwd"))
        g = [(k, v, r.choice(SP)) for k, v in req.items() if k != missing]
        if output and missing != "output":
            g.append(("output", ctx.path(w, "cwd", out), r.choice(SP)))
        a, env = argv(r, cmd, g + given)
        env.update(extra_env or {})
        res = ctx.oct(*a, env=env, cwd=ctx.path(w, "cwd"))
        snap = C.snapshot(ctx.path(w, "cwd"))
        if ok and res.rc:
            ctx.fail("%s failed: %s" % ([x.replace(ctx.dir, "$D") for x in a] + sorted(env), res.brief()))
            return None
        if not ok:
            if res.rc == 0 or res.panicked:
                ctx.fail("%s without the required option %s: %s" % (cmd, missing, res.brief()))
            elif not (res.err + res.out).strip():
                ctx.fail("%s without the required option %s gave no message" % (cmd, missing))
            if [x for x in snap if not x.endswith("/")]:
                ctx.fail("%s without the required option %s still wrote %s" % (cmd, missing, sorted(snap)))
        return snap

    # every option: all spellings, on top of random others
    for o in opts:
        others = [(x[0], value(x)) for x in opts if x is not o and r.random() < 0.3]
        if o[0] == "uniqueNameSuffix" or cmd == "generate pb" and o[0].startswith("relation"):
            others = [x for x in others if x[0] != "groups"]
        v = value(o)

        def rest():
            return [(k, x, r.choice(SP)) for k, x in others]
        base = go(rest())
        ref = go(rest() + [(o[0], v, "long")])
        if base is None or ref is None:
            continue
        if base != ref:
            ctx.see("effect %s %s" % (cmd, o[0]))
        ctx.state([cmd, o[0], sorted((k, str(x)) for k, x in ref.items())])
        table = "%s --%s=%s" % (cmd, o[0], v)
        for st in SP[1:]:
            got = go(rest() + [(o[0], v, st)])
            ctx.see("spellings")
            p = got is not None and C.describe(ref, got)
            if p:
                ctx.fail("%s given as %s (%s) is not the same: %s" % (table, st, o[2] if st == "env" else o[1], p))
        # explicit wins over the environment
        if o[3] == "bool":
            other, envv = False, "true"
            want = base
            got = go(rest() + [(o[0], False, r.choice(("eq", "shorteq")))], extra_env={o[2]: "true"})
            ctx.see("env_overridden")
            p = got is not None and C.describe(want, got)
            if p:
                ctx.fail("%s: --%s=false does not win over %s=true: %s" % (cmd, o[0], o[2], p))
            got = go(rest() + [(o[0], True, r.choice(SP[:4]))], extra_env={o[2]: "false"})
        else:
            envv = [x for x in VALUES[o[0]] if x != v][0]
            got = go(rest() + [(o[0], v, r.choice(SP[:4]))], extra_env={o[2]: envv})
        ctx.see("env_overridden")
        p = got is not None and C.describe(ref, got)
        if p:
            ctx.fail("%s does not win over the environment %s: %s" % (table, o[2], p))
    refusals(r, cmd, ctx, req, out)
    # required options
    ref = go([])
    if ref is None:
        return
    ctx.state([cmd, sorted((k, str(x)) for k, x in ref.items())])
    if cmd == "init":
        got = go([], output=False)
        ctx.see("missing_required")
        if got is not None and (set(got) != {"db.json"} or got["db.json"] != ref[out]):
            ctx.fail("init without --output wrote %s" % sorted(got))
        return
    for name in list(req) + ["output"]:
        given = [(x[0], value(x), r.choice(SP)) for x in opts if r.random() < 0.3]
        go(given, missing=name, ok=False)
        ctx.see("missing_required")
    for name in req:                        # explicit input wins over the environment
        var = [o[2] for o in spec.COMMANDS[cmd] if o[0] == name][0]
        w = "e%d" % n[0]
        os.makedirs(ctx.path(w))
        g = [(k, v, r.choice(SP) if k != name else r.choice(SP[:4])) for k, v in req.items()]
        g.append(("output", ctx.path(w, out), r.choice(SP[:4])))
        a, env = argv(r, cmd, g)
        env[var] = ctx.path("nosuchfile.json")
        env["OCTOPUS_OUTPUT"] = ctx.path("elsewhere")
        res = ctx.oct(*a, env=env)
        ctx.see("required_from_env")
        got = C.snapshot(ctx.path(w))
        p = C.describe(ref, got)
        if res.rc or p or ctx.exists("elsewhere"):
            ctx.fail("%s: an explicit --%s and --output do not win over the environment: %s %s" % (cmd, name, p, res.brief()))
        n[0] += 1


def refusals(r, cmd, ctx, req, out):
    """Command lines nobody documented are refused; --help tells the documented ones. Neither writes a file."""
    os.makedirs(ctx.path("bad"))
    base = [(k, v, r.choice(SP)) for k, v in req.items()] + [("output", ctx.path("bad", out), r.choice(SP))]
    table = [o for o in spec.COMMANDS[cmd]]

    def bad(what, a, env):
        res = ctx.oct(*a, env=env, cwd=ctx.path("bad"))
        ctx.see("refused_lines")
        shown = [x.replace(ctx.dir, "$D") for x in a] + sorted(k for k in env if env[k] == "maybe")
        if res.rc == 0 or res.panicked or not (res.err + res.out).strip():
            ctx.fail("%s is not refused: %s %s" % (what, shown, res.brief()))
        if C.snapshot(ctx.path("bad")):
            ctx.fail("%s is refused, but writes files: %s" % (what, shown))
    a, env = argv(r, cmd, base)
    n = len(cmd.split())
    o = r.choice(table)
    wrong = r.choice(["--" + o[0][:-1] + "q", "--" + o[0].upper(), "--no-" + o[0], "-Z", "--nosuch"])
    at = r.choice([n, len(a)])
    bad("an unknown option", a[:at] + [wrong + "=1"] + a[at:], env)
    words = cmd.split()
    words[-1] = r.choice([words[-1] + "x", words[-1][:-1], words[-1].upper(), "nosuch"])
    bad("an unknown command", words + a[n:], env)
    texts = [o for o in table if o[3] == "str" and o[0] not in dict((b[0], 1) for b in base)]
    if texts:
        o = r.choice(texts)
        bad("an option without its value", a + [r.choice(["--" + o[0]] + (["-" + o[1]] if o[1] else []))], env)
    flags = [o for o in table if o[3] == "bool"]
    if flags:
        o = r.choice(flags)
        bad("a flag with a value that is no truth value", a + ["--%s=maybe" % o[0]], env)
        bad("a flag whose variable is no truth value", a, dict(env, **{o[2]: "maybe"}))
    res = ctx.oct(*(cmd.split() + [r.choice(["--help", "-h"])]), cwd=ctx.path("bad"))
    ctx.see("help_texts")
    if res.rc or C.snapshot(ctx.path("bad")):
        ctx.fail("--help of %s: %s" % (cmd, res.brief()))
    lines = res.out.split("\n")
    for o in table:
        ln = [x for x in lines if re.match(r"\s*--%s(?![A-Za-z])" % o[0], x)]
        if len(ln) != 1:
            ctx.fail("--help of %s does not list --%s once" % (cmd, o[0]))
        elif o[1] and not re.search(r"[ ,]-%s(?![A-Za-z])" % o[1], ln[0]) or "$" + o[2] not in ln[0]:
            ctx.fail("--help of %s lists --%s without its alias or variable: %s" % (cmd, o[0], ln[0]))
