import copy
import json
import re
from collections import Counter
from vlib import cmds as C, edits as E, gen as G, imports as I, spec, xlsxio as X

PROPERTY = "C39"
RULE = ("two schemas (for diffs: two pairs of versions) which share no table are converted alone and joined into one, their tables "
        "mixed; what is written for the joined schema has to be, line by line, what is written for the one plus what is written for "
        "the other (headers counted once, import lines united, change set numbers ignored); the same for the tables read from "
        "joined MySQL and v1 inputs; distinct = distinct (command, lines) observed")
FLOOR = dict({"lines_compared": 40000, "tables_joined": 2500, "imports_joined": 150}, **{c.replace(" ", "_"): 60 for c in C.SINGLE + C.DIFF})
ASSUMPTIONS = ["the two schemas share no table, class or index name (the second one's are prefixed; columns often have the same names), so that no table is taken for a renamed one "
               "and no reference crosses"]
MARK = "zz_"
MYSQL = {"primary", "unique", "key", "index", "constraint", "foreign", "fulltext", "spatial", "check", "references"}


def rename(s, cols=True):
    """The same schema under names that no other schema of the workload has."""
    s = copy.deepcopy(s)
    for t in s["tables"]:
        t["name"] = MARK + t["name"]
        if t.get("className"):
            t["className"] = "Zz" + t["className"]
        for i in t.get("indices") or []:
            i["name"] = MARK + i["name"]
            if cols:
                i["columns"] = [MARK + c for c in i["columns"]]
        for c in t["columns"]:
            if cols:
                c["name"] = MARK + c["name"]
            if c.get("ref"):
                c["ref"]["table"] = MARK + c["ref"]["table"]
                if cols:
                    c["ref"]["column"] = MARK + c["ref"]["column"]
    return s


def twist(rng, a):
    """Other tables whose columns have the names of a's, but other types and attributes."""
    b = rename(a, False)
    for t in b["tables"]:
        names = [c["name"] for c in t["columns"]]
        rng.shuffle(names)
        for c, n in zip(t["columns"], names):
            c["name"] = n
    return b


def ddl_like(rng, text, n):
    """DDL of n other tables whose columns have the names that stand in a DDL text."""
    names = sorted({x.lower() for x in re.findall(r"`(\w+)`|^\s+(\w+) ", text, re.M) for x in x if x.isidentifier()} - MYSQL)
    out = ""
    for i in range(n):
        cols = rng.sample(names, min(len(names), rng.randint(1, 6))) or ["x"]
        lines = ["  `%s` %s%s" % (c, rng.choice(["int", "varchar(7)", "datetime", "decimal(5,2)", "text", "tinyint(1)", "enum('a','b')"]),
                                rng.choice(["", "", " NOT NULL", " COMMENT 'z'"])) for c in cols]
        if rng.random() < 0.4:
            lines.append("  %s (`%s`)" % (rng.choice(["PRIMARY KEY", "UNIQUE KEY `u`", "KEY `k`"]), rng.choice([c for c in cols])))
        out += "CREATE TABLE `%s%d` (\n%s\n);\n" % (MARK, i, ",\n".join(lines))
    return out


def join(rng, a, b):
    s = {k: v for k, v in a.items() if k != "tables"}
    s["tables"] = copy.deepcopy(a["tables"] + b["tables"])
    rng.shuffle(s["tables"])
    return s


def alone(a, tables):
    return dict({k: v for k, v in a.items() if k != "tables"}, tables=tables)


def gen(rng, tier):
    kw = dict(ref_dangling=0, max_tables=4)
    for i in range(360 if tier == "quick" else 3000):
        names = rng.choice(["plain", "mixed"])
        if i % 2:
            a = G.schema(rng, names=names, **kw)
            b = rename(G.schema(rng, names=names, **kw), rng.random() < 0.5) if rng.random() < 0.5 else twist(rng, a)
            cmds = rng.sample(C.SINGLE, 9)
            docs = [alone(a, []), a, alone(a, b["tables"]), join(rng, a, b)]
            yield {"kind": "single", "docs": docs, "runs": [[c, C.options(rng, c, a), C.outname(rng, c)] for c in cmds]}
        else:
            a = E.pair(rng, names=names, **kw)[:2]
            b = [rename(x) for x in E.pair(rng, names=names, **kw)[:2]]
            docs = [[alone(a[k], []), a[k], alone(a[k], b[k]["tables"]), join(rng, a[k], b[k])] for k in (0, 1)]
            yield {"kind": "diff", "docs": docs, "runs": [[c, C.options(rng, c, a[rng.choice([0, 1])]), C.outname(rng, c)] for c in C.DIFF]}
    for i in range(240 if tier == "quick" else 3000):
        c = ["import mysql", "import ojson"][i % 2]
        x, y = I.make(rng, c), I.make(rng, c)
        if c == "import mysql" and rng.random() < 0.6:
            y["text"] = ddl_like(rng, x["text"], rng.randint(1, 4))
        yield {"kind": "import", "imps": [x, y], "swap": rng.random() < 0.3}


HEAD = {"generate gorm": r'^\t"[^"]*"$', "generate kt": r"^import .*$", "generate pb": r'^import "[^"]*";$', "generate sqlalchemy": r"^from .*$|^import .*$"}
TZ = re.compile(r"\n\nclass TZDateTime\(TypeDecorator\):\n(?:(?: .*)?\n)*?(?=\n\n?\S|\Z)")


def facts(cmd, files):
    """({file: lines of the body}, what the headers import) of an output."""
    body, head = {}, {}
    for f, b in files.items():
        lines, imports = Counter(), set()
        if b is None:
            continue
        if f.endswith(".xlsx"):
            for name, rows in X.read(b):
                for k, r in enumerate(rows):
                    while r and not r[-1]:
                        r = r[:-1]
                    if not r:
                        continue
                    if name == "Meta" or k == 0:
                        imports.add("%s: %r" % (name, r))
                    else:
                        lines["%s: %r" % (name, r)] += 1
        else:
            s = b.decode("utf8")
            if cmd == "generate sqlalchemy":
                m = TZ.search(s)
                if m:
                    imports.add(m.group(0).strip())
                    s = s[:m.start()] + "\n" + s[m.end():]
            for line in s.split("\n"):
                if cmd in HEAD and re.match(HEAD[cmd], line):
                    imports |= {line} if not line.startswith("from sqlalchemy import ") else set(re.split(r", | import ", line))
                    continue
                if "liquibase" in cmd:
                    line = re.sub(r"^(\s*(?:- )?id: )\S+$", r"\1#", line)
                if line.strip():
                    lines[line] += 1
        body[f], head[f] = lines, imports
    return body, head


def run(case, ctx):
    if case["kind"] == "import":
        return imported(case, ctx)
    if case["kind"] == "single":
        paths = [ctx.write("%d.json" % i, d) for i, d in enumerate(case["docs"])]
        ctx.see("tables_joined", len(case["docs"][3]["tables"]))
    else:
        paths = [[ctx.write("%d%d.json" % (k, i), case["docs"][k][i]) for k in (0, 1)] for i in range(4)]
        ctx.see("tables_joined", len(case["docs"][1][3]["tables"]))
    for n, (cmd, opts, out) in enumerate(case["runs"]):
        snaps = [C.produce(ctx, cmd, p, opts, out, "w%d_%d" % (n, i))[1] for i, p in enumerate(paths)]
        (none, h0), (a, ha), (b, hb), (ab, hab) = [facts(cmd, s) for s in snaps]
        ctx.see(cmd.replace(" ", "_"))
        if set(ab) != set(a) | set(b):
            ctx.fail("%s %r writes %r for the joined schemas, %r and %r for each" % (cmd, show(opts), sorted(ab), sorted(a), sorted(b)))
            continue
        for f in ab:
            zero = Counter()
            x, y, z = a.get(f, zero), b.get(f, zero), ab[f]
            want = Counter(x)
            want.update(y)
            if f in a and f in b:
                want.subtract(none.get(f, zero))
                want = +want
            ctx.see("lines_compared", sum(z.values()))
            if want != z:
                d = [k for k in set(want) | set(z) if want[k] != z[k]]
                d.sort()
                ctx.fail("%s %r: %s of the joined schemas has %d times, alone %d and %d times: %r (%d lines differ)" % (
                    cmd, show(opts), f, z[d[0]], x[d[0]], y[d[0]], d[0], len(d)))
            if ha.get(f, set()) | hb.get(f, set()) != hab[f]:
                ctx.fail("%s %r: header of %s differs: joined %r, alone %r and %r" % (
                    cmd, show(opts), f, sorted(hab[f]), sorted(ha.get(f, ())), sorted(hb.get(f, ()))))
            ctx.state([cmd, sorted(z.items())])


def show(opts):
    return {k: v for k, v in opts.items() if "/" not in str(v)}


def imported(case, ctx):
    x, y = case["imps"]
    cmd, opts = x["cmd"], x["opts"]
    one, two = [json.loads(_import(ctx, i, cmd, m["name"], I.data(m), opts)).get("tables") or [] for i, m in enumerate((x, y))]
    if {t["name"].lower() for t in one} & {t["name"].lower() for t in two}:
        return
    first, second = (y, x) if case["swap"] else (x, y)
    if cmd == "import mysql":
        both = first["text"].rstrip().rstrip(";") + ";\n" + second["text"]
        both = both.encode("utf8")
    else:
        d, e = json.loads(first["text"]), json.loads(second["text"])
        if not isinstance(d.get("tables"), list) or not isinstance(e.get("tables"), list):
            return
        d["tables"] += e["tables"]
        both = json.dumps(d).encode("utf8")
    got = json.loads(_import(ctx, 2, cmd, x["name"], both, opts)).get("tables") or []
    ctx.see("imports_joined")
    ctx.see("tables_joined", len(got))
    ctx.same("%s of two inputs in one" % cmd, sorted(map(dump, got)), sorted(map(dump, one + two)))
    ctx.state(got)


def dump(t):
    return json.dumps(t, sort_keys=True, ensure_ascii=False)


def _import(ctx, i, cmd, name, data, opts):
    f = ctx.write("i%d/%s" % (i, name), data)
    out = ctx.path("i%d/o.json" % i)
    spec.run(ctx, cmd, dict(opts, input=f, output=out), "long")
    return ctx.read("i%d/o.json" % i)
