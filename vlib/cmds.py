"""Valid invocations of every command that reads Octopus schemas, and snapshots of what they write."""
import os
import random
from . import gen as G, model as M, naming, spec

SINGLE = ["export dbml", "export quickdbd", "export mysql", "export xlsx", "generate gorm", "generate graphql",
          "generate kt", "generate liquibase", "generate plantuml", "generate pb", "generate sqlalchemy"]
DIFF = ["diff flyway", "diff liquibase", "diff md"]
OUTS = {"export dbml": ["o.dbml"], "export quickdbd": ["o.txt"], "export mysql": ["o.sql"], "export xlsx": ["o.xlsx"],
        "generate gorm": ["m.go", "dir", "a/b"], "generate graphql": ["dir", "a/b"], "generate kt": ["dir", "a/b"],
        "generate liquibase": ["o.yaml"], "generate plantuml": ["o.puml", "o.wsd", "dir"], "generate pb": ["o.proto"],
        "generate sqlalchemy": ["m.py", "dir", "a/b"], "diff flyway": ["o.sql"], "diff liquibase": ["o.yaml"],
        "diff md": ["o.md"]}


def options(rng, command, s, groups=True):
    """Random valid option values (without input and output) for a schema document."""
    names = {o[0] for o in spec.COMMANDS[command]}
    ts = M.canon(s)["tables"]
    o = {}
    if "prefix" in names:
        p, r = naming.opts(rng, ts, command != "generate pb")
        o["prefix"], o["removePrefix"] = p, r
    if "groups" in names and groups:
        o["groups"] = G.groups_arg(rng, s)
    if "uniqueNameSuffix" in names:
        o["uniqueNameSuffix"] = rng.choice([None, "_uq", "_UQ1"] * 5 + ["_unique_constraint_of_the_table"])
    if "comments" in names:
        o["comments"] = rng.random() < 0.6
    if "author" in names:
        o["author"] = rng.choice([None, "me", "홍 길동"])
    if "useNullColumn" in names:
        o["useNullColumn"] = rng.random() < 0.5
    if "useUTC" in names:
        o["useUTC"] = rng.random() < 0.5
    if "graphqlPackage" in names:
        o["graphqlPackage"] = rng.choice([None, "com.example"])
    if "package" in names:
        o["package"] = rng.choice([None, "model", "lechuck"] if command == "generate gorm" else
                                  [None, "model", "com.lechuck.foo"])
    if command == "generate gorm":
        o["pointerAssociation"] = rng.random() < 0.4
        x = rng.random()
        if x < 0.3:
            t = rng.choice(ts)
            cs = rng.sample(t["columns"], min(len(t["columns"]), rng.choice([1, 2, 3])))
            o["embed"] = "%s:%s" % (rng.choice(["IdName", "model.Base"]), ",".join(c["name"] for c in cs))
        elif x < 0.4:
            o["embed"] = "gorm.Model:"
    if command == "generate kt":
        gs = sorted({t["group"] for t in ts} - {""})
        if rng.random() < 0.3:
            o["annotation"] = rng.choice(["@Common", "@a.b.Audited"])
        elif gs and rng.random() < 0.4:
            o["annotation"] = ",".join("%s:@Ann%d;@Two" % (g, i) for i, g in enumerate(gs))
        o["idEntity"] = rng.choice([None, None, "IdEntity"])
        o["relation"] = rng.choice([None, "VRelation"])
        o["reposPackage"] = rng.choice([None, "repos", "com.lechuck.repos"])
    if command == "generate pb":
        o["goPackage"] = rng.choice([None, "model", "lechuck/foo"])
        o["relationTagStart"] = rng.choice([None, "-1", "20"])
        o["relationTagDecr"] = rng.random() < 0.3
    return {k: v for k, v in o.items() if v is not None and v is not False}


def outname(rng, command):
    return rng.choice(OUTS[command])


def inputs(command, docs):
    """docs: one path (single schema commands) or (from, to)."""
    if command in DIFF:
        return {"from": docs[0], "to": docs[1]}
    return {"input": docs}


def snapshot(root):
    """{relative path: bytes} of a directory tree; directories that hold nothing are listed with None."""
    out = {}
    for d, dirs, files in os.walk(root):
        for f in files:
            p = os.path.join(d, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, root)] = h.read()
        if not dirs and not files and d != root:
            out[os.path.relpath(d, root) + "/"] = None
    return out


def produce(ctx, command, docs, opts, out, where, style="long", rng=None, ok=True, **kw):
    """Run a command into the fresh directory `where`; (result, snapshot)."""
    os.makedirs(ctx.path(where), exist_ok=True)
    o = dict(opts, output=ctx.path(where, out), **inputs(command, docs))
    r = spec.run(ctx, command, o, style, rng, ok=ok, **kw)
    return r, snapshot(ctx.path(where))


def describe(a, b, limit=500):
    """How two snapshots differ."""
    for f in sorted(set(a) | set(b)):
        if f not in a or f not in b:
            return "file %s is only written in one of the cases" % f
        if a[f] != b[f]:
            x, y = a[f] or b"", b[f] or b""
            xs, ys = x.decode("utf8", "replace").split("\n"), y.decode("utf8", "replace").split("\n")
            for i in range(max(len(xs), len(ys))):
                p = xs[i] if i < len(xs) else "<end>"
                q = ys[i] if i < len(ys) else "<end>"
                if p != q:
                    return "%s line %d: %r and %r" % (f, i + 1, p[:limit], q[:limit])
    return None
