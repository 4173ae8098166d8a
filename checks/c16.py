import random
from vlib import gen as G, model as M, naming, proto, spec, strcase

PROPERTY = "C16"
RULE = ("seeded random schemas (all column types, references of every relationship, several references to one table, "
        "references out of the selected groups) generated to proto3 with random groups/prefix/removePrefix/package/"
        "goPackage; an independent reader compares messages, fields, relations, imports and options with the schema and "
        "protoc must accept the file; distinct = distinct parsed files")
FLOOR = {"fields_checked": 3000, "relations": 300, "repeated": 50, "protoc_accepted": 400, "same_target_twice": 30}
ASSUMPTIONS = ["names are identifiers which stay distinct in camel case and do not start with a digit"]


def make(rng, **kw):
    s = G.schema(rng, max_tables=6, names=rng.choice(["plain", "mixed", "odd"]), refs=rng.choice([0.2, 0.5]),
                 class_name=0, ref_dangling=0.03, **kw)
    ts = M.canon(s)["tables"]
    prefix, remove = naming.opts(rng, ts, use_class=False)
    return {"schema": s, "groups": G.groups_arg(rng, s), "prefix": prefix, "removePrefix": remove,
            "package": rng.choice([None, "octopus", "com.lechuck.foo"]),
            "goPackage": rng.choice([None, "model", "lechuck/foo"]), "style": rng.randrange(10 ** 6)}


def gen(rng, tier):
    for _ in range(800 if tier == "quick" else 8000):
        c = make(rng)
        yield c


def generate(case, ctx, **extra):
    f = ctx.write("in.json", case["schema"])
    opts = {"input": f, "output": ctx.path("o.proto")}
    for k in ("groups", "prefix", "removePrefix", "package", "goPackage"):
        opts[k] = case[k]
    opts.update(extra)
    spec.run(ctx, "generate pb", opts, "mix", random.Random(case["style"]))
    try:
        return proto.parse(ctx.read("o.proto"))
    except proto.Bad as e:
        ctx.fail("not a well-formed proto file: %s" % e)
        return None


def expected(case):
    """[(table, message name, [column fields], [(type, repeated)])]"""
    s = M.canon(case["schema"])
    ts = M.in_groups(s["tables"], case["groups"])
    nm = {t["name"]: naming.class_name(t, case["prefix"], case["removePrefix"], False) for t in ts}
    out = []
    for t in ts:
        rels = [(nm[c["ref"]["table"]], c["ref"]["relationship"] == "1:n") for c in t["columns"]
                if c["ref"] and c["ref"]["table"] in nm]
        out.append((t, nm[t["name"]], [(strcase.lower_camel(c["name"]), c["type"]) for c in t["columns"]], rels))
    return out


def run(case, ctx):
    d = generate(case, ctx)
    if d is None:
        return
    exp = expected(case)
    ctx.same("syntax", d["syntax"], "proto3")
    ctx.same("package", d["package"], case["package"])
    ctx.same("options", d["options"], {"go_package": case["goPackage"]} if case["goPackage"] else {})
    ctx.same("messages", [m["name"] for m in d["messages"]], [e[1] for e in exp])
    ts_used = False
    for (t, name, fields, rels), m in zip(exp, d["messages"]):
        ctx.same(name + " number of fields", len(m["fields"]), len(fields) + len(rels))
        names = [f["name"] for f in m["fields"]]
        if len(set(names)) != len(names):
            ctx.fail("message %s has a field name twice: %r" % (name, names))
        cols = m["fields"][:len(fields)]
        for (fn, ty), f in zip(fields, cols):
            ctx.see("fields_checked")
            ctx.see("type_" + ty)
            ctx.same("%s field name" % name, f["name"], fn)
            if ty in proto.FIRM:
                ctx.same("%s.%s type" % (name, fn), f["type"], proto.FIRM[ty])
            elif f["type"] not in proto.SCALARS:
                ctx.fail("%s.%s: %s column has type %s" % (name, fn, ty, f["type"]))
            ctx.same("%s.%s repeated" % (name, fn), f["repeated"], False)
            ts_used = ts_used or f["type"] == "google.protobuf.Timestamp"
        rf = m["fields"][len(fields):]
        ctx.same(name + " relations", [(f["type"], f["repeated"]) for f in rf], rels)
        taken = {f["name"].lower() for f in cols}          # protoc: no two names may differ in case only
        for f, (ty, rep) in zip(rf, rels):
            ctx.see("relations")
            if rep:
                ctx.see("repeated")
            base = strcase.lower_camel(ty)
            if base.lower() not in taken:
                ctx.same("%s relation name" % name, f["name"], base)
            else:
                ctx.see("same_target_twice")
                if not f["name"].startswith(base):
                    ctx.fail("%s: relation to %s is called %s" % (name, ty, f["name"]))
            taken.add(f["name"].lower())
    ctx.same("imports", d["imports"], ["google/protobuf/timestamp.proto"] if ts_used else [])
    rc, out = proto.protoc(ctx.path("o.proto"), ctx.dir)
    if rc != 0:
        ctx.fail("protoc refuses the generated file: %s" % out[-400:])
    else:
        ctx.see("protoc_accepted")
    if d["messages"]:
        ctx.state(d)
