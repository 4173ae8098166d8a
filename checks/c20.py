import random
from vlib import gen as G, kotlin as K, model as M, naming, spec, strcase

PROPERTY = "C20"
RULE = ("seeded random schemas generated to Kotlin entities with random groups/prefix/removePrefix/annotation/idEntity/"
        "relation/uniqueNameSuffix/packages; a strict Kotlin reader parses every file and each class, table annotation, "
        "property, type, nullability, default, JPA annotation and import is compared with a reference model; distinct = "
        "distinct parsed classes")
FLOOR = {"properties": 3000, "classes": 1000, "vrelations": 100, "unique_constraints": 200, "custom_annotations": 100,
         "id_entities": 50, "audit": 50, "keyword_names": 20, "dangling_refused": 10}
ASSUMPTIONS = ["names are identifiers which stay distinct in camel case; useUTC has no documented effect on the output"]
ANN = {"@Common": ("Common", []), "@Admin": ("Admin", []), "@Data": ("Data", []), "@a.b.Audited": ("a.b.Audited", []),
       '@Cache("x")': ("Cache", [(None, ("str", "x"))])}


def make(rng, **kw):
    args = dict(max_tables=6, names=rng.choice(["plain", "mixed", "odd"]), refs=rng.choice([0.2, 0.5]), class_name=0.25,
                reserved=rng.choice([0, 0, 0.1]))
    args.update(kw)
    relation = rng.choice([None, "VRelation", "VRelation", "Other"])
    bad = relation == "VRelation" and rng.random() < 0.08
    s = G.schema(rng, ref_dangling=0.3 if bad else 0, **args)
    for t in s["tables"]:
        have = {strcase.lower_camel(c["name"]).lower() for c in t["columns"]}
        for c in t["columns"]:
            if c.get("scale") and rng.random() < 0.15:
                c.pop("size", None)
        for n, ty in (("id", "bigint"), ("created_at", "timestamp"), ("updated_at", "datetime")):
            if rng.random() < 0.3 and n.replace("_", "") not in have:
                if rng.random() < 0.15:
                    n = rng.choice([strcase.lower_camel(n), strcase.upper_camel(n), n.upper()])
                t["columns"].append({"name": n, "type": ty, "notnull": rng.random() < 0.6})
    ts = M.canon(s)["tables"]
    prefix, remove = naming.opts(rng, ts)
    groups = sorted({t["group"] for t in ts} - {""})
    anno = None
    x = rng.random()
    if x < 0.2:
        anno = rng.choice(list(ANN))
    elif x < 0.6 and groups:
        anno = ",".join("%s:%s" % (g, ";".join(rng.sample(list(ANN), rng.choice([1, 1, 2, 3]))))
                        for g in rng.sample(groups, rng.randint(1, len(groups))))
    return {"schema": s, "groups": G.groups_arg(rng, s), "prefix": prefix, "removePrefix": remove, "annotation": anno,
            "idEntity": rng.choice([None, "IdEntity", "base.HasId"]), "relation": relation,
            "package": rng.choice([None, "model", "com.lechuck", "octopus.entity.x"]),
            "reposPackage": rng.choice([None, None, "repos", "com.lechuck.repos", "octopus.entity.x"]),
            "uniqueNameSuffix": rng.choice([None, "_uq", "_UQ1"]), "useUTC": rng.random() < 0.3,
            "style": rng.randrange(10 ** 6)}


def gen(rng, tier):
    for _ in range(900 if tier == "quick" else 10000):
        yield make(rng)


def dangling(case, s, ts):
    have = {t["name"] for t in s["tables"]}
    return case["relation"] == "VRelation" and any(
        c["ref"] and c["ref"]["table"] not in have for t in ts for c in t["columns"])


def generate(case, ctx, out):
    f = ctx.write("in.json", case["schema"])
    opts = {"input": f, "output": out}
    for k in ("groups", "prefix", "removePrefix", "annotation", "idEntity", "relation", "package", "reposPackage",
              "uniqueNameSuffix", "useUTC"):
        opts[k] = case[k]
    s = M.canon(case["schema"])
    names = {t["name"]: naming.class_name(t, case["prefix"], case["removePrefix"]) for t in s["tables"]}
    ts = M.in_groups(s["tables"], case["groups"])
    if dangling(case, s, ts):
        r = spec.run(ctx, "generate kt", opts, "mix", random.Random(case["style"]), ok=False)
        ctx.see("dangling_refused")
        if r.rc == 0 or r.panicked:
            ctx.fail("virtual relation to a missing table: %s" % r.brief())
        return None
    spec.run(ctx, "generate kt", opts, "mix", random.Random(case["style"]))
    return s, ts, names


def run(case, ctx):
    got = generate(case, ctx, ctx.path("out"))
    if got is None:
        return
    s, ts, names = got
    import os
    d = os.path.join("out", *(case["package"] or "").split("."))
    for t in ts:
        f = K.parse(ctx.read(os.path.join(d, names[t["name"]] + ".kt")))
        compare(case, ctx, s, t, names, f)
        ctx.state(f)


def compare(case, ctx, s, t, names, f):
    name = names[t["name"]]
    ctx.see("classes")
    p = "entity " + name
    ctx.same(p + " package", f["package"], case["package"])
    cls = f["decls"][0]
    ctx.same(p + " class", (cls["kind"], cls["name"]), ("data class", name))
    pks = [c for c in t["columns"] if c["pk"]]
    uq = [c for c in t["columns"] if c["unique"]]
    # class annotations
    custom = K.annotations_for(case["annotation"], t["group"])
    ctx.see("custom_annotations", len(custom))
    table = [("name", ("str", t["name"]))]
    if uq:
        ctx.see("unique_constraints")
        table.append(("uniqueConstraints", [("call", "UniqueConstraint", [
            ("name", ("str", t["name"] + (case["uniqueNameSuffix"] or ""))),
            ("columnNames", [("str", c["name"]) for c in uq])])]))
    want = [ANN[a] for a in custom] + [("Entity", []), ("Table", table)]
    if len(pks) > 1:
        want.append(("IdClass", [(None, name + "PK::class")]))
    ctx.same(p + " annotations", sorted(map(repr, cls["annotations"])), sorted(map(repr, want)))
    # super type
    ident = pks[0] if case["idEntity"] and len(pks) == 1 and strcase.lower_camel(pks[0]["name"]) == "id" else None
    imports = {"javax.persistence.*"}
    if len(pks) > 1:
        imports.add("java.io.Serializable")
    ctx.same(p + " properties", [x["name"] for x in cls["params"]], [strcase.lower_camel(c["name"]) for c in t["columns"]])
    if len(cls["params"]) != len(t["columns"]):
        return
    sup = []
    for c, x in zip(t["columns"], cls["params"]):
        ctx.see("properties")
        if x["name"] in K.KEYWORDS:
            ctx.see("keyword_names")
        q = "%s property %s" % (p, x["name"])
        null = "" if c["notnull"] else "?"
        if c["type"] in K.TYPES:
            ty, dv = K.TYPES[c["type"]]
            ctx.same(q + " type", x["type"], ty + null)
            ctx.same(q + " default", x["default"], dv if c["notnull"] else None)
        else:
            ctx.same(q + " nullability", x["type"].endswith("?"), not c["notnull"])
        if c is ident:
            ctx.see("id_entities")
            sup = ["%s<%s>" % (case["idEntity"], x["type"])]
        ctx.same(q + " override", x["override"], c is ident)
        if c["type"] in K.IMPORTS:
            imports.add(K.IMPORTS[c["type"]])
        ann, col = [], []
        if c["pk"]:
            ann.append(("Id", []))
        if c["autoinc"]:
            ann.append(("GeneratedValue", [("strategy", "GenerationType.AUTO")]))
        if c["type"] in M.TEXTS:
            ann.append(("Lob", []))
        if case["relation"] == "VRelation" and c["ref"]:
            ctx.see("vrelations")
            ann.append(("VRelation", [("cls", ("str", names[c["ref"]["table"]])),
                                      ("field", ("str", strcase.lower_camel(c["ref"]["column"])))]))
        if not K.symmetric(c["name"]):
            col.append(("name", ("str", c["name"])))
        if c["notnull"]:
            col.append(("nullable", "false"))
        if c["type"] in M.STRS and c["size"]:
            col.append(("length", str(c["size"])))
        if c["type"] in M.DECS:
            if c["size"]:
                col.append(("precision", str(c["size"])))
            if c["scale"]:
                col.append(("scale", str(c["scale"])))
        if c["type"] == "datetime" and x["name"] == "createdAt":
            ctx.see("audit")
            imports.add("org.hibernate.annotations.CreationTimestamp")
            ann.append(("CreationTimestamp", []))
            col.append(("updatable", "false"))
        if c["type"] == "datetime" and x["name"] == "updatedAt":
            ctx.see("audit")
            imports.add("org.hibernate.annotations.UpdateTimestamp")
            ann.append(("UpdateTimestamp", []))
        got = []
        for n, a in x["annotations"]:
            a = sorted(a, key=repr)
            if n == "Column" and ("name", ("str", c["name"])) in a and ("name", ("str", c["name"])) not in col:
                a.remove(("name", ("str", c["name"])))      # stating the default name is no error
                if not a:
                    continue
            got.append((n, a))
        if col:
            ann.append(("Column", col))
        ctx.same(q + " annotations", sorted(map(repr, got)), sorted(repr((n, sorted(a, key=repr))) for n, a in ann))
    ctx.same(p + " super types", cls["super"], sup)
    ctx.same(p + " imports", sorted(set(f["imports"])), sorted(imports))
