import os
import random
import re
from vlib import dsl, gen as G, model as M, spec, strcase

PROPERTY = "C15"
RULE = ("seeded random schemas generated to GraphQL; the SDL is read back by an independent parser: one object type per "
        "table with one field per column (name, type, nullability, ID key) and one list query per type; distinct = "
        "distinct parsed SDL documents")
FLOOR = {"columns_checked": 3000, "id_fields": 300, "types": 1000}
ASSUMPTIONS = ["names are identifiers which stay distinct in camel case; every table has a column"]

SDL = {}
for _t in M.INTS:
    SDL[_t] = "Int"
for _t in M.DECS:
    SDL[_t] = "Float"
SDL["boolean"] = "Boolean"


IRREGULAR = ("people", "news", "items", "boxes", "queries")


def plural(w):
    if re.search(r"(s|x|ch|sh)$", w):
        return w + "es"
    if re.search(r"[^aeiou]y$", w):
        return w[:-1] + "ies"
    return w + "s"


def class_name(t):
    return t["className"] or strcase.upper_camel(t["name"])


ALIKE = [("item", "items"), ("query", "customer"), ("query", "queries"), ("news", "new"), ("person", "people"), ("box", "boxes"),
         ("query", "root_query")]


def gen(rng, tier):
    for _ in range(900 if tier == "quick" else 12000):
        s = G.schema(rng, max_tables=6, names=rng.choice(["plain", "mixed", "odd"]), refs=0.2, meta=0.8)
        if rng.random() < 0.06 and len(s["tables"]) > 1:    # two classes of the same plural, or named like the root type
            ns = rng.choice(ALIKE)
            used = {(t.get("className") or strcase.upper_camel(t["name"])).lower() for t in s["tables"][2:]}
            used |= {t["name"].lower() for t in s["tables"][2:]}
            if not used & {x for n in ns for x in (n, strcase.upper_camel(n).lower())}:
                old = [t["name"] for t in s["tables"][:2]]
                for t in s["tables"]:
                    for c in t["columns"]:
                        if c.get("ref", {}).get("table") in old:
                            del c["ref"]
                for t, n in zip(s["tables"], rng.sample(ns, 2)):
                    t["name"] = n
                    t.pop("className", None)
        yield {"schema": s, "pkg": rng.choice([None, "com.example"]), "out": rng.choice(["g", "a/b"]),
               "style": rng.randrange(10 ** 6)}


def run(case, ctx):
    f = ctx.write("in.json", case["schema"])
    s = M.canon(case["schema"])
    spec.run(ctx, "generate graphql", {"input": f, "output": ctx.path(case["out"]), "graphqlPackage": case["pkg"]},
             "mix", random.Random(case["style"]))
    fs = os.listdir(ctx.path(case["out"]))
    if ctx.same("generated files", fs, ["%s-%s.graphqls" % (s["name"], s["version"])]) is False:
        return
    try:
        schema, types = dsl.graphql(ctx.read(os.path.join(case["out"], fs[0])))
    except dsl.Bad as e:
        ctx.fail("not well-formed SDL: %s" % e)
        return
    want = [class_name(t) for t in s["tables"]]
    root = "Query"
    if root in want:                # the class of a table has that name: the root type is another one
        ctx.see("root_renamed")
        root = dict(map(tuple, schema)).get("query", "")
    ctx.same("schema definition", schema, [["query", root]])
    names = [t["name"] for t in types]
    if len(set(names)) != len(names):
        ctx.fail("a type is defined twice: %r" % names)
    by = {t["name"]: t for t in types}
    ctx.same("object types", sorted(names), sorted([root] + want))
    q = by.get(root, {"fields": []})["fields"]
    if len({x[0] for x in q}) != len(q):
        ctx.fail("a query is defined twice: %r" % q)
    ctx.same("queries", sorted(x[1] for x in q), sorted("[%s]" % n for n in want))
    irregular = {strcase.lower_camel(w) for w in want} & set(IRREGULAR)
    for n, ty in q:
        low = strcase.lower_camel(ty.strip("[]"))
        if re.search(r"[a-z]$", low):
            if irregular:
                ctx.see("same_plural")  # only one of them can have it
                continue
            ctx.same("query of " + ty, n, plural(low))
    for t in s["tables"]:
        ctx.see("types")
        g = by.get(class_name(t))
        if not g:
            continue
        pk = [c for c in t["columns"] if c["pk"]]
        wf = []
        for c in t["columns"]:
            ctx.see("columns_checked")
            ty = SDL.get(c["type"], "String") + ("!" if c["notnull"] else "")
            if len(pk) == 1 and c["pk"]:
                ty = "ID!"
                ctx.see("id_fields")
            wf.append([strcase.lower_camel(c["name"]), ty])
        ctx.same("fields of " + g["name"], g["fields"], wf)
    ctx.state([schema, types])
