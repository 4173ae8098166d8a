import os
from checks import c20
from vlib import kotlin as K, model as M, strcase

PROPERTY = "C21"
RULE = ("seeded random schemas with no, single, composite, nullable and keyword keys generated to Kotlin with random entity/"
        "repository packages (none, same, nested), into fresh or used directories; a monitor compares the whole file tree "
        "with the expected one, the id class with the key of the entity, and every repository with the entity and key "
        "types declared in the other files; distinct = distinct file trees and repositories")
FLOOR = {"id_classes": 300, "repositories": 500, "keyless_tables": 50, "trees": 500, "default_package": 100}
ASSUMPTIONS = ["names are identifiers which stay distinct in camel case; a table without key has no repository or one "
               "that still names existing types"]


def gen(rng, tier):
    for _ in range(800 if tier == "quick" else 9000):
        c = c20.make(rng, pk=rng.choice(["any", "at_least_one", "none"]))
        if rng.random() < 0.7 and not c["reposPackage"]:
            c["reposPackage"] = rng.choice(["repos", "a.b.c.repos", "model"])
        c["existing"] = rng.random() < 0.3
        yield c


def tree(root):
    out = []
    for d, _, fs in os.walk(root):
        out += [os.path.relpath(os.path.join(d, f), root) for f in fs]
    return sorted(out)


def run(case, ctx):
    out = "work/out"
    if case["existing"]:
        ctx.write(out + "/keep.txt", "keep")
    os.makedirs(ctx.path("work"), exist_ok=True)
    before = tree(ctx.dir)
    got = c20.generate(case, ctx, ctx.path(out))
    if got is None:
        return
    s, ts, names = got
    ctx.see("trees")
    pkg, rpkg = case["package"], case["reposPackage"]
    ed = os.path.join(out, *(pkg or "").split("."))
    want = {}
    for t in ts:
        want[os.path.normpath(os.path.join(ed, names[t["name"]] + ".kt"))] = t
    repos = {}
    if rpkg:
        rd = os.path.join(out, *rpkg.split("."))
        for t in ts:
            repos[os.path.normpath(os.path.join(rd, names[t["name"]] + "Repository.kt"))] = t
    new = set(tree(ctx.dir)) - set(before) - {"in.json"}
    keyless = {p for p, t in repos.items() if not any(c["pk"] for c in t["columns"])}
    ctx.same("generated files", sorted(new - keyless), sorted((set(want) | set(repos)) - keyless))
    if ctx.problems:
        return
    if case["existing"]:
        ctx.same("unrelated file", ctx.read(out + "/keep.txt"), "keep")
    ctx.state([sorted(new), case["package"], rpkg])
    if not pkg:
        ctx.see("default_package")
    ids, types = {}, {}
    for p, t in want.items():
        f = K.parse(ctx.read(p))
        name = names[t["name"]]
        ctx.same(p + " package", f["package"], pkg)
        pks = [c for c in t["columns"] if c["pk"]]
        decls = {d["name"]: d for d in f["decls"]}
        exp = [name] + ([name + "PK"] if len(pks) > 1 else [])
        ctx.same(p + " declarations", [d["name"] for d in f["decls"]], exp)
        if name not in decls:
            continue
        props = {x["name"]: x["type"] for x in decls[name]["params"]}
        idann = [a for a in decls[name]["annotations"] if a[0] == "IdClass"]
        ids[t["name"]] = None
        marked = [x["name"] for x in decls[name]["params"] if ("Id", []) in x["annotations"]]
        ctx.same(p + " id properties", marked, [strcase.lower_camel(c["name"]) for c in pks])
        if len(pks) > 1:
            ctx.see("id_classes")
            ctx.same(p + " IdClass", idann, [("IdClass", [(None, name + "PK::class")])])
            d = decls.get(name + "PK")
            if d:
                ctx.same(p + " id class kind", (d["kind"], d["super"]), ("data class", ["Serializable"]))
                ctx.same(p + " id class properties", [(x["name"], x["type"]) for x in d["params"]],
                         [(n, props.get(n)) for n in marked])
                for c, x in zip(pks, d["params"]):
                    dv = K.TYPES.get(c["type"], (0, None))[1]
                    if c["notnull"] and dv:
                        ctx.same("%s id class default of %s" % (p, x["name"]), x["default"], dv)
                    elif not c["notnull"]:
                        ctx.same("%s id class default of %s" % (p, x["name"]), x["default"], "null")
                ctx.state(d)
            ids[t["name"]] = name + "PK"
        else:
            ctx.same(p + " IdClass", idann, [])
            if pks:
                ids[t["name"]] = (props.get(marked[0] if marked else "") or "").rstrip("?")
    for p, t in repos.items():
        name = names[t["name"]]
        if p in keyless:
            ctx.see("keyless_tables")
            continue
        ctx.see("repositories")
        f = K.parse(ctx.read(p))
        ctx.same(p + " package", f["package"], rpkg)
        imp = ["org.springframework.data.jpa.repository.JpaRepository", "org.springframework.stereotype.Repository"]
        ctx.same(p + " imports", sorted(f["imports"]), sorted(imp + ([pkg + ".*"] if pkg else [])))
        ctx.same(p + " declarations", [(d["kind"], d["name"], d["annotations"]) for d in f["decls"]],
                 [("interface", name + "Repository", [("Repository", [])])])
        ctx.same(p + " super type", f["decls"][0]["super"], ["JpaRepository<%s, %s>" % (name, ids[t["name"]])])
        ctx.state(f)
