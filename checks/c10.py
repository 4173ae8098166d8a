import json
import random
from vlib import gen as G, model as M, spec

PROPERTY = "C10"
RULE = ("seeded random StarUML (.mdj) projects: entities in any order among other ER elements, columns with "
        "name/type/length (string, number or inside the type)/nullable/unique/primaryKey/documentation and "
        "referenceTo in any direction (forward, backward, self); the imported document is compared with the project; "
        "some projects carry unresolvable references, which must be refused; distinct = distinct imported documents")
FLOOR = {"columns_checked": 3000, "refs": 300, "dangling_refused": 20, "length_string": 200, "length_number": 100,
         "length_in_type": 100, "length_both": 50}
TYPES = tuple(t for t in M.CANON if t not in ("enum", "set"))


def gen(rng, tier):
    for _ in range(900 if tier == "quick" else 12000):
        yield make(rng)


def make(r):
    s = G.schema(r, names=r.choice(["plain", "mixed", "odd"]), types=TYPES, alias=0.6, casevar=0.7, refs=0.35,
                 max_tables=7, groups=False, ref_rel=("",), class_name=0, indices=0, lines=0.15, exotic=r.choice(["", "free"]))
    n = [0]

    def uid():
        n[0] += 1
        return "AAAAAA%05d=%d" % (n[0], r.randrange(10 ** 6))
    root, modelid = uid(), uid()
    ids = {(t["name"], c["name"]): uid() for t in s["tables"] for c in t["columns"]}
    ents = []
    nrefs = 0
    for t in s["tables"]:
        tid = uid()
        cols = []
        for c in t["columns"]:
            for k in ("autoinc", "default", "onupdate"):
                c.pop(k, None)
            e = {"_type": "ERDColumn", "_id": ids[(t["name"], c["name"])], "_parent": {"$ref": tid},
                 "name": c["name"], "type": c["type"]}
            if "size" in c and r.random() < 0.1:
                c.pop("size"), c.pop("scale", None)
            if "size" in c:
                how = r.choice(["str", "str", "num", "type"])
                if c.get("scale"):
                    how = "type"
                if how == "str":
                    e["length"] = str(c["size"])
                elif how == "num":
                    e["length"] = c["size"]
                else:
                    e["type"] = "%s(%d%s)" % (c["type"], c["size"], ",%d" % c["scale"] if c.get("scale") else "")
                    if r.random() < 0.3:
                        e["length"] = r.choice([0, "", "0"])
                    elif r.random() < 0.2 and not c.get("scale"):
                        # the length property wins over a size written into the type
                        e["type"] = "%s(%d)" % (c["type"], r.choice([7, 77, 300]))
                        e["length"] = r.choice([c["size"], str(c["size"])])
                        how = "both"
                c["_how"] = how
            else:
                if "scale" in c:
                    del c["scale"]
                if r.random() < 0.4:
                    e["length"] = r.choice([0, "", "0"])
            if not c.get("notnull"):
                e["nullable"] = True
            elif r.random() < 0.5:
                e["nullable"] = False
            if c.get("pk"):
                e["primaryKey"] = True
            if c.get("unique"):
                e["unique"] = True
            if "desc" in c:
                e["documentation"] = r.choice(["%s", "%s\n", "  %s"]) % c["desc"]
            if "ref" in c:
                e["referenceTo"] = {"$ref": ids[(c["ref"]["table"], c["ref"]["column"])]}
                nrefs += 1
            if r.random() < 0.2:
                e["tags"] = [{"_type": "Tag", "_id": uid(), "name": "x"}]
            cols.append(e)
        if r.random() < 0.1:
            cols.insert(r.randrange(len(cols) + 1), {"_type": "Tag", "_id": uid(), "name": "not a column"})
        ent = {"_type": "ERDEntity", "_id": tid, "_parent": {"$ref": modelid}, "name": t["name"], "columns": cols}
        if r.random() < 0.3:
            ent["ownedElements"] = [{"_type": "ERDRelationship", "_id": uid(),
                                     "end1": {"_type": "ERDRelationshipEnd", "_id": uid()},
                                     "end2": {"_type": "ERDRelationshipEnd", "_id": uid(), "cardinality": "0..*"}}]
        if "desc" in t:
            del t["desc"]
        ents.append(ent)
    els = list(ents)
    els.insert(r.randrange(len(els) + 1), {"_type": "ERDDiagram", "_id": uid(), "name": "d",
                                           "ownedViews": [{"_type": "ERDEntityView", "_id": uid()}]})
    dm = {"_type": "ERDDataModel", "_id": modelid, "_parent": {"$ref": root}, "name": "Data Model1", "ownedElements": els}
    top = [dm]
    if r.random() < 0.5:
        top.insert(0, {"_type": "UMLModel", "_id": uid(), "name": "Model",
                       "ownedElements": [{"_type": "UMLClassDiagram", "_id": uid(), "name": "Main"}]})
    ver = r.choice(["1.0.0", "Untitled", "my project"])
    doc = {"_type": "Project", "_id": root, "name": ver, "ownedElements": top}
    s["version"] = ver
    s.pop("author", None), s.pop("name", None)
    bad = None
    x = r.random()
    if x < 0.05 and nrefs:
        bad = "dangling"
        for ent in ents:
            for e in ent["columns"]:
                if "referenceTo" in e:
                    e["referenceTo"] = {"$ref": "nosuchid"}
    elif x < 0.08:
        bad = "nomodel"
        top.remove(dm)
    elif x < 0.10:
        bad = "type"
        ents[0]["columns"] += [{"_type": "ERDColumn", "_id": uid(), "_parent": {"$ref": ents[0]["_id"]},
                                "name": "weird", "type": "NOSUCHTYPE"}]
    return {"mdj": doc, "schema": s, "bad": bad, "style": r.randrange(10 ** 6),
            "name": r.choice(["in.mdj", "in.uml", "in.json"])}


def run(case, ctx):
    f = ctx.write(case["name"], case["mdj"])
    out = ctx.path("out.json")
    res = spec.run(ctx, "import staruml", {"input": f, "output": out}, "mix", random.Random(case["style"]),
                   ok=not case["bad"])
    if case["bad"]:
        ctx.see(case["bad"] + "_refused")
        if res.rc == 0 or res.panicked or ctx.exists("out.json"):
            ctx.fail("a project that cannot be imported (%s) was not refused cleanly: %s" % (case["bad"], res.brief()))
        return
    got = M.canon(json.loads(ctx.read("out.json")))
    s = case["schema"]
    for t in s["tables"]:
        for c in t["columns"]:
            h = c.pop("_how", None)
            if h:
                ctx.see({"str": "length_string", "num": "length_number", "type": "length_in_type", "both": "length_both"}[h])
    want = M.canon(s)
    for t in want["tables"]:
        ctx.see("columns_checked", len(t["columns"]))
        ctx.see("refs", sum(1 for c in t["columns"] if c["ref"]))
    for p in M.diff_docs(got, want):
        ctx.fail("imported " + p)
    ctx.state(got)
