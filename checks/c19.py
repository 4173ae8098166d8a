from checks import c18
from vlib import gen as G, gorm as R, model as M

PROPERTY = "C19"
RULE = ("GORM models generated from schemas stressed for Go: self and mutual references, several references to one table, "
        "columns named like keywords, types and methods (type, func, table_name, string), every type nullable and not, "
        "embedded structs; go/types type-checks the file against stubs of gorm, null, decimal and time, which reports "
        "syntax errors, unused or missing imports, redeclared fields and recursive structs; distinct = distinct sources")
FLOOR = {"files_type_checked": 400, "structs": 1000, "recursive": 100, "table_name_columns": 30, "imports": 500}
ASSUMPTIONS = ["structs left out by --groups and embedded structs exist elsewhere in the package (stubbed)"]

prepare = R.prepare


def gen(rng, tier):
    for i in range(800 if tier == "quick" else 9000):
        kw = {"reserved": rng.choice([0, 0.2])}
        if rng.random() < 0.4:
            kw["types"] = tuple(rng.sample(M.CANON, rng.randint(1, 3)))
        c = c18.make(rng, **kw)
        for t in c["schema"]["tables"]:
            have = {x["name"].lower().replace("_", "") for x in t["columns"]}
            if rng.random() < 0.06 and "tablename" not in have:
                t["columns"].append({"name": "table_name", "type": "varchar", "size": 10})
                c["tn"] = True
        if c["embed"] and not c["embed"].startswith("gorm.Model:"):     # other packages cannot be imported by name
            c["embed"] = "Base:" + c["embed"].partition(":")[2]
        # keep embedded struct names clear of fields: that would be the user's own clash
        yield c


def run(case, ctx):
    s, ts, names, d = c18.generate(case, ctx)
    ctx.see("files_type_checked")
    ctx.see("structs", len(d["structs"]))
    ctx.see("imports", len(d["imports"]))
    if case.get("tn"):
        ctx.see("table_name_columns")
    for t in ts:
        for c in t["columns"]:
            if c["ref"] and R.recursive(s["tables"], t["name"], c["ref"]["table"]):
                ctx.see("recursive")
    for e in d["errors"]:
        ctx.fail("generated Go does not compile: " + e)
    if len(d["structs"]) != len(ts):
        ctx.fail("%d structs for %d tables" % (len(d["structs"]), len(ts)))
    ctx.state([d["imports"], d["structs"]])
