import json
import random
from vlib import gen as G, model as M, spec
from checks import c04

PROPERTY = "C06"
RULE = ("two closed loops through the CLI: schema -> export mysql -> import mysql gives back every table, column, type, "
        "size, key, default, comment and index of the schema (what DDL can carry), and DDL -> import -> export -> import "
        "is a fixed point; distinct = distinct re-imported documents")
FLOOR = {"schema_loops": 400, "ddl_loops": 200, "columns_checked": 3000}
ASSUMPTIONS = ["identifiers that are MySQL reserved words are excluded (known finding of C05), geometry/point are not readable "
               "by the bundled SQL parser, ON UPDATE literals are not MySQL"]
TYPES = tuple(t for t in M.CANON if t not in ("geometry", "point"))
BAD = G.RESERVED_LOWER | {"group", "key", "order", "index", "rank", "user", "role", "path", "none", "desc", "values"}


def gen(rng, tier):
    n = 1 if tier == "quick" else 15
    for _ in range(600 * n):
        while True:
            s = G.schema(rng, names=rng.choice(["plain", "mixed"]), types=TYPES, class_name=0, refs=0, fn_any=0, exotic="uni", lines=0.04,
                         onupdate_p=0.15, onupdate_literal=0.0, size_p=1.0)
            if not any(x["name"].lower() in BAD for t in s["tables"] for x in [t] + t["columns"]):
                break
        yield {"schema": s, "style": rng.randrange(10 ** 6)}
    for _ in range(300 * n):
        while True:
            sql, exp, opts = c04.make(rng, rng.choice(["plain", "mixed"]), 0)
            if not any(x["name"].lower() in BAD for t in exp for x in [t] + t["columns"]):
                break
        yield {"sql": sql}


def mysql_view(s):
    """What of a schema MySQL DDL carries."""
    d = c04.now(M.canon(s))
    for t in d["tables"]:
        t.update(desc="", group="", className="")
        for c in t["columns"]:
            c["ref"] = None
            c["notnull"] = c["notnull"] or c["pk"] or c["autoinc"]
            if c["type"] in ("boolean", "year", "date", "datetime", "time", "json", "enum", "set") + M.TEXTS + M.BLOBS:
                c["size"] = c["scale"] = 0
            if c["type"] not in M.DECS:
                c["scale"] = 0
            if c["type"] not in ("enum", "set"):
                c["values"] = []
            if c["type"] == "float" and c["scale"] == 0:      # FLOAT(p): p only selects the storage size
                c["type"], c["size"] = ("double" if c["size"] > 24 else "float"), 0
            if c["type"] in M.DECS and c["size"] == 0:
                c["scale"] = 0
    d.update(author="", version="", name="")
    d["tables"].sort(key=lambda t: t["name"].encode())
    return d


def run(case, ctx):
    if "sql" in case:
        f = ctx.write("a.sql", case["sql"])
        spec.run(ctx, "import mysql", {"input": f, "output": ctx.path("a.json")})
        first = json.loads(ctx.read("a.json"))
        ctx.see("ddl_loops")
    else:
        first = case["schema"]
        ctx.write("a.json", first)
        ctx.see("schema_loops")
    rng = random.Random(case.get("style", 0))
    spec.run(ctx, "export mysql", {"input": ctx.path("a.json"), "output": ctx.path("b.sql")}, "mix", rng)
    spec.run(ctx, "import mysql", {"input": ctx.path("b.sql"), "output": ctx.path("c.json")}, "mix", rng)
    want, got = mysql_view(first), mysql_view(json.loads(ctx.read("c.json")))
    ctx.see("columns_checked", sum(len(t["columns"]) for t in want["tables"]))
    for p in M.diff_docs(got, want, ""):
        ctx.fail("lost or changed by export/import: " + p)
    ctx.state(got)
