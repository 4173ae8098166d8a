import json
import os
import random
from vlib import cmds as C, imports as I, model as M, spec

PROPERTY = "C03"
RULE = ("init and every import command, over generated DDL, v1 documents, StarUML projects and workbooks (aliases, odd "
        "spellings, empty values, non-integer auto increment, long texts), write to fresh, shorter, longer, symlinked and "
        "unrelated earlier files; each written file is read by a strict reader of the documented format (one UTF-8 JSON "
        "document, known keys with their kinds, no repeated key, canonical lower-case types, no default value or empty "
        "object written out, values only on enum/set, table order by group and name), is accepted by every command, and "
        "reads as the same schema as its fully written-out form (defaults spelled out); distinct = distinct documents")
ALL = I.CMDS + ["init"]
FLOOR = dict({"documents": 400, "columns": 4000, "accepted_by": 1500, "prior_longer": 80, "prior_shorter": 40,
              "prior_link": 40, "optional_keys": 4000, "written_out": 300},
             **{c.replace(" ", "_"): 40 for c in ALL})
ASSUMPTIONS = ["a StarUML length above the range of any database is not generated"]
STR = {"str"}
SCHEMA = {"author": str, "name": str, "version": str, "tables": list}
TABLE = {"name": str, "columns": list, "desc": str, "group": str, "className": str, "indices": list}
COLUMN = {"name": str, "type": str, "desc": str, "size": int, "scale": int, "notnull": bool, "pk": bool, "unique": bool,
          "autoinc": bool, "default": str, "onupdate": str, "values": list, "ref": dict}
REF = {"table": str, "column": str, "relationship": str}
INDEX = {"name": str, "columns": list}
ALWAYS = {"column": ("name", "type"), "index": ("name", "columns")}

_ID = {"name": "id", "type": "long", "desc": "unique id", "pk": True, "autoinc": True}
SAMPLE = {"version": "1.0.0", "tables": [       # docs/init.md
    {"name": "group", "desc": "Group table", "columns": [
        _ID, {"name": "name", "type": "string", "desc": "group name", "size": 40, "unique": True}]},
    {"name": "user", "desc": "User table", "columns": [
        _ID, {"name": "name", "type": "string", "desc": "user login name", "size": 40, "unique": True},
        {"name": "group_id", "type": "long", "desc": "group ID",
         "ref": {"table": "group", "column": "id", "relationship": "n:1"}}]}]}


def gen(rng, tier):
    for i in range(150 if tier == "quick" else 3000):
        jobs = []
        for cmd in I.CMDS + (["init"] if i % 2 else []):
            imp = I.make(rng, cmd) if cmd != "init" else None
            jobs.append({"cmd": cmd, "imp": imp, "prior": rng.choice([None, "short", "long", "longer", "link", "same"]),
                         "out": rng.choice(["o.json", "o.json", "x.JSON", "schema.ojson"]),
                         "use": rng.sample(C.SINGLE, 3) + rng.sample(C.DIFF, 1)})
        yield {"jobs": jobs, "style": rng.randrange(10 ** 6)}


def pairs(ps):
    d = {}
    for k, v in ps:
        if k in d:
            raise ValueError("key %r is written twice" % k)
        d[k] = v
    return d


class Reader:
    def __init__(self, ctx, what):
        self.ctx, self.what = ctx, what

    def bad(self, where, msg):
        self.ctx.fail("%s: %s: %s" % (self.what, where, msg))

    def obj(self, o, keys, where, always=()):
        if not isinstance(o, dict):
            return self.bad(where, "is no object")
        for k in always:
            if k not in o:
                self.bad(where, "has no %s" % k)
        for k, v in o.items():
            if k not in keys:
                self.bad(where, "key %r is not in the documented format" % k)
                continue
            self.ctx.see("optional_keys", k not in always)
            if type(v) is not keys[k]:
                self.bad(where, "%s is %r" % (k, v))
            elif k not in always and not v:
                self.bad(where, "the default value %s: %r is written out" % (k, v))
            elif keys[k] is int and v < 0:
                self.bad(where, "%s is %r" % (k, v))
        return o

    def strings(self, l, where):
        for x in l or []:
            if not isinstance(x, str):
                self.bad(where, "holds %r" % (x,))

    def schema(self, text):
        if text.startswith("\ufeff"):
            self.bad("file", "starts with a byte order mark")
        try:
            d = json.loads(text, object_pairs_hook=pairs, parse_constant=lambda x: 1 / 0)
        except (ValueError, ZeroDivisionError) as e:
            self.bad("file", "is not one JSON document: %s" % e)
            return None
        self.obj(d, SCHEMA, "schema")
        keys = []
        for t in d.get("tables") or []:
            w = "table %s" % t.get("name")
            self.obj(t, TABLE, w, ("name",))
            keys.append((t.get("group", "").encode(), t.get("name", "").encode()))
            for c in t.get("columns") or []:
                self.column(c, "%s column %s" % (w, c.get("name")))
            for x in t.get("indices") or []:
                self.obj(x, INDEX, w + " index", ("name", "columns"))
                self.strings(x.get("columns"), w + " index")
        if keys != sorted(keys):
            self.bad("tables", "are not in the order of groups and names: %s" % keys)
        return d

    def column(self, c, w):
        self.ctx.see("columns")
        self.obj(c, COLUMN, w, ("name", "type"))
        if c.get("type") not in M.CANON:
            self.bad(w, "type %r is not a canonical type" % c.get("type"))
        if not c.get("name"):
            self.bad(w, "has no name")
        if c.get("autoinc") and c.get("type") not in M.INTS:
            self.bad(w, "of type %s is auto increment" % c["type"])
        if c.get("type") in ("enum", "set"):
            if not c.get("values"):
                self.bad(w, "has no values")
        elif "values" in c:
            self.bad(w, "of type %s has values" % c["type"])
        self.strings(c.get("values"), w)
        if "ref" in c:
            self.obj(c["ref"], REF, w + " ref")
            if c["ref"].get("relationship", "") not in ("", "1:1", "1:n", "n:1"):
                self.bad(w, "relationship %r" % c["ref"]["relationship"])


def run(case, ctx):
    r = random.Random(case["style"])
    for i, j in enumerate(case["jobs"]):
        base = "j%d" % i
        os.mkdir(ctx.path(base))
        out = ctx.path(base, j["out"])
        o = {"output": out}
        if j["imp"]:
            o.update(j["imp"]["opts"], input=ctx.write(os.path.join(base, j["imp"]["name"]), I.data(j["imp"])))
            if j["imp"]["name"] == j["out"]:
                out = o["output"] = ctx.path(base, "out.json")
        spec.run(ctx, j["cmd"], dict(o, output=ctx.path(base, "fresh.json")), "mix", r)
        fresh = ctx.read(os.path.join(base, "fresh.json"), True)
        prior(ctx, j, base, out, fresh)
        spec.run(ctx, j["cmd"], o, "mix", r)
        with open(out, "rb") as h:
            got = h.read()
        if got != fresh:
            ctx.fail("%s over an earlier file (%s): the file is not what a run into a new file gives: %s"
                     % (j["cmd"], j["prior"], C.describe({"file": got}, {"file": fresh})))
        ctx.see("documents")
        ctx.see(j["cmd"].replace(" ", "_"))
        try:
            text = fresh.decode("utf8")
        except UnicodeDecodeError as e:
            ctx.fail("%s: the written document is not UTF-8: %s" % (j["cmd"], e))
            continue
        d = Reader(ctx, j["cmd"]).schema(text)
        if d is None:
            continue
        ctx.state(text)
        if j["cmd"] == "init":
            for x in M.diff_docs(M.canon(d), M.canon(SAMPLE)):
                ctx.fail("init: " + x)
        accepted(ctx, r, j, base, d)


def prior(ctx, j, base, out, fresh):
    p = j["prior"]
    if p is None:
        return
    body = {"short": b"{", "long": fresh + fresh, "longer": b'{"tables": [{"name": "old_table"}]}\n' * 400 + fresh,
            "same": fresh, "link": b"earlier " * 2000}[p]
    ctx.see("prior_longer", len(body) > len(fresh))
    ctx.see("prior_shorter", len(body) < len(fresh))
    if p == "link":
        ctx.see("prior_link")
        t = ctx.write(os.path.join(base, "target.bin"), body)
        os.symlink(t, out)
    else:
        with open(out, "wb") as h:
            h.write(body)


def accepted(ctx, r, j, base, d):
    """Every command takes the document, and takes it for the same schema with the defaults written out."""
    full = json.loads(json.dumps(d))
    for t in full.get("tables") or []:
        for k in ("desc", "group", "className"):
            t.setdefault(k, "")
        for c in t.get("columns") or []:
            for k, v in M.COL_DEFAULTS.items():
                c.setdefault(k, v)
    f = ctx.path(base, "fresh.json")
    g = ctx.write(os.path.join(base, "full.json"), full)
    have = {t["name"] for t in d.get("tables") or []}
    for n, cmd in enumerate(j["use"]):
        snaps = []
        for k, p in enumerate((f, g)):
            _, s = C.produce(ctx, cmd, (p, f) if cmd in C.DIFF else p, {}, C.OUTS[cmd][0], "%s/u%d%d" % (base, n, k), "long", r)
            snaps.append(s)
        ctx.see("accepted_by")
        x = C.describe(*snaps)
        if x:
            ctx.fail("%s reads the document of %s differently when its defaults are written out: %s" % (cmd, j["cmd"], x))
    ctx.see("written_out")
