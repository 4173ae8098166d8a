import random
import re
from collections import Counter
from vlib import edits as E, model as M, spec

PROPERTY = "C27"
RULE = ("seeded edit histories (1-9 edits out of 26 kinds); the Markdown report of `diff md` is read back and compared, "
        "as a set of facts per table section, with an independent comparison of the two schemas; reported renames have "
        "to be justified (identical attributes, one name gone, one new) and no rename may be left unreported; "
        "distinct = distinct reports")
ASSUMPTIONS = ["indices, references, groups, class names and order are not part of a diff; comments only with --comments"]
KINDS = {"create table": 100, "drop table": 60, "rename table": 50, "update PK": 60, "create unique constraint": 60,
         "drop unique constraint": 60, "update table comment": 20, "add column": 100, "drop column": 80,
         "update column comment": 40, "change column type": 100, "rename column": 50, "set not null": 40,
         "set nullable": 30, "set auto incremental": 5, "remove auto incremental": 5, "update default value": 40,
         "remove default value": 30, "update on update": 10, "remove on update": 5}
FLOOR = dict(("md_" + k, max(1, v // 3)) for k, v in KINDS.items())


def gen(rng, tier):
    return E.gen_pairs(rng, 1200 if tier == "quick" else 14000, fn_any=0.05, fn_defaults=("CURRENT_TIMESTAMP", "NOW", "timestamp_of_this_transaction"), exotic="free")


def parse(text):
    lines = text.split("\n")
    if lines[-1] != "":
        raise ValueError("no newline at the end of the report")
    head, sections, cur = {}, {}, None
    title = False
    for ln in lines:
        if ln.startswith("## "):
            cur = ln[3:]
            if cur in sections:
                raise ValueError("two sections for %s" % cur)
            sections[cur] = []
        elif ln.startswith("# "):
            title = ln
        elif ln.startswith("* "):
            if cur is None:
                m = re.fullmatch(r"\* (from|to): `(.*)`", ln)
                if not m:
                    raise ValueError("unexpected header line %r" % ln)
                head[m.group(1)] = m.group(2)
            else:
                sections[cur].append(ln[2:])
        elif ln.strip():
            raise ValueError("unexpected line %r" % ln)
    if title != "# DB Schema changes":
        raise ValueError("title is %r" % title)
    return head, sections


def norm(line):
    """Column lists are sets."""
    return re.sub(r"\[([^\[\]]*)\]", lambda m: "[" + ", ".join(sorted(x.strip() for x in m.group(1).split(","))) + "]",
                  line) if line.startswith(("update PK", "create unique", "drop unique")) else line


def lst(t, k):
    return "[" + ", ".join(sorted(c["name"] for c in t["columns"] if c[k])) + "]"


def typ(c):
    if c["values"]:
        return "%s(%s)" % (c["type"], ", ".join(c["values"]))
    if not c["size"]:
        return c["type"]
    return "%s(%d,%d)" % (c["type"], c["size"], c["scale"]) if c["scale"] else "%s(%d)" % (c["type"], c["size"])


def same_column(a, b, comments):
    return all(a[k] == b[k] for k in E.ATTR if k != "desc" or comments)


def expected_kept(o, n, renamed, comments):
    """Facts about a table that exists in both schemas, given the justified renames {old: new}."""
    out = []
    if comments and o["desc"] != n["desc"]:
        out.append("update table comment: `%s`" % n["desc"])
    oc = {c["name"]: c for c in o["columns"]}
    nc = {c["name"]: c for c in n["columns"]}
    for name, c in nc.items():
        if name not in oc:
            if name not in renamed.values():
                out.append("add column: `%s`" % name)
            continue
        p = oc[name]
        if any(c[k] != p[k] for k in ("type", "size", "scale", "values")):
            out.append("change column type: `%s` :`%s` → `%s`" % (name, typ(p), typ(c)))
        if comments and c["desc"] != p["desc"]:
            out.append("update column comment: `%s` :`%s`" % (name, c["desc"]))
        if c["notnull"] != p["notnull"]:
            out.append(("set not null: `%s`" if c["notnull"] else "set nullable: `%s`") % name)
        if c["autoinc"] != p["autoinc"]:
            out.append(("set auto incremental: `%s`" if c["autoinc"] else "remove auto incremental: `%s`") % name)
        for k, w in (("default", "default value"), ("onupdate", "on update")):
            if c[k] != p[k]:
                out.append("update %s: `%s` : `%s`" % (w, name, c[k]) if c[k] else "remove %s: `%s`" % (w, name))
    for name in oc:
        if name not in nc and name not in renamed:
            out.append("drop column: `%s`" % name)
    for a, b in renamed.items():
        out.append("rename column: `%s` → `%s`" % (a, b))
    pk_o = {renamed.get(c["name"], c["name"]) for c in o["columns"] if c["pk"]}
    if pk_o != {c["name"] for c in n["columns"] if c["pk"]}:
        out.append("update PK: %s → %s" % (lst(o, "pk"), lst(n, "pk")))
    if lst(o, "unique") != lst(n, "unique"):
        if lst(o, "unique") != "[]":
            out.append("drop unique constraint: " + lst(o, "unique"))
        if lst(n, "unique") != "[]":
            out.append("create unique constraint: " + lst(n, "unique"))
    return out


def run(case, ctx):
    opts = E.options(ctx, case, "out.md")
    spec.run(ctx, "diff md", opts, "mix", random.Random(case["style"]))
    text = ctx.read("out.md")
    frm, to = M.canon(case["from"]), M.canon(case["to"])
    comments = case["comments"]
    created, kept, dropped = E.scope(frm, to, case["groups"])
    try:
        head, got = parse(text)
    except ValueError as e:
        ctx.fail("the report cannot be read: %s" % e)
        return
    ctx.same("versions", head, {"from": frm["version"], "to": to["version"]})
    ctx.same("section order", list(got), sorted(got, key=lambda s: s.encode()))
    want = {}
    # renamed tables: an old one vanished, a new one appeared, with the same columns
    pairs = {}
    for sec, lines in got.items():
        for ln in lines:
            m = re.fullmatch(r"rename table `(.*)` → `(.*)`", ln)
            if m:
                if m.group(1) != sec or sec in pairs:
                    ctx.fail("misplaced %r in section %s" % (ln, sec))
                    return
                pairs[m.group(1)] = m.group(2)
    dn, cn = {t["name"]: t for t in dropped}, {t["name"]: t for t in created}
    for a, b in list(pairs.items()):
        if a not in dn or b not in cn or len(set(pairs.values())) != len(pairs):
            ctx.fail("unjustified table rename %s -> %s" % (a, b))
            return
        if dn[a]["columns"] != cn[b]["columns"]:
            ctx.fail("table rename %s -> %s of different tables" % (a, b))
    for a in dn:
        for b in cn:
            if a not in pairs and b not in pairs.values() and dn[a]["columns"] == cn[b]["columns"]:
                ctx.fail("renamed table %s -> %s is not reported as a rename" % (a, b))
    for a, t in dn.items():
        want.setdefault(a, [])
        if a not in pairs:
            want[a].append("drop table")
            continue
        n = cn[pairs[a]]
        want[a].append("rename table `%s` → `%s`" % (a, n["name"]))
        if lst(t, "unique") != "[]":
            want[a].append("drop unique constraint: " + lst(t, "unique"))
            want.setdefault(n["name"], []).append("create unique constraint: " + lst(n, "unique"))
        if comments and t["desc"] != n["desc"]:
            want.setdefault(n["name"], []).append("update table comment: `%s`" % n["desc"])
    for b in cn:
        if b not in pairs.values():
            want.setdefault(b, []).append("create table")
    for o, n in kept:
        ren = {}
        oc, nc = {c["name"]: c for c in o["columns"]}, {c["name"]: c for c in n["columns"]}
        for ln in got.get(n["name"], []):
            m = re.fullmatch(r"rename column: `(.*)` → `(.*)`", ln)
            if m:
                a, b = m.groups()
                if a not in oc or a in nc or b not in nc or b in oc or a in ren or b in ren.values() \
                        or not same_column(oc[a], nc[b], comments):
                    ctx.fail("unjustified column rename in %s: %s" % (n["name"], ln))
                    return
                ren[a] = b
        for a in oc:
            for b in nc:
                if a not in nc and b not in oc and a not in ren and b not in ren.values() \
                        and same_column(oc[a], nc[b], comments):
                    ctx.fail("renamed column %s.%s -> %s is not reported as a rename" % (n["name"], a, b))
        facts = expected_kept(o, n, ren, comments)
        if facts:
            want.setdefault(n["name"], []).extend(facts)
    want = {k: v for k, v in want.items() if v}
    ctx.same("sections of the report", sorted(got), sorted(want))
    for k in sorted(set(got) & set(want)):
        g, w = Counter(map(norm, got[k])), Counter(map(norm, want[k]))
        for ln in (w - g):
            ctx.fail("section %s: missing %r (reported: %r)" % (k, ln, got[k]))
        for ln in (g - w):
            ctx.fail("section %s: unfounded %r" % (k, ln))
        ctx.see("facts_compared", sum(w.values()))
        for ln in got[k]:
            for kind in KINDS:
                if ln.startswith(kind):
                    ctx.see("md_" + kind)
    ctx.state(text)
