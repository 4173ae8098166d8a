"""Reference model of the documented GORM output, and the reader built on go/parser + go/types."""
import json
import os
import re
import subprocess
from . import model as M, naming, strcase
from .harness import GOENV, VERIF, BuildError

TYPES = {  # column type -> (not null, nullable)
    "boolean": ("bool", "null.Bool"), "int8": ("int8", "null.Int"), "int16": ("int16", "null.Int"),
    "int24": ("int32", "null.Int"), "int32": ("int32", "null.Int"), "int64": ("int64", "null.Int"),
    "decimal": ("decimal.Decimal", "decimal.NullDecimal"), "float": ("float32", "null.Float"),
    "double": ("float64", "null.Float"), "bit": ("byte", "*byte"), "enum": ("string", "string"),
}
for _t in M.STRS:
    TYPES[_t] = ("string", "null.String")
for _t in ("datetime", "date", "time"):
    TYPES[_t] = ("time.Time", "null.Time")
for _t in M.BLOBS:
    TYPES[_t] = ("[]byte", "[]byte")

CHECKER = None


def prepare(base):
    global CHECKER
    CHECKER = os.path.join(base, "gocheck")
    env = dict(GOENV)
    env["GOFLAGS"] = ""
    if not os.access(os.path.dirname(GOENV["GOCACHE"]), os.W_OK):
        env["GOCACHE"] = os.path.join(base, "gocache")
    p = subprocess.run(["go", "build", "-o", CHECKER, "."], cwd=os.path.join(VERIF, "golang", "gocheck"), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError(p.stdout.decode())


def read_go(path, stubs=()):
    src = "\n".join("type %s struct{}" % s for s in sorted(stubs))
    p = subprocess.run([CHECKER, path] + ([src] if src else []), stdout=subprocess.PIPE, timeout=120)
    return json.loads(p.stdout)


INITIALISMS = ["API", "ASCII", "CPU", "CSS", "DNS", "EOF", "GUID", "HTML", "HTTP", "HTTPS", "ID", "IP", "JSON", "LHS",
               "QPS", "RAM", "RHS", "RPC", "SLA", "SMTP", "SSH", "TLS", "TTL", "UI", "UID", "UUID", "URI", "URL", "UTF8",
               "VM", "XML", "XSRF", "XSS"]


def db_name(name):
    """GORM's own field name -> column name rule (jinzhu/gorm default naming strategy)."""
    v, i = "", 0
    while i < len(name):
        for w in INITIALISMS:
            if name.startswith(w, i):
                v += w.capitalize()
                i += len(w)
                break
        else:
            v += name[i]
            i += 1
    if not v:
        return ""
    out, last, cur = "", False, False
    for i, ch in enumerate(v[:-1]):
        nc = "A" <= v[i + 1] <= "Z"
        nn = "0" <= v[i + 1] <= "9"
        if i > 0:
            if cur:
                if last and (nc or nn):
                    out += ch
                else:
                    if v[i - 1] != "_" and v[i + 1] != "_":
                        out += "_"
                    out += ch
            else:
                out += ch
                if i == len(v) - 2 and nc and not nn:
                    out += "_"
        else:
            cur = True
            out += ch
        last, cur = cur, nc
    return (out + v[-1]).lower()


def field_name(col):
    n = strcase.upper_camel(col)
    if n.endswith("Id"):
        n = n[:-2] + "ID"
    if n[:1].isdigit():
        n = "_" + n
    return n


def embeds(t, embed):
    models = {"gorm.Model": ["id", "created_at", "updated_at", "deleted_at"]}
    order = ["gorm.Model"]
    if embed:
        m = re.match(r"^([a-zA-Z0-9._]+):(.*)$", embed)
        if m:
            models[m.group(1)] = m.group(2).split(",") if m.group(2) else []
            order = [n for n in (m.group(1), "gorm.Model") if n == m.group(1) or n != m.group(1)]
            order = list(dict.fromkeys(order))
    left = {c["name"] for c in t["columns"]}
    used, cols = [], set()
    for n in order:
        if models[n] and set(models[n]) <= left:
            used.append(n)
            cols |= set(models[n])
            left -= set(models[n])
    return used, cols


def recursive(tables, a, b):
    """Is a contained, through value associations, in b?"""
    by = {t["name"]: t for t in tables}
    todo, seen = [b], set()
    while todo:
        n = todo.pop()
        if n == a:
            return True
        if n in seen or n not in by:
            continue
        seen.add(n)
        for c in by[n]["columns"]:
            r = c["ref"]
            if r and r["relationship"] != "1:n" and r["table"] in by:
                todo.append(r["table"])
    return False


def type_tag(c):
    if c["type"] in ("bit", "char", "varchar") and c["size"]:
        return "type:%s(%d)" % (c["type"], c["size"])
    if c["type"] in M.DECS and c["size"] and c["scale"]:
        return "type:%s(%d,%d)" % (c["type"], c["size"], c["scale"])
    return None


def tags(c, t, suffix):
    out = []
    tt = type_tag(c)
    if tt:
        out.append(tt)
    if c["pk"]:
        out.append("primary_key")
    if c["unique"]:
        n = sum(x["unique"] for x in t["columns"])
        out.append("unique" if n == 1 else "unique_index:%s%s" % (t["name"], suffix))
    for ix in t["indices"]:
        if c["name"] in ix["columns"]:
            out.append("index:" + ix["name"] if len(ix["columns"]) == 1
                       else "index:%s,priority:%d" % (ix["name"], ix["columns"].index(c["name"]) + 1))
    if c["autoinc"]:
        out.append("auto_increment")
    elif c["notnull"]:
        out.append("not null")
    return out


def tag_parts(tag):
    if tag == "":
        return []
    m = re.match(r'^gorm:"([^"]*)"$', tag)
    if not m:
        return ["<bad tag %s>" % tag]
    return m.group(1).split(";")
