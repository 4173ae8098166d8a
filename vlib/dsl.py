"""Independent readers of the diagram languages: DBML, QuickDBD, PlantUML, GraphQL SDL."""
import re


class Bad(Exception):
    pass


REL_DBML = {">": "n:1", "<": "1:n", "-": "1:1"}
REL_QDB = {">-": "n:1", "-<": "1:n", "-": "1:1"}
REL_PUML = {"}o-||": "n:1", "||-o{": "1:n", "||-||": "1:1"}


# ------------------------------------------------------------------ DBML
def _dbml_settings(s, i, where):
    """[a, b: v, ...] starting after '['. Returns list of (key, kind, value), index after ']'."""
    out, key, n = [], "", len(s)
    val = None

    def push():
        nonlocal key, val
        k = key.strip()
        if not k and val is None:
            raise Bad("empty setting in %s" % where)
        out.append((k,) + (val or (None, None)))
        key, val = "", None
    state = "key"
    while i < n:
        ch = s[i]
        if state == "key":
            if ch == "]":
                push()
                return out, i + 1
            if ch == ",":
                push()
            elif ch == ":":
                state = "val"
            elif ch in "'\"`\n[{}":
                raise Bad("unexpected %r in the settings of %s" % (ch, where))
            else:
                key += ch
            i += 1
        else:
            while i < n and s[i] == " ":
                i += 1
            if i < n and s[i] in "'\"`":
                q = s[i]
                i += 1
                b = ""
                while True:
                    if i >= n or s[i] == "\n":
                        raise Bad("unterminated string in %s" % where)
                    if s[i] == "\\" and q != "`":
                        b += {"n": "\n", "t": "\t"}.get(s[i + 1], s[i + 1])
                        i += 2
                    elif s[i] == q:
                        i += 1
                        break
                    else:
                        b += s[i]
                        i += 1
                val = ({"'": "str", '"': "str", "`": "fn"}[q], b)
            else:
                j = i
                while i < n and s[i] not in ",]\n'\"`[{}":
                    i += 1
                val = ("raw", s[j:i].strip())
                if not val[1]:
                    raise Bad("setting without value in %s" % where)
            while i < n and s[i] == " ":
                i += 1
            if i >= n or s[i] not in ",]":
                raise Bad("garbage after a setting of %s: %r" % (where, s[i:i + 20]))
            state = "key"
    raise Bad("unterminated settings of %s" % where)


def dbml(text):
    tables, refs = [], []
    i, n = 0, len(text)
    cur = None
    while i < n:
        if text[i] in " \n\t":
            i += 1
            continue
        if cur is None:
            m = re.compile(r"Table (\S+) \{[ ]*\n").match(text, i)
            if m:
                cur = {"name": m.group(1), "columns": []}
                i = m.end()
                continue
            m = re.compile(r"Ref: *(\S+)\.(\S+) ([<>-]) (\S+)\.(\S+)[ ]*(?:\n|$)").match(text, i)
            if m:
                refs.append({"from": [m.group(1), m.group(2)], "rel": REL_DBML[m.group(3)],
                             "to": [m.group(4), m.group(5)]})
                i = m.end()
                continue
            raise Bad("not DBML: %r" % text[i:i + 60])
        if text[i] == "}":
            tables.append(cur)
            cur = None
            i += 1
            continue
        m = re.compile(r"(\S+) ([A-Za-z0-9]+)(?:\((\d+)(?:,\s*(\d+))?\))?[ ]*").match(text, i)
        if not m:
            raise Bad("not a DBML column: %r" % text[i:i + 60])
        c = {"name": m.group(1), "type": m.group(2), "size": int(m.group(3) or 0), "scale": int(m.group(4) or 0),
             "pk": False, "unique": False, "notnull": False, "default": None, "note": ""}
        i = m.end()
        if i < n and text[i] == "[":
            st, i = _dbml_settings(text, i + 1, c["name"])
            seen = set()
            for k, kind, v in st:
                if k in seen:
                    raise Bad("setting %s of %s given twice" % (k, c["name"]))
                seen.add(k)
                if kind is None and k == "pk":
                    c["pk"] = True
                elif kind is None and k == "unique":
                    c["unique"] = True
                elif kind is None and k == "not null":
                    c["notnull"] = True
                elif kind and k == "default":
                    c["default"] = [kind, v]
                elif k == "note" and kind == "str":
                    c["note"] = v
                elif k == "ref" and kind == "raw":
                    r = re.match(r"^([<>-]) (\S+)\.(\S+)$", v)
                    if not r:
                        raise Bad("bad ref %r" % v)
                    refs.append({"from": [cur["name"], c["name"]], "rel": REL_DBML[r.group(1)],
                                 "to": [r.group(2), r.group(3)]})
                else:
                    raise Bad("unknown setting %r of %s" % ((k, kind, v), c["name"]))
        if i < n and text[i] != "\n":
            raise Bad("garbage after column %s: %r" % (c["name"], text[i:i + 30]))
        cur["columns"].append(c)
    if cur is not None:
        raise Bad("table %s is not closed" % cur["name"])
    return tables, refs


# ------------------------------------------------------------------ QuickDBD
def quickdbd(text):
    tables = []
    lines = re.split(r"\r\n|\r|\n", text)
    i = 0
    while i < len(lines):
        ln = lines[i]
        if ln.strip() == "":
            i += 1
            continue
        if i + 1 >= len(lines) or not re.match(r"^-+$", lines[i + 1]):
            raise Bad("not a QuickDBD table header: %r" % ln)
        head, _, cm = ln.partition(" # ")
        if " " in head.strip():
            raise Bad("table name %r" % head)
        t = {"name": head.strip(), "desc": cm, "columns": []}
        i += 2
        while i < len(lines) and lines[i].strip() != "":
            t["columns"].append(_qcol(lines[i]))
            i += 1
        tables.append(t)
    return tables


def _qcol(ln):
    m = re.match(r"^(\S+) (\S+)(?: (.*))?$", ln)
    if not m:
        raise Bad("not a QuickDBD column: %r" % ln)
    c = {"name": m.group(1), "type": m.group(2), "pk": False, "unique": False, "autoinc": False, "nullable": False,
         "default": "", "ref": None, "desc": ""}
    rest = " " + (m.group(3) or "")

    def take(rx):
        nonlocal rest
        mm = re.match(rx, rest)
        if mm:
            rest = rest[mm.end():]
        return mm
    while rest.strip():
        if take(r" PK(?= |$)"):
            c["pk"] = True
        elif take(r" UNIQUE(?= |$)"):
            c["unique"] = True
        elif take(r" AUTOINCREMENT(?= |$)"):
            c["autoinc"] = True
        elif take(r" NULLABLE(?= |$)"):
            c["nullable"] = True
        else:
            mm = take(r" # (.*)$")
            if mm:
                c["desc"] = mm.group(1)
                continue
            mm = take(r" FK (>-|-<|-) (\S+)\.(\S+?)(?= #|$)")
            if mm:
                c["ref"] = {"rel": REL_QDB[mm.group(1)], "table": mm.group(2), "column": mm.group(3)}
                continue
            mm = take(r" default=(.*?)(?= FK (?:>-|-<|-) \S| # |$)")
            if mm:
                c["default"] = mm.group(1)
                continue
            raise Bad("not a QuickDBD attribute: %r in %r" % (rest, ln))
    return c


# ------------------------------------------------------------------ PlantUML
def plantuml(text):
    lines = text.split("\n")
    while lines and not lines[-1].strip():
        lines.pop()
    if not lines or lines[0] != "@startuml" or lines[-1] != "@enduml":
        raise Bad("no @startuml/@enduml frame")
    tables, refs, cur = [], [], None
    for ln in lines[1:-1]:
        if not ln.strip():
            continue
        if cur is None:
            m = re.match(r"^entity (\S+) \{$", ln)
            if m:
                cur = {"name": m.group(1), "columns": [], "seps": []}
                continue
            m = re.match(r"^(\S+) (\S+) (\S+)$", ln)
            if m and m.group(2) in REL_PUML:
                refs.append([m.group(1), REL_PUML[m.group(2)], m.group(3)])
                continue
            raise Bad("not PlantUML: %r" % ln)
        if ln == "}":
            tables.append(cur)
            cur = None
        elif ln.strip() == "--":
            cur["seps"].append(len(cur["columns"]))
        else:
            m = re.match(r"^ *(\* )?([^\s:]+): (\S+)((?: <<(?:PK|UQ|FK)>>)*)$", ln)
            if not m:
                raise Bad("not an entity attribute: %r" % ln)
            tags = re.findall(r"<<(..)>>", m.group(4))
            if len(tags) != len(set(tags)):
                raise Bad("stereotype twice: %r" % ln)
            cur["columns"].append({"name": m.group(2), "type": m.group(3), "notnull": bool(m.group(1)),
                                   "tags": sorted(tags)})
    if cur is not None:
        raise Bad("entity %s is not closed" % cur["name"])
    return tables, refs


# ------------------------------------------------------------------ GraphQL SDL
def graphql(text):
    toks = re.findall(r"[_A-Za-z][_0-9A-Za-z]*|[{}\[\]!:]|\S", text)
    i = 0
    types, schema = [], None

    def nxt():
        nonlocal i
        if i >= len(toks):
            raise Bad("unexpected end of the GraphQL document")
        i += 1
        return toks[i - 1]

    def want(x):
        t = nxt()
        if t != x:
            raise Bad("expected %r, got %r" % (x, t))

    def name():
        t = nxt()
        if not re.match(r"^[_A-Za-z][_0-9A-Za-z]*$", t):
            raise Bad("not a GraphQL name: %r" % t)
        return t

    def typ():
        if i < len(toks) and toks[i] == "[":
            nxt()
            s = "[" + typ() + "]"
            want("]")
        else:
            s = name()
        if i < len(toks) and toks[i] == "!":
            nxt()
            s += "!"
        return s
    while i < len(toks):
        k = nxt()
        if k not in ("schema", "type"):
            raise Bad("unexpected %r" % k)
        n = name() if k == "type" else None
        want("{")
        fs = []
        while i < len(toks) and toks[i] != "}":
            f = name()
            want(":")
            fs.append([f, typ()])
        want("}")
        if k == "schema":
            if schema is not None:
                raise Bad("two schema definitions")
            schema = fs
        else:
            types.append({"name": n, "fields": fs})
    return schema, types
