"""Independent reader of proto3 files (the subset a schema generator needs) and protoc as a second judge."""
import re
import subprocess


class Bad(Exception):
    pass


TOK = re.compile(r'\s+|//[^\n]*|/\*.*?\*/|("(?:[^"\\\n]|\\.)*")|([A-Za-z_][A-Za-z0-9_]*)|(\d+)|(\S)', re.S)


def parse(text):
    toks = []
    for m in TOK.finditer(text):
        if m.group(1) or m.group(2) or m.group(3) or m.group(4):
            toks.append(m.group(0))
    i = 0
    d = {"syntax": None, "package": None, "options": {}, "imports": [], "messages": []}

    def nxt():
        nonlocal i
        if i >= len(toks):
            raise Bad("unexpected end")
        i += 1
        return toks[i - 1]

    def want(x):
        t = nxt()
        if t != x:
            raise Bad("expected %r, got %r" % (x, t))

    def ident():
        t = nxt()
        if not re.match(r"^[A-Za-z_]\w*$", t):
            raise Bad("not an identifier: %r" % t)
        return t

    def dotted():
        s = ident()
        while i < len(toks) and toks[i] == ".":
            nxt()
            s += "." + ident()
        return s

    def string():
        t = nxt()
        if t[0] != '"':
            raise Bad("string expected, got %r" % t)
        return t[1:-1]
    while i < len(toks):
        k = nxt()
        if k == "syntax":
            want("=")
            d["syntax"] = string()
            want(";")
        elif k == "package":
            if d["package"] is not None:
                raise Bad("package twice")
            d["package"] = dotted()
            want(";")
        elif k == "option":
            n = dotted()
            want("=")
            d["options"][n] = string()
            want(";")
        elif k == "import":
            d["imports"].append(string())
            want(";")
        elif k == "message":
            m = {"name": ident(), "fields": []}
            want("{")
            while toks[i:i + 1] != ["}"]:
                rep = False
                if toks[i:i + 1] == ["repeated"] and re.match(r"^[A-Za-z_]", toks[i + 2] if i + 2 < len(toks) else "") \
                        or toks[i:i + 1] == ["repeated"] and toks[i + 2:i + 3] == ["."]:
                    nxt()
                    rep = True
                ty = dotted()
                n = ident()
                want("=")
                tag = nxt()
                if not tag.isdigit():
                    raise Bad("tag %r" % tag)
                want(";")
                m["fields"].append({"type": ty, "name": n, "tag": int(tag), "repeated": rep})
            want("}")
            d["messages"].append(m)
        elif k == ";":
            pass
        else:
            raise Bad("unexpected %r" % k)
    return d


def protoc(path, dirname):
    p = subprocess.run(["protoc", "-I", dirname, "--descriptor_set_out=/dev/null", path], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=60)
    errs = [ln for ln in p.stdout.decode("utf8", "replace").split("\n") if ln.strip() and "warning" not in ln.lower()]
    return p.returncode, "\n".join(errs)


TYPES = {"boolean": "bool", "int64": "int64", "decimal": "double", "double": "double", "float": "float",
         "datetime": "google.protobuf.Timestamp", "year": "int32"}
for _t in ("int8", "int16", "int24", "int32"):
    TYPES[_t] = "int32"
for _t in ("char", "varchar", "text8", "text16", "text24", "text32", "date", "time", "enum", "set", "json"):
    TYPES[_t] = "string"
for _t in ("binary", "varbinary", "bit", "blob8", "blob16", "blob24", "blob32", "geometry", "point"):
    TYPES[_t] = "bytes"
# documented scalar mappings; other column types only have to be valid proto3 scalars
FIRM = {t: v for t, v in TYPES.items() if t in (
    "boolean", "int8", "int16", "int24", "int32", "int64", "decimal", "double", "float", "datetime", "char", "varchar",
    "text8", "text16", "text24", "text32")}
SCALARS = {"double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32",
           "sfixed64", "bool", "string", "bytes"}
