"""Reader of generated Kotlin sources (strict: anything outside the JPA entity subset of the grammar is an error)
and the reference model of the documented JPA output."""
import re
from . import model as M, strcase

TOKEN = re.compile(r'\s+|//[^\n]*|/\*.*?\*/|(?P<str>"(?:[^"\\\n]|\\.)*")|(?P<id>`[^`\n]+`|[A-Za-z_]\w*)|'
                   r'(?P<num>\d[\w.]*)|(?P<sym>::|[@()\[\]{},:.=?<>*])', re.S)
KEYWORDS = set("as break class continue do else false for fun if in interface is null object package return super this "
               "throw true try typealias typeof val var when while".split())


class KotlinError(Exception):
    pass


class Parser:
    def __init__(self, text):
        self.t, i = [], 0
        while i < len(text):
            m = TOKEN.match(text, i)
            if not m or m.end() == i:
                raise KotlinError("not Kotlin at %r" % text[i:i + 40])
            if m.lastgroup:
                self.t.append((m.lastgroup, m.group(m.lastgroup), "\n" in text[:0] or text.count("\n", 0, i)))
            i = m.end()
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def next(self, want=None):
        if self.i >= len(self.t):
            raise KotlinError("unexpected end, expected %s" % want)
        v = self.t[self.i][1]
        if want is not None and v != want:
            raise KotlinError("expected %r, found %r near %s" % (want, v, [x[1] for x in self.t[max(0, self.i - 6):self.i + 3]]))
        self.i += 1
        return v

    def ident(self):
        kind, v, _ = self.t[self.i] if self.i < len(self.t) else ("eof", None, 0)
        if kind != "id":
            raise KotlinError("expected a name, found %r" % v)
        if v in KEYWORDS:
            raise KotlinError("keyword %r used as a name" % v)
        self.i += 1
        return v[1:-1] if v[0] == "`" else v

    def qual(self):
        n = self.ident()
        while self.peek() == ".":
            self.next()
            if self.peek() == "*":
                n += "." + self.next()
                break
            n += "." + self.ident()
        return n

    def file(self):
        f = {"package": None, "imports": [], "decls": []}
        if self.peek() == "package":
            self.next()
            f["package"] = self.qual()
        while self.peek() == "import":
            self.next()
            f["imports"].append(self.qual())
        while self.peek() is not None:
            f["decls"].append(self.decl())
        return f

    def annotations(self):
        out = []
        while self.peek() == "@":
            self.next()
            n = self.qual()
            args = []
            if self.peek() == "(":
                args = self.args("(", ")")
            out.append((n, args))
        return out

    def args(self, a, b):
        """Comma separated [name =] expression."""
        self.next(a)
        out = []
        while self.peek() != b:
            name = None
            if self.t[self.i][0] == "id" and self.peek(1) == "=":
                name = self.ident()
                self.next("=")
            out.append((name, self.expr((",", b))))
            if self.peek() == ",":
                self.next()
            elif self.peek() != b:
                raise KotlinError("expected , or %s, found %r" % (b, self.peek()))
        self.next(b)
        return out

    def expr(self, stop):
        if self.peek() in stop:
            raise KotlinError("empty expression before %r" % self.peek())
        if self.peek() == "[":
            return [x for _, x in self.args("[", "]")]
        if self.t[self.i][0] == "str":
            v = self.next()
            if self.peek() not in stop:
                raise KotlinError("unexpected %r after a string" % self.peek())
            return ("str", re.sub(r"\\(.)", r"\1", v[1:-1]))
        if self.t[self.i][0] == "id" and self.peek(1) == "(":
            n = self.ident()
            return ("call", n, self.args("(", ")"))
        out, depth = "", 0
        while depth or self.peek() not in stop:
            v = self.next()
            depth += (v in "([") - (v in ")]")
            out += v
        return out

    def type(self):
        n = self.qual()
        if self.peek() == "<":
            self.next()
            a = [self.type()]
            while self.peek() == ",":
                self.next()
                a.append(self.type())
            self.next(">")
            n += "<" + ", ".join(a) + ">"
        if self.peek() == "?":
            self.next()
            n += "?"
        return n

    def decl(self):
        d = {"annotations": self.annotations(), "super": [], "params": []}
        k = self.next()
        if k == "data":
            k = "data " + self.next("class")
        if k not in ("data class", "interface", "class"):
            raise KotlinError("expected a declaration, found %r" % k)
        d["kind"], d["name"] = k, self.ident()
        if k != "interface":
            self.next("(")
            while self.peek() != ")":
                p = {"annotations": self.annotations(), "override": False, "default": None}
                if self.peek() == "override":
                    p["override"] = bool(self.next())
                v = self.next()
                if v not in ("var", "val"):
                    raise KotlinError("expected var, found %r" % v)
                p["name"] = self.ident()
                self.next(":")
                p["type"] = self.type()
                if self.peek() == "=":
                    self.next()
                    i = self.i
                    self.expr((",", ")"))
                    p["default"] = "".join(x[1] for x in self.t[i:self.i])
                d["params"].append(p)
                if self.peek() == ",":
                    self.next()
                elif self.peek() != ")":
                    raise KotlinError("expected , between properties, found %r" % self.peek())
            self.next(")")
            if not d["params"] and k == "data class":
                raise KotlinError("data class without properties")
        if self.peek() == ":":
            self.next()
            d["super"].append(self.type())
            while self.peek() == ",":
                self.next()
                d["super"].append(self.type())
        if self.peek() == "{":
            self.next()
            self.next("}")
        return d


def parse(text):
    return Parser(text).file()


# --- reference model ------------------------------------------------------------------------------
TYPES = {"boolean": ("Boolean", "false"), "int64": ("Long", "0L"), "decimal": ("BigDecimal", "BigDecimal.ZERO"),
         "float": ("Float", "0.0F"), "double": ("Double", "0.0"),
         "datetime": ("Timestamp", "Timestamp(System.currentTimeMillis())"),
         "date": ("LocalDate", "LocalDate.now()"), "time": ("LocalTime", "LocalTime.now()")}
for _t in M.STRS:
    TYPES[_t] = ("String", '""')
for _t in ("int8", "int16", "int24", "int32"):
    TYPES[_t] = ("Int", "0")
for _t in M.BLOBS:
    TYPES[_t] = ("Blob", None)
IMPORTS = {"decimal": "java.math.BigDecimal", "datetime": "java.sql.Timestamp", "date": "java.time.LocalDate",
           "time": "java.time.LocalTime"}
for _t in M.BLOBS:
    IMPORTS[_t] = "java.sql.Blob"


def symmetric(col):
    return strcase.snake(strcase.lower_camel(col)) == col


def annotations_for(arg, group):
    """[(name, args)] of --annotation for a group."""
    if not arg:
        return []
    if ":" not in arg:
        return [arg]
    m = {}
    for tok in arg.split(","):
        g, sep, v = tok.partition(":")
        if sep:
            m[g] = v.split(";")
    return m.get(group, [])
