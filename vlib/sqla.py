"""A strict stand-in for SQLAlchemy's declarative layer: generated modules are executed against it and it records the
mapped classes. It rejects what SQLAlchemy rejects at import time."""
import builtins
import datetime as _dt
import types


class SAError(Exception):
    pass


class TypeEngine:
    ARGS = ()

    def __init__(self, *a, **kw):
        if len(a) > len(self.ARGS):
            raise TypeError("%s takes %d arguments" % (type(self).__name__, len(self.ARGS)))
        self.args = dict(zip(self.ARGS, a))
        for k, v in kw.items():
            if k not in self.ARGS or k in self.args:
                raise TypeError("%s has no argument %r" % (type(self).__name__, k))
            self.args[k] = v
        for k in ("length", "precision", "scale"):
            v = self.args.get(k)
            if v is not None and not isinstance(v, int):
                raise TypeError("%s: %s must be a number" % (type(self).__name__, k))


def _type(name, *args):
    return type(name, (TypeEngine,), {"ARGS": args})


TYPES = {t.__name__: t for t in [
    _type("String", "length", "collation"), _type("Unicode", "length"), _type("Text", "length"), _type("UnicodeText", "length"),
    _type("Integer"), _type("BigInteger"), _type("SmallInteger"), _type("Boolean", "create_constraint", "name"),
    _type("Numeric", "precision", "scale", "decimal_return_scale", "asdecimal"),
    _type("Float", "precision", "asdecimal", "decimal_return_scale"),
    _type("DateTime", "timezone"), _type("Date"), _type("Time", "timezone"), _type("LargeBinary", "length"),
    _type("JSON", "none_as_null"), _type("Interval")]}


class TypeDecorator(TypeEngine):
    def __init__(self, *a, **kw):
        impl = getattr(type(self), "impl", None)
        if impl is None:
            raise SAError("TypeDecorator without impl")
        if not (isinstance(impl, type) and issubclass(impl, TypeEngine)):
            raise SAError("impl is no type")
        TypeEngine.__init__(self)


class UniqueConstraint:
    def __init__(self, *columns, name=None):
        self.columns, self.name = columns, name
        if not all(isinstance(c, str) for c in columns):
            raise SAError("constraint columns are names")


class Column:
    KW = {"primary_key": bool, "unique": bool, "nullable": bool, "autoincrement": bool, "default": None, "onupdate": None,
          "index": bool, "comment": str, "server_default": None}

    def __init__(self, *args, **kw):
        args = list(args)
        self.name = args.pop(0) if args and isinstance(args[0], str) else None
        self.type = None
        if args:
            t = args.pop(0)
            if isinstance(t, type) and issubclass(t, TypeEngine):
                t = t()
            if not isinstance(t, TypeEngine):
                raise SAError("%r is no column type" % (t,))
            self.type = t
        if args:
            raise SAError("unexpected column arguments %r" % (args,))
        for k, v in kw.items():
            if k not in self.KW:
                raise TypeError("unknown Column argument %r" % k)
            if self.KW[k] and not isinstance(v, self.KW[k]):
                raise TypeError("Column argument %s=%r" % (k, v))
        self.kw = kw


class RepresentableBase:
    pass


MODELS = []


def declarative_base(cls=object, **kw):
    if kw:
        raise TypeError("unknown argument")
    seen = {}

    class Meta(type):
        def __init__(c, name, bases, ns):
            type.__init__(c, name, bases, ns)
            if name == "Base" and not any(isinstance(b, Meta) for b in bases):
                return
            if not isinstance(ns.get("__tablename__"), str):
                raise SAError("class %s has no table name" % name)
            if ns["__tablename__"] in seen:
                raise SAError("table %s is already defined" % ns["__tablename__"])
            seen[ns["__tablename__"]] = name
            cols = []
            for k, v in ns.items():
                if isinstance(v, Column):
                    if k in ("metadata", "registry"):
                        raise SAError("attribute name %r is reserved by the declarative API" % k)
                    cols.append((k, v.name or k, v))
            names = [n for _, n, _ in cols]
            if len(set(names)) != len(names):
                raise SAError("duplicate column in %s" % name)
            ta = ns.get("__table_args__", ())
            if not isinstance(ta, tuple):
                raise SAError("__table_args__ must be a tuple")
            for u in ta:
                if not isinstance(u, UniqueConstraint):
                    raise SAError("bad table argument %r" % (u,))
                for x in u.columns:
                    if x not in names:
                        raise SAError("constraint names the unknown column %r" % x)
            MODELS.append({"class": name, "table": ns["__tablename__"], "columns": cols,
                           "unique": [(u.name, list(u.columns)) for u in ta]})
    return Meta("Base", (cls,), {})


def _mod(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    return m


MODULES = {
    "sqlalchemy": _mod("sqlalchemy", Column=Column, UniqueConstraint=UniqueConstraint, TypeDecorator=TypeDecorator, **TYPES),
    "sqlalchemy.ext.declarative": _mod("sqlalchemy.ext.declarative", declarative_base=declarative_base),
    "sqlalchemy_repr": _mod("sqlalchemy_repr", RepresentableBase=RepresentableBase),
    "datetime": _dt,
}


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if name not in MODULES or level:
        raise ImportError("no module named %r" % name)
    for f in fromlist or ():
        if f == "*" or not hasattr(MODULES[name], f):
            raise ImportError("cannot import name %r from %r" % (f, name))
    if not fromlist:
        raise ImportError("unexpected import form")
    return MODULES[name]


def run(source, filename="models.py"):
    """Execute a generated module; (models, namespace)."""
    code = compile(source, filename, "exec")
    del MODELS[:]
    b = {k: getattr(builtins, k) for k in ("__build_class__", "TypeError", "True", "False", "None", "object", "ValueError")}
    b["__import__"] = _import
    ns = {"__name__": "models", "__builtins__": b}
    exec(code, ns)
    return list(MODELS), ns


# reference model
GENERIC = {"boolean": "Boolean", "int8": "Integer", "int16": "Integer", "int24": "Integer", "int32": "Integer",
           "int64": "BigInteger", "decimal": "Numeric", "float": "Float", "double": "Float", "datetime": "DateTime",
           "date": "Date", "time": "Time"}
for _t in ("char", "varchar", "text8", "text16", "text24", "text32"):
    GENERIC[_t] = "String"
for _t in ("blob8", "blob16", "blob24", "blob32"):
    GENERIC[_t] = "LargeBinary"
