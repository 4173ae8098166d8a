import ast
import datetime
from checks import c22
from vlib import sqla

PROPERTY = "C23"
RULE = ("SQLAlchemy modules generated from schemas stressed for Python (every column type with any size, names which are "
        "Python keywords, names with a meaning in declarative classes, composite and renamed unique columns, useUTC) in "
        "single-file and directory mode; each module is parsed, its names resolved, and it is executed against a strict "
        "stand-in which rejects what SQLAlchemy rejects at import; TZDateTime is exercised with times of many zones; "
        "distinct = distinct sources")
FLOOR = {"modules": 1000, "names_resolved": 10000, "tzdatetime_runs": 200, "imports_checked": 3000}
ASSUMPTIONS = ["tables have a primary key where SQLAlchemy demands one; class names are none of Python or SQLAlchemy; the stand-in models SQLAlchemy's documented "
               "import-time behaviour"]


def gen(rng, tier):
    for i in range(900 if tier == "quick" else 10000):
        c = c22.make(rng, reserved=rng.choice([0, 0.2]))
        if i % 3 == 0:
            c["useUTC"] = True
        if i % 2:
            c["out"] = "out"
        if i % 50 == 7:
            c["groups"] = "nosuch"
        yield c


def run(case, ctx):
    for name, src, ts in c22.generate(case, ctx):
        ctx.see("modules")
        try:
            tree = ast.parse(src)
            models, ns = sqla.run(src, name)
        except Exception as e:
            ctx.fail("%s cannot be imported: %s: %s\n%s" % (name, type(e).__name__, e, src[:800]))
            continue
        ctx.state(src)
        ctx.same(name + " number of models", len(models), len(ts))
        bound = set(dir(__builtins__) if not isinstance(__builtins__, dict) else __builtins__)
        for n in ast.walk(tree):
            if isinstance(n, (ast.ImportFrom, ast.Import)):
                for a in n.names:
                    ctx.see("imports_checked")
                    bound.add(a.asname or a.name)
            elif isinstance(n, (ast.ClassDef, ast.FunctionDef)):
                bound.add(n.name)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                bound.add(n.id)
            elif isinstance(n, ast.arg):
                bound.add(n.arg)
        for n in ast.walk(tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                ctx.see("names_resolved")
                if n.id not in bound:
                    ctx.fail("%s uses %s without importing it" % (name, n.id))
        if "TZDateTime" in ns:
            tz(ctx, name, ns["TZDateTime"])


def tz(ctx, name, cls):
    ctx.see("tzdatetime_runs")
    x = cls()
    ctx.same(name + " TZDateTime(None)", (x.process_bind_param(None, None), x.process_result_value(None, None)), (None, None))
    for h in (-11, -3, 0, 5.5, 9, 14):
        d = datetime.datetime(2024, 2, 29, 23, 30, tzinfo=datetime.timezone(datetime.timedelta(hours=h)))
        b = x.process_bind_param(d, None)
        ctx.same(name + " TZDateTime stored value", b, (d - d.utcoffset()).replace(tzinfo=None))
        ctx.same(name + " TZDateTime loaded value", x.process_result_value(b, None), d)
    try:
        x.process_bind_param(datetime.datetime(2024, 1, 1), None)
        ctx.fail(name + ": TZDateTime accepts a time without zone")
    except TypeError:
        pass
