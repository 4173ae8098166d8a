"""Documented class naming: className, else group prefix + UpperCamel(table name minus removed prefixes)."""
from . import strcase


def prefix_for(prefix, group):
    if not prefix:
        return ""
    if ":" not in prefix:
        return prefix
    m = {}
    for tok in prefix.split(","):
        g, sep, v = tok.partition(":")
        if sep:
            m[g] = v
    return m.get(group, "")


def strip(name, remove):
    for p in (remove or "").split(","):
        if p and name.startswith(p):
            name = name[len(p):]
    return name


def class_name(t, prefix=None, remove=None, use_class=True):
    if use_class and t["className"]:
        return t["className"]
    return prefix_for(prefix, t["group"]) + strcase.upper_camel(strip(t["name"], remove))


def opts(rng, tables, use_class=True, base=("user", "order")):
    """Random --prefix / --removePrefix values which keep class names distinct."""
    groups = sorted({t["group"] for t in tables} - {""})
    for _ in range(50):
        x = rng.random()
        prefix = None
        if x < 0.25:
            prefix = rng.choice(["P", "App", "X1"])
        elif x < 0.6 and groups:
            gs = rng.sample(groups, rng.randint(1, len(groups)))
            toks = ["%s:%s" % (g, rng.choice(["C", "Adm", "Sh", "Z", ""])) for g in gs]
            if rng.random() < 0.15:
                toks.append("nosuch:N")
            if rng.random() < 0.05:
                toks.append("stray")
            prefix = ",".join(toks)
        remove = None
        if rng.random() < 0.5:
            pool = ["tb_", "t_", "tbl_", "old_", "my_", "nosuch_"]
            firsts = [t["name"].split("_")[0] + "_" for t in tables if "_" in t["name"]]
            remove = ",".join(rng.sample(pool + firsts, rng.randint(1, 3)))
        names = [class_name(t, prefix, remove, use_class).lower() for t in tables]
        if len(set(names)) == len(names) and all(n and n[0].isalpha() and n not in ("true", "false", "none", "column", "string", "enum") for n in names):
            return prefix, remove
    return None, None
