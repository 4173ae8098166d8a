"""The documented command line (docs/*.md): option -> (long, short or None, env variable, kind)."""

I = ("input", "i", "OCTOPUS_INPUT", "str")
O = ("output", "o", "OCTOPUS_OUTPUT", "str")
G = ("groups", "g", "OCTOPUS_GROUPS", "str")


def _u(short="u"):
    return ("uniqueNameSuffix", short, "OCTOPUS_UNIQUE_NAME_SUFFIX", "str")


DIFF = [("author", "a", "OCTOPUS_AUTHOR", "str"), ("from", "f", "OCTOPUS_FROM", "str"), G, O,
        ("to", "t", "OCTOPUS_TO", "str"), _u(), ("comments", "c", "OCTOPUS_COMMENTS", "bool")]

COMMANDS = {
    "init": [O],
    "import mysql": [("author", "a", "OCTOPUS_AUTHOR", "str"), I, O,
                     ("excludes", "x", "OCTOPUS_EXCLUDES", "str"),
                     ("version", "v", "OCTOPUS_VERSION", "str")],
    "import ojson": [I, O],
    "import staruml": [I, O],
    "import xlsx": [I, O],
    "export dbml": [I, O, G],
    "export quickdbd": [I, O],
    "export mysql": [I, O, G, _u()],
    "export xlsx": [I, O, ("useNullColumn", None, "OCTOPUS_USE_NULL_COLUMN", "bool")],
    "generate gorm": [I, O, ("pointerAssociation", "a", "OCTOPUS_POINTER_ASSOCIATION", "bool"),
                      ("embed", "e", "OCTOPUS_EMBED", "str"), G,
                      ("package", "k", "OCTOPUS_PACKAGE", "str"),
                      ("prefix", "p", "OCTOPUS_PREFIX", "str"),
                      ("removePrefix", "r", "OCTOPUS_REMOVE_PREFIX", "str"), _u()],
    "generate graphql": [I, O, ("graphqlPackage", "p", "OCTOPUS_GRAPHQL_PACKAGE", "str")],
    "generate kt": [I, O, ("annotation", "a", "OCTOPUS_ANNOTATION", "str"), G,
                    ("idEntity", "e", "OCTOPUS_ID_ENTITY", "str"),
                    ("package", "p", "OCTOPUS_PACKAGE", "str"),
                    ("prefix", "f", "OCTOPUS_PREFIX", "str"),
                    ("relation", "l", "OCTOPUS_RELATION", "str"),
                    ("removePrefix", "d", "OCTOPUS_REMOVE_PREFIX", "str"),
                    ("reposPackage", "r", "OCTOPUS_REPOS_PACKAGE", "str"), _u("q"),
                    ("useUTC", "u", "OCTOPUS_USE_UTC", "bool")],
    "generate liquibase": [I, O, G, _u(), ("comments", "c", "OCTOPUS_COMMENTS", "bool")],
    "generate plantuml": [I, O],
    "generate pb": [I, O, ("goPackage", None, "OCTOPUS_GO_PACKAGE", "str"), G,
                    ("package", "p", "OCTOPUS_PACKAGE", "str"),
                    ("prefix", "f", "OCTOPUS_PREFIX", "str"),
                    ("removePrefix", "d", "OCTOPUS_REMOVE_PREFIX", "str"),
                    ("relationTagDecr", None, "OCTOPUS_RELATION_TAG_DECR", "bool"),
                    ("relationTagStart", None, "OCTOPUS_RELATION_TAG_START", "str")],
    "generate sqlalchemy": [I, O, G, ("prefix", "p", "OCTOPUS_PREFIX", "str"),
                            ("removePrefix", "r", "OCTOPUS_REMOVE_PREFIX", "str"), _u(),
                            ("useUTC", "t", "OCTOPUS_USE_UTC", "bool")],
    "diff flyway": DIFF,
    "diff liquibase": DIFF,
    "diff md": DIFF,
}


def cmdline(command, opts, style="long", rng=None):
    """argv and environment for `opts` (name -> value) in one of the documented spellings:
    long | short | eq | env | mix."""
    argv, env = command.split(), {}
    for name, short, var, kind in COMMANDS[command]:
        if name not in opts or opts[name] is None or opts[name] is False:
            continue
        v = opts[name]
        st = rng.choice(["long", "short", "eq", "env", "long"]) if style == "mix" else style
        if st == "short" and not short:
            st = "long"
        if st == "env" and kind == "str" and v == "":
            st = "long"
        if kind == "bool":
            if st == "env":
                env[var] = "true"
            else:
                argv.append("-" + short if st == "short" else "--" + name)
        elif st == "env":
            env[var] = str(v)
        elif st == "eq":
            argv.append("--%s=%s" % (name, v))
        else:
            argv += ["-" + short if st == "short" else "--" + name, str(v)]
    assert set(opts) <= {o[0] for o in COMMANDS[command]}, (command, opts)
    return argv, env


def run(ctx, command, opts, style="long", rng=None, ok=True, cwd=None, env=None):
    argv, e = cmdline(command, opts, style, rng)
    return (ctx.ok if ok else ctx.oct)(*argv, env=dict(env or {}, **(e or {})), cwd=cwd)
