"""Valid inputs of every import command, taken from the generators of the import checks."""
import json
from . import xlsxio as X

CMDS = ["import mysql", "import ojson", "import staruml", "import xlsx"]


def make(rng, command):
    """A JSON-able description of an input file; see write()."""
    from checks import c04, c08, c10, c11
    if command == "import mysql":
        sql, _, opts = c04.make(rng)
        return {"cmd": command, "name": "in.sql", "text": sql, "opts": opts}
    if command == "import xlsx":
        c = c08.make(rng)
        return {"cmd": command, "name": "in.xlsx", "opts": {},
                "sheets": [c["sheets"], c["inline"], c["sparse"]]}
    while True:
        c = c10.make(rng) if command == "import staruml" else c11.make(rng)
        if not c["bad"]:
            break
    return {"cmd": command, "name": c["name"], "opts": {},
            "text": json.dumps(c["mdj"] if command == "import staruml" else c["v1"], ensure_ascii=False)}


def data(imp):
    if "sheets" in imp:
        sheets, inline, sparse = imp["sheets"]
        return X.write([(n, rows) for n, rows in sheets], inline, sparse)
    return imp["text"].encode("utf8")
