"""Minimal independent reader/writer of .xlsx workbooks (cells as text)."""
import io
import re
import zipfile
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape

NS = "{http://schemas.openxmlformats.org/spreadsheetml/2006/main}"
RN = "{http://schemas.openxmlformats.org/officeDocument/2006/relationships}"


def col_idx(ref):
    n = 0
    for ch in re.match(r"[A-Z]+", ref).group():
        n = n * 26 + ord(ch) - 64
    return n - 1


def col_name(i):
    s = ""
    i += 1
    while i:
        i, r = divmod(i - 1, 26)
        s = chr(65 + r) + s
    return s


def _text(el):
    return "".join(t.text or "" for t in el.iter(NS + "t"))


def read(data):
    """bytes -> [(sheet name, rows)], rows = list of lists of str (trailing blanks cut)."""
    z = zipfile.ZipFile(io.BytesIO(data))
    names = set(z.namelist())
    shared = []
    if "xl/sharedStrings.xml" in names:
        for si in ET.fromstring(z.read("xl/sharedStrings.xml")).findall(NS + "si"):
            shared.append(_text(si))
    rels = {}
    for r in ET.fromstring(z.read("xl/_rels/workbook.xml.rels")):
        rels[r.get("Id")] = r.get("Target")
    out = []
    for sh in ET.fromstring(z.read("xl/workbook.xml")).find(NS + "sheets"):
        tgt = rels[sh.get(RN + "id")].lstrip("/")
        if not tgt.startswith("xl/"):
            tgt = "xl/" + tgt
        rows = []
        for row in ET.fromstring(z.read(tgt)).iter(NS + "row"):
            idx = int(row.get("r", len(rows) + 1)) - 1
            while len(rows) < idx:
                rows.append([])
            cells = []
            for c in row.findall(NS + "c"):
                i = col_idx(c.get("r")) if c.get("r") else len(cells)
                while len(cells) < i:
                    cells.append("")
                v = c.find(NS + "v")
                if c.get("t") == "s":
                    cells.append(shared[int(v.text)] if v is not None else "")
                elif c.get("t") == "inlineStr":
                    cells.append(_text(c))
                else:
                    cells.append(v.text or "" if v is not None else "")
            while cells and cells[-1] == "":
                cells.pop()
            rows.append(cells)
        while rows and not rows[-1]:
            rows.pop()
        out.append((sh.get("name"), rows))
    return out


def write(sheets, inline=False, sparse=True):
    """[(name, rows)] -> bytes"""
    shared, index = [], {}

    def sst(s):
        if s not in index:
            index[s] = len(shared)
            shared.append(s)
        return index[s]
    xmls = []
    for name, rows in sheets:
        b = ['<?xml version="1.0" encoding="UTF-8" standalone="yes"?>'
             '<worksheet xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main"><sheetData>']
        for i, row in enumerate(rows):
            if not row and sparse:
                continue
            b.append('<row r="%d">' % (i + 1))
            for j, v in enumerate(row):
                if v == "" and sparse:
                    continue
                ref = "%s%d" % (col_name(j), i + 1)
                if inline:
                    b.append('<c r="%s" t="inlineStr"><is><t xml:space="preserve">%s</t></is></c>' % (ref, escape(v)))
                else:
                    b.append('<c r="%s" t="s"><v>%d</v></c>' % (ref, sst(v)))
            b.append("</row>")
        b.append("</sheetData></worksheet>")
        xmls.append("".join(b))
    out = io.BytesIO()
    with zipfile.ZipFile(out, "w", zipfile.ZIP_DEFLATED) as z:
        ct = ['<?xml version="1.0" encoding="UTF-8"?><Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types">'
              '<Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/>'
              '<Default Extension="xml" ContentType="application/xml"/>'
              '<Override PartName="/xl/workbook.xml" ContentType="application/vnd.openxmlformats-officedocument.spreadsheetml.sheet.main+xml"/>'
              '<Override PartName="/xl/sharedStrings.xml" ContentType="application/vnd.openxmlformats-officedocument.spreadsheetml.sharedStrings+xml"/>']
        wb = ['<?xml version="1.0" encoding="UTF-8"?><workbook xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main" '
              'xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships"><sheets>']
        rl = ['<?xml version="1.0" encoding="UTF-8"?><Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">']
        for i, (name, _) in enumerate(sheets):
            ct.append('<Override PartName="/xl/worksheets/sheet%d.xml" ContentType="application/vnd.openxmlformats-officedocument.spreadsheetml.worksheet+xml"/>' % (i + 1))
            wb.append('<sheet name="%s" sheetId="%d" r:id="rId%d"/>' % (escape(name, {'"': "&quot;"}), i + 1, i + 1))
            rl.append('<Relationship Id="rId%d" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/worksheet" Target="worksheets/sheet%d.xml"/>' % (i + 1, i + 1))
        n = len(sheets)
        rl.append('<Relationship Id="rId%d" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/sharedStrings" Target="sharedStrings.xml"/></Relationships>' % (n + 1))
        z.writestr("[Content_Types].xml", "".join(ct) + "</Types>")
        z.writestr("_rels/.rels", '<?xml version="1.0" encoding="UTF-8"?><Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">'
                   '<Relationship Id="rId1" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument" Target="xl/workbook.xml"/></Relationships>')
        z.writestr("xl/workbook.xml", "".join(wb) + "</sheets></workbook>")
        z.writestr("xl/_rels/workbook.xml.rels", "".join(rl))
        z.writestr("xl/sharedStrings.xml", '<?xml version="1.0" encoding="UTF-8"?><sst xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main" count="%d" uniqueCount="%d">%s</sst>' % (
            len(shared), len(shared), "".join('<si><t xml:space="preserve">%s</t></si>' % escape(s) for s in shared)))
        for i, x in enumerate(xmls):
            z.writestr("xl/worksheets/sheet%d.xml" % (i + 1), x)
    return out.getvalue()


# ------------------------------------------------------------------ octopus workbook format (docs/xlsx.md)
MARK = {"n:1": ">", "1:n": "<", "1:1": "-", "": ""}


def type_text(c):
    if c["size"] == 0:
        return c["type"]
    if c["scale"] == 0:
        return "%s(%d)" % (c["type"], c["size"])
    return "%s(%d,%d)" % (c["type"], c["size"], c["scale"])


def parse_group_sheet(rows, null_header):
    """Workbook rows -> list of table blocks, by the documented layout."""
    head = (rows[0] + [""] * 7)[:7] if rows else []
    want = ["table/ref.", "column", "type", "key", null_header, "attributes", "description"]
    if head != want:
        raise ValueError("header row %r, documented %r" % (head, want))
    tables = []
    for row in rows[1:]:
        a = (list(row) + [""] * 7)[:7]
        if not any(a):
            continue
        if a[2] == "table":
            tables.append({"name": a[0], "attrs": a[5], "desc": a[6], "columns": [], "indices": {}, "rest": [a[1], a[3], a[4]]})
        elif not tables:
            raise ValueError("row before the first table: %r" % (row,))
        elif a[3] == "I":
            tables[-1]["indices"].setdefault(a[0], []).append(a[1])
        else:
            if a[4] not in ("", "O"):
                raise ValueError("null cell %r" % a[4])
            tables[-1]["columns"].append({"ref": a[0], "name": a[1], "type": a[2], "key": a[3],
                                          "null": a[4] == "O", "attrs": a[5], "desc": a[6]})
    return tables


def attrs(text):
    out = {}
    for p in text.split(","):
        p = p.strip()
        if not p:
            continue
        k, _, v = p.partition("=")
        k = k.lower()
        if k in out:
            raise ValueError("attribute %s twice in %r" % (k, text))
        out[k] = v
    return out
