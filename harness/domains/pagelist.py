"""Sheets and pages (C16)."""
import common
from common import esc
from lxml import etree
from domains.table import T, O, X, TNS, ONS, XNS, xml_parts
if common.ezodf:
    import ezodf
    from ezodf.xmlns import CN, wrap
    from ezodf import Table, Paragraph
ALWAYS_FRESH = False
DRAW = "urn:oasis:names:tc:opendocument:xmlns:drawing:1.0"
PRES = "urn:oasis:names:tc:opendocument:xmlns:presentation:1.0"
D = "{%s}" % DRAW
BODY = {"ods": "spreadsheet", "odg": "drawing", "odp": "presentation"}
OTHERS = {"pre": X + "sequence-decls", "pre2": T + "content-validations", "epi": T + "named-expressions",
          "epi2": T + "database-ranges", "set": "{%s}settings" % PRES, "shape": D + "frame"}
PRE, EPI = ("pre", "pre2"), ("epi", "epi2", "set")


def plain(n):
    """the text which is told as n"""
    return n.encode("ascii").decode("unicode_escape")


class Adapter(common.Adapter):
    def __init__(self):
        self.pool = []
        self.body = None

    def fingerprint(self):
        return None if self.body is None else etree.tostring(self.body.xmlnode)

    def tag(self):
        return T + "table" if self.kind == "ods" else D + "page"

    def col(self):
        return self.body.sheets if self.kind == "ods" else self.body.pages

    def new(self, name):
        if self.kind == "ods":
            return Table(name, size=(1, 1))
        return ezodf.DrawingPage(name)

    def mark(self, k):
        """state a page carries; the same through every access"""
        p = self.pool[k]
        if self.kind == "ods":
            return p.nrows()
        return len(p)

    def num(self, wrapper):
        for k, p in enumerate(self.pool):
            if p.xmlnode is wrapper.xmlnode:
                return k + 1
        return 0

    def raw(self, e):
        for k, p in enumerate(self.pool):
            if p.xmlnode is e:
                return k + 1
        return 0

    def project(self):
        if self.body is None:
            return {}
        col, v = self.col(), []
        kids = [(self.raw(e) if e.tag == self.tag() else self.other(e)) for e in self.body.xmlnode]
        pages = [k for k in kids if not isinstance(k, str)]
        others = [k for k in kids if isinstance(k, str) and not k.startswith("decl:")]
        names = [p.name for p in self.pool]

        def check(what, f):
            try:
                ok = f()
            except (LookupError, TypeError, ValueError, AttributeError):
                ok = False
            if not ok:
                v.append(what)
        n = len(pages)
        check("len", lambda: len(col) == n)
        check("iter", lambda: [self.num(p) for p in col] == pages)
        check("index", lambda: [self.num(col[i]) for i in range(n)] == pages)
        check("negative", lambda: [self.num(col[i - n]) for i in range(n)] == pages)
        check("names", lambda: list(col.names()) == [names[k - 1] for k in pages])
        check("byname", lambda: all(self.num(col[names[k - 1]]) == [j for j in pages if names[j - 1] == names[k - 1]][0] for k in pages if names[k - 1] is not None))
        check("indexof", lambda: [col.index(self.pool[k - 1]) for k in pages] == list(range(n)))
        check("state", lambda: all((p.nrows() if self.kind == "ods" else len(p)) == self.mark(self.num(p) - 1) for p in col))
        pos = [i for i, k in enumerate(kids) if not isinstance(k, str)]
        if pos:
            if any(k in PRE or isinstance(k, str) and k.startswith("decl:") for k in kids[pos[0]:]) or any(k in EPI for k in kids[:pos[-1]]):
                v.append("position")
        return {"names": [esc(x) for x in names], "pages": pages, "others": others, "v": v}

    def other(self, e):
        for k, t in OTHERS.items():
            if e.tag == t:
                return k
        return "decl:" + e.tag.split("}")[1]

    def op_open(self, op):
        self.kind = op["kind"]
        body = etree.Element(O + BODY[self.kind], nsmap={"table": TNS, "office": ONS, "text": XNS, "draw": DRAW})

        def page(n):
            e = etree.SubElement(body, self.tag())
            e.set((T if self.kind == "ods" else D) + "name", plain(n))
            if self.kind == "ods":
                etree.SubElement(e, T + "table-column")
                c = etree.SubElement(etree.SubElement(e, T + "table-row"), T + "table-cell")
                if len(n) % 2:       # a table in a cell is not a sheet
                    x = etree.SubElement(c, T + "table")
                    x.set(T + "name", "none")
                    x.set(T + "is-sub-table", "true")
                    etree.SubElement(x, T + "table-column")
                    etree.SubElement(etree.SubElement(x, T + "table-row"), T + "table-cell")
        for k in op["others"]:
            if k in PRE or k == "shape":
                etree.SubElement(body, OTHERS[k])
        for n in op["names"]:
            page(n)
        for k in op["others"]:
            if k in EPI:
                etree.SubElement(body, OTHERS[k])
        if op.get("doc"):
            doc = ezodf.newdoc(self.kind)
            for e in body:
                doc.body.xmlnode.append(e)
            self.doc = doc
            self.setdoc(ezodf.opendoc(doc.tobytes()))
        else:
            self.setbody(wrap(etree.fromstring(etree.tostring(body))))

    def setdoc(self, doc):
        self.doc = doc
        self.setbody(doc.body)

    def setbody(self, body):
        self.body = body
        self.pool = list(self.col())

    def op_create(self, op):
        self.pool.append(self.new(op["n"]))

    def op_append(self, op):
        p = self.pool[op["x"] - 1]
        if op["x"] % 2:
            self.col().append(p)
        else:
            c = self.col()
            c += p

    def op_insert(self, op):
        self.col().insert(op["i"], self.pool[op["x"] - 1])

    def key(self, op):
        k = op["key"]
        return k["i"] if k["by"] == "i" else plain(k["n"]) if k["by"] == "n" else (1.5 if op["a"] == "get" else None)

    def op_set(self, op):
        self.col()[self.key(op)] = self.pool[op["x"] - 1]

    def op_delete(self, op):
        del self.col()[self.key(op)]

    def op_get(self, op):
        return "ok", [self.num(self.col()[self.key(op)])]

    def op_index(self, op):
        return "ok", [self.col().index(self.pool[op["x"] - 1])]

    def op_rename(self, op):
        self.pool[op["x"] - 1].name = op.get("raw", op["n"])

    def invalid(self, op):
        return Paragraph("p") if len(self.pool) % 2 else (ezodf.DrawingPage("p") if self.kind == "ods" else Table("p"))

    def op_append_invalid(self, op):
        self.col().append(self.invalid(op))

    def op_insert_invalid(self, op):
        self.col().insert(0 if len(self.pool) % 3 else len(self.col()), self.invalid(op))

    def op_set_invalid(self, op):
        if len(self.col()) == 0:
            raise IndexError()
        self.col()[0] = self.invalid(op)

    def op_edit(self, op):
        col = self.col()
        p = col[col.index(self.pool[op["x"] - 1])]
        if self.kind == "ods":
            p.append_rows(1)
        else:
            p.append(Paragraph("x"))

    def op_reload(self, op):
        n = len(self.pool)
        order = [self.num(p) for p in self.col()]
        old = list(self.pool)
        if hasattr(self, "doc"):
            doc = ezodf.opendoc(self.doc.tobytes())
            self.doc, self.body = doc, doc.body
        else:
            self.body = wrap(etree.fromstring(etree.tostring(self.body.xmlnode)))
        self.pool = old
        for k, p in zip(order, self.col()):
            self.pool[k - 1] = p


class Driver(object):
    NAMES = ["A", "B", "C", "Sheet 1", "a<&>", "0", "T" * 40]
    ODD = [" A", "B ", "Sheet  1", "sheet 1", "a", "\\xe4", "a\\u0308"]      # names which are not those

    def __init__(self, rng, n, par):
        self.rng = rng

    def key(self, n):
        r = self.rng
        x = r.random()
        if x < 0.5:
            return {"by": "i", "i": r.randint(-n - 1, n + 1)}
        if x < 0.95:
            return {"by": "n", "n": r.choice(self.NAMES + self.ODD + ["none"])}
        return {"by": "bad"}

    def next(self, s, last):
        r = self.rng
        if last is None:
            kind = r.choice(["ods", "odg", "odp"])
            others = [k for k in ["pre", "pre2"] if kind == "ods" and r.random() < 0.5 or r.random() < 0.2 and k == "pre"]
            others += [k for k in ["set", "epi", "epi2"] if r.random() < 0.4 and (k != "set" or kind == "odp")]
            names = [r.choice(self.NAMES + self.ODD) for _ in range(r.randint(0, 5))]
            self.kind = kind
            return {"a": "open", "kind": kind, "others": others, "names": names, "doc": r.random() < 0.2}
        if "pages" not in s:
            return None
        n, m = len(s["pages"]), len(s["names"])
        a = r.choice(["create"] * 3 + ["append"] * 3 + ["insert"] * 4 + ["set"] * 3 + ["delete"] * 3 + ["get"] * 2 +
                     ["index", "rename", "rename", "append_invalid", "insert_invalid", "set_invalid", "edit", "reload"])
        if a == "create" or m == 0:
            return {"a": "create", "n": r.choice(self.NAMES) if r.random() < 0.95 else ""} if m < 14 else {"a": "reload"}
        op = {"a": a}
        if a in ("append", "insert", "set", "index", "rename"):
            op["x"] = r.randint(1, m)
        if a == "insert":
            op["i"] = r.randint(-n - 2, n + 2)
        if a in ("set", "delete", "get"):
            op["key"] = self.key(n)
        if a == "rename":
            op["n"] = r.choice(self.NAMES + [""])
            if self.kind == "ods" and r.random() < 0.3:
                op["n"], op["raw"] = r.choice([("a b", "a\tb"), ("It s", "It's"), ("x  y", " x\r\"y "), ("q", "'q'")])
        if a == "edit":
            if not n:
                return {"a": "reload"}
            op["x"] = r.choice(s["pages"])
        return op
