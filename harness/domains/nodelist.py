"""Elements as lists of their children (C20)."""
import common
from common import esc
from lxml import etree
if common.ezodf:
    import ezodf
    from ezodf.xmlns import CN, wrap
    from ezodf.text import Paragraph, Heading, Span, Section, List, ListItem, ListHeader, Hyperlink, NumberedParagraph
    from ezodf.cells import Cell
    from ezodf.table import TableRow
    from ezodf.drawingpage import DrawingPage
    from ezodf.variables import SimpleVariables, UserFields, SimpleVariable, SimpleVariableSet
    from ezodf.base import GenericWrapper
ALWAYS_FRESH = False
TEXT = "{urn:oasis:names:tc:opendocument:xmlns:text:1.0}"
TAGS = {"section": TEXT + "section", "p": TEXT + "p", "h": TEXT + "h", "span": TEXT + "span", "list": TEXT + "list",
        "item": TEXT + "list-item", "foreign": "{urn:x}thing", "header": TEXT + "list-header", "link": TEXT + "a",
        "np": TEXT + "numbered-paragraph", "cell": "{urn:oasis:names:tc:opendocument:xmlns:table:1.0}table-cell",
        "covered": "{urn:oasis:names:tc:opendocument:xmlns:table:1.0}covered-table-cell", "comment": "comment",
        "row": "{urn:oasis:names:tc:opendocument:xmlns:table:1.0}table-row", "page": "{urn:oasis:names:tc:opendocument:xmlns:drawing:1.0}page",
        "vars": TEXT + "variable-decls", "fields": TEXT + "user-field-decls", "var": TEXT + "variable-decl", "set": TEXT + "variable-set"}
KIND = {"section": "Section", "p": "Paragraph", "h": "Heading", "span": "Span", "list": "List", "item": "ListItem", "foreign": "GenericWrapper",
        "header": "ListHeader", "link": "Hyperlink", "np": "NumberedParagraph", "cell": "Cell", "covered": "Cell", "comment": "GenericWrapper",
        "row": "TableRow", "page": "DrawingPage", "vars": "SimpleVariables", "fields": "UserFields", "var": "SimpleVariable", "set": "SimpleVariableSet"}


class Adapter(common.Adapter):
    def __init__(self):
        self.pool, self.tags = [], []

    def fingerprint(self):
        return [etree.tostring(w.xmlnode) for w in self.pool]

    def new(self, tag):
        if tag == "comment":
            w = wrap(etree.Comment(""))
        elif tag in ("foreign", "covered"):
            w = wrap(etree.Element(TAGS[tag]))
        else:
            w = {"section": Section, "p": Paragraph, "h": Heading, "span": Span, "list": List, "item": ListItem,
                 "header": ListHeader, "link": Hyperlink, "np": NumberedParagraph, "cell": Cell,
                 "row": lambda: TableRow(0), "page": DrawingPage, "vars": SimpleVariables, "fields": UserFields, "var": SimpleVariable,
                 "set": SimpleVariableSet}[tag]()
        self.pool.append(w)
        self.tags.append(tag)

    def num(self, w):
        if w is None:
            return 0
        for k, p in enumerate(self.pool):
            if p.xmlnode is w.xmlnode:
                return k + 1
        return -1

    def project(self):
        v, kids = [], []
        for k, w in enumerate(self.pool):
            raw = [self.num(type("W", (), {"xmlnode": e})) for e in w.xmlnode]
            kids.append(raw)
            n = len(raw)

            def check(what, f):
                try:
                    ok = f()
                except (LookupError, ValueError, TypeError, AttributeError):
                    ok = False
                if not ok and what not in v:
                    v.append(what)
            check("len", lambda: len(w) == n)
            check("iter", lambda: [self.num(x) for x in w] == raw)
            check("index", lambda: [self.num(w[i]) for i in range(n)] == raw)
            check("negative", lambda: [self.num(w[i - n]) for i in range(n)] == raw)
            check("get_child", lambda: [self.num(w.get_child(i)) for i in range(n)] == raw)
            check("wrapkind", lambda: [x.kind for x in w] == [KIND[self.tags[i - 1]] for i in raw])
            check("indexof", lambda: [w.index(self.pool[i - 1]) for i in raw] == list(range(n)))
            check("second", lambda: [self.num(x) for x in wrap(w.xmlnode)] == raw)
        return {"tag": list(self.tags), "kids": kids, "text": [esc(w.text or "") for w in self.pool], "v": v}

    def op_setup(self, op):
        for t in op["tag"]:
            self.new(t)
        for p, ks in enumerate(op["kids"]):
            for k in ks:
                self.pool[p].append(self.pool[k - 1])

    def op_create(self, op):
        self.new(op["tag"])

    def w(self, k):
        return self.pool[k - 1]

    def op_append(self, op):
        p = self.w(op["p"])
        if (op["p"] + op["x"]) % 2:
            r = p.append(self.w(op["x"]))
            if r is not self.w(op["x"]):
                raise RuntimeError("append does not return the child")
        else:
            p += self.w(op["x"])
            if p is not self.w(op["p"]):
                raise RuntimeError("+= rebinds")

    def op_insert(self, op):
        if self.w(op["p"]).insert(op["i"], self.w(op["x"])) is not self.w(op["x"]):
            raise RuntimeError("insert does not return the child")

    def op_set(self, op):
        if op["x"] % 2:
            self.w(op["p"])[op["i"]] = self.w(op["x"])
        else:
            self.w(op["p"]).set_child(op["i"], self.w(op["x"]))

    def op_delete(self, op):
        if op["i"] % 2:
            del self.w(op["p"])[op["i"]]
        else:
            self.w(op["p"]).del_child(op["i"])

    def op_get(self, op):
        return "ok", [self.num(self.w(op["p"])[op["i"]])]

    def op_index(self, op):
        return "ok", [self.w(op["p"]).index(self.w(op["x"]))]

    def op_insert_before(self, op):
        if self.w(op["p"]).insert_before(self.w(op["t"]), self.w(op["x"])) is not self.w(op["x"]):
            raise RuntimeError("insert_before does not return the child")

    def op_remove(self, op):
        self.w(op["p"]).remove(self.w(op["x"]))

    def op_replace(self, op):
        self.w(op["p"]).replace(self.w(op["t"]), self.w(op["x"]))

    def op_clear(self, op):
        self.w(op["p"]).clear()

    def op_find(self, op):
        return "ok", [self.num(self.w(op["p"]).find(TAGS[op["tag"]]))]

    def op_findall(self, op):
        return "ok", [self.num(x) for x in self.w(op["p"]).findall(TAGS[op["tag"]])]

    def op_root(self, op):
        node = self.w(op["p"]).get_xmlroot()
        return "ok", [self.num(type("W", (), {"xmlnode": node}))]

    def op_mark(self, op):
        self.w(op["p"])[op["i"]].text = op["t"]


class Driver(object):
    def __init__(self, rng, n, par):
        self.rng = rng

    def next(self, s, last):
        r = self.rng
        if last is None:
            n = r.randint(1, 7)
            tags = [r.choice(list(TAGS)) for _ in range(n)]
            kids = [[] for _ in tags]
            for k in range(2, n + 1):
                p = r.randrange(k - 1)
                if r.random() < 0.7 and tags[p] != "comment":
                    kids[p].append(k)
            return {"a": "setup", "tag": tags, "kids": kids}
        if not s.get("tag"):
            return None
        n = len(s["tag"])
        a = r.choice(["append"] * 4 + ["insert"] * 5 + ["set"] * 3 + ["delete"] * 2 + ["insert_before"] * 4 + ["replace"] * 3 +
                     ["remove"] * 2 + ["get", "index", "find", "findall", "root", "mark", "mark", "create", "create"] + ["clear"] * (r.random() < 0.3))
        if a == "create":
            if n < 12:
                return {"a": a, "tag": r.choice(list(TAGS))}
            a = "append"
        p = r.randint(1, n)
        busy = [k + 1 for k in range(n) if s["kids"][k]]
        if busy and r.random() < 0.7:
            p = r.choice(busy)
        if s["tag"][p - 1] == "comment":   # has no children
            return {"a": "create", "tag": r.choice(list(TAGS))}
        ks = s["kids"][p - 1]
        op = {"a": a, "p": p}
        if a in ("append", "insert", "set", "index", "insert_before", "remove", "replace"):
            op["x"] = r.randint(1, n)
            if a in ("index", "remove") and ks and r.random() < 0.7:
                op["x"] = r.choice(ks)
        if a in ("insert", "set", "delete", "get", "mark"):
            op["i"] = r.randint(-len(ks) - 1, len(ks) + 1)
        if a in ("insert_before", "replace"):
            op["t"] = r.choice(ks) if ks and r.random() < 0.8 else r.randint(1, n)
        if a in ("find", "findall"):
            op["tag"] = r.choice([t for t in TAGS if t != "comment"])
        if a == "mark":
            op["t"] = r.choice("uvw")
        return op
