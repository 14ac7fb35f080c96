"""Attributes of wrapper objects, lists (C27)."""
import codecs
import common
from common import esc
from lxml import etree
if common.ezodf:
    import ezodf
    from ezodf import (Span, Paragraph, Heading, NumberedParagraph, Hyperlink, List, ListItem, ListHeader, Section, Table, Cell, DrawingPage, ezlist)
    from ezodf.table import TableRow, TableColumn
    from ezodf.xmlns import wrap
ALWAYS_FRESH = False
U = {"text": "urn:oasis:names:tc:opendocument:xmlns:text:1.0", "table": "urn:oasis:names:tc:opendocument:xmlns:table:1.0",
     "draw": "urn:oasis:names:tc:opendocument:xmlns:drawing:1.0", "xlink": "http://www.w3.org/1999/xlink",
     "office": "urn:oasis:names:tc:opendocument:xmlns:office:1.0", "x": "urn:x"}


def shape(e):
    return [e.tag, sorted(e.attrib.items()), e.text or "", [shape(x) for x in e]]


def Q(s):
    p, n = s.split(":")
    return "{%s}%s" % (U[p], n)


ATTR = {
    "Span": {"": "text:span", "style_name": "text:style-name"},
    "Paragraph": {"": "text:p", "style_name": "text:style-name", "cond_style_name": "text:cond-style-name", "ID": "text:id"},
    "Heading": {"": "text:h", "style_name": "text:style-name", "outline_level": "text:outline-level", "restart_numbering": "text:restart-numbering",
                "suppress_numbering": "text:is-list-header", "start_value": "text:start-value", "formatted_number": None},
    "NumberedParagraph": {"": "text:numbered-paragraph", "level": "text:level", "start_value": "text:start-value", "formatted_number": None},
    "Hyperlink": {"": "text:a", "style_name": "text:style-name", "name": "office:name", "href": "xlink:href", "target_frame": "office:target-frame-name", "show": "xlink:show"},
    "List": {"": "text:list", "style_name": "text:style-name", "continue_numbering": "text:continue-numbering"},
    "ListItem": {"": "text:list-item", "start_value": "text:start-value", "formatted_number": None},
    "Section": {"": "text:section", "style_name": "text:style-name", "name": "text:name", "protected": "text:protected"},
    "Table": {"": "table:table", "name": "table:name", "style_name": "table:style-name", "print_": "table:print", "protected": "table:protected"},
    "TableRow": {"": "table:table-row", "style_name": "table:style-name", "default_cell_style_name": "table:default-cell-style-name", "visibility": "table:visibility"},
    "TableColumn": {"": "table:table-column", "style_name": "table:style-name", "default_cell_style_name": "table:default-cell-style-name", "visibility": "table:visibility"},
    "Cell": {"": "table:table-cell", "style_name": "table:style-name", "formula": "table:formula", "content_validation_name": "table:content-validation-name", "protected": "table:protect"},
    "DrawingPage": {"": "draw:page", "name": "draw:name"},
}
NUM = Q("text:number")


def raw(s):
    return codecs.decode(s, "unicode_escape")


def value(v):
    t = v["t"]
    if t in ("str", "numstr"):
        return "".join(raw(c) for c in v["cs"]) if v["cs"] else raw(v["s"])
    return {"int": lambda: v["i"], "float": lambda: float(v["s"]), "bool": lambda: v["b"], "none": lambda: None, "list": lambda: []}[t]()


def answer(x):
    if x is None:
        return "none"
    if isinstance(x, bool):
        return "b:true" if x else "b:false"
    if isinstance(x, int):
        return "i:%d" % x
    return "s:" + esc(x)


def first_p(e):
    p = e.find(Q("text:p"))
    return esc("".join(p.itertext())) if p is not None else ""


def kid(e):
    if e.tag is etree.Comment:
        return ["c", esc(e.text)]
    if e.tag == Q("text:list-header"):
        return ["h", first_p(e)]
    if e.tag == Q("text:list-item"):
        return ["i", first_p(e)]
    return [{"p": "p", "h": "h"}.get(etree.QName(e).localname, "?" + etree.QName(e).localname), esc("".join(e.itertext()))]


class Adapter(common.Adapter):
    def __init__(self):
        self.o = None
        self.extra = None
        self.locked = False     # protected through the API

    def fingerprint(self):
        return None if self.o is None else etree.tostring(self.o.xmlnode)

    def getters(self, o):
        out = {}
        for n, a in ATTR[self.k].items():
            if n == "":
                continue
            if n == "show":
                out[n] = answer(o.xmlnode.get(Q(a)))
            else:
                out[n] = answer(getattr(o, n))
                if n == "formatted_number" and len(o.xmlnode.findall(NUM)) > 1:
                    out[n] = "!several"
        return out

    def project(self):
        o = self.o
        if o is None:
            return {}
        at = self.getters(o)
        if self.k != "Table":
            again = self.getters(wrap(o.xmlnode))
            for n in at:
                if again[n] != at[n]:
                    at[n] += "!" + again[n]
        n = o.xmlnode
        if type(o).__name__ != self.k:
            at["kind"] = type(o).__name__
        # attributes of the element that belong to none of the above
        known = set(Q(a) for a in ATTR[self.k].values() if a) | {Q("text:protection-key"), Q("table:protection-key")}
        extra = sorted((k, v) for k, v in n.attrib.items() if k not in known)
        if self.extra is None:
            self.extra = extra
        kids = []
        if self.k in ("List", "NumberedParagraph"):
            kids = [kid(e) for e in n if e.tag != NUM]
        else:
            sig = [etree.tostring(e, with_tail=False) for e in n if e.tag != NUM]
            if self.sig is None:
                self.sig = sig
            if sig != self.sig:
                kids = [["!changed", ""]]
        text = esc("".join(t for t in self.texts(n)))
        own = text if self.k in ("Span", "Paragraph", "Heading", "Hyperlink") else None
        if self.k == "ListItem":
            own = esc("\n".join("".join(e.itertext()) for e in n if e.tag != NUM))
        if own is not None and (esc(o.plaintext()) != own or o.textlen != len(o.plaintext())):
            text += "!shown as " + esc(o.plaintext())
        if any(e.tag == NUM for e in n) and n[0].tag != NUM:
            kids = [["!number behind content", ""]] + kids
        keyed = True
        if self.k in ("Section", "Table") and o.protected is True and self.locked:
            key = n.get(Q("text:protection-key" if self.k == "Section" else "table:protection-key"))
            keyed = bool(key) and len(key.strip()) >= 1
        out = {"k": self.k, "at": at, "kids": kids, "text": text, "keyed": keyed}
        if extra != self.extra:
            out["k"] += " foreign attributes changed"
        return out

    def texts(self, n):
        if self.k in ("List", "NumberedParagraph", "Table", "TableRow"):
            return
        yield n.text or ""
        for e in n:
            if e.tag != NUM:
                yield "".join(e.itertext())
            yield e.tail or ""

    def start(self, k, o):
        self.k, self.o, self.sig, self.extra = k, o, None, None
        self.project()

    def op_new(self, op):
        k, t = op["k"], raw(op["text"])
        args = dict((n, value(v)) for n, v in op["set"])
        cls = globals()[k]
        if k in ("Span", "Paragraph", "Heading", "Hyperlink", "ListItem"):
            if t:
                args["text"] = t
        if k == "NumberedParagraph" and op["kids"]:
            args["paragraph"] = Heading(raw(op["kids"][0][1])) if op["kids"][0][0] == "h" else Paragraph(raw(op["kids"][0][1]))
        late = [n for n in args if n not in ("text", "style_name", "name", "href", "outline_level", "paragraph")
                or (n == "style_name" and k in ("ListItem", "Table", "TableRow", "TableColumn")) or (n == "name" and k == "Hyperlink")]
        if k == "Table" or k == "TableRow":
            early = {"size": (2, 2)} if k == "Table" else {"ncols": 2}
        else:
            early = {}
        if k == "TableColumn" or k == "NumberedParagraph" or k == "ListItem":
            late = [n for n in args if n not in ("text", "paragraph")]
        o = cls(**dict(early, **dict((n, x) for n, x in args.items() if n not in late)))
        for n in late:
            setattr(o, n, args[n])
            self.locked |= n == "protected"
        self.start(k, o)

    def op_load(self, op):
        k = op["k"]
        e = etree.Element(Q(ATTR[k][""]), nsmap=U)
        e.set(Q("x:keep"), "1")
        e.set(Q("text:keep"), "2")
        for n, v in op["set"]:
            if ATTR[k][n] is None:
                etree.SubElement(e, NUM).text = raw(v["s"])
            else:
                e.set(Q(ATTR[k][n]), raw(v["s"]))
        for t, x in op["kids"]:
            if t == "c":
                e.append(etree.Comment(raw(x)))
            elif k == "List":
                c = etree.SubElement(e, Q("text:list-header" if t == "h" else "text:list-item"))
                etree.SubElement(c, Q("text:p")).text = raw(x)
                if op.get("nest"):
                    l = etree.SubElement(c, Q("text:list"))
                    for tag in ("text:list-header", "text:list-item", "text:list-item"):
                        etree.SubElement(etree.SubElement(l, Q(tag)), Q("text:p")).text = "nested"
            else:
                etree.SubElement(e, Q("text:" + t)).text = raw(x)
        if op["text"]:
            if len(e):
                e[-1].tail = raw(op["text"])
            else:
                e.text = raw(op["text"])
        if k == "Table":
            for _ in range(2):
                r = etree.SubElement(e, Q("table:table-row"))
                etree.SubElement(r, Q("table:table-cell"))
        self.start(k, wrap(e))

    def op_set(self, op):
        setattr(self.o, op["n"], value(op["v"]))
        self.locked |= op["n"] == "protected"

    def op_del(self, op):
        delattr(self.o, op["n"])

    def op_reload(self, op):
        self.o = wrap(etree.fromstring(etree.tostring(self.o.xmlnode, encoding="UTF-8")))
        self.sig = None if self.sig is None else [etree.tostring(e, with_tail=False) for e in self.o.xmlnode if e.tag != NUM]

    def op_content(self, op):
        return "ok", kid(self.o.content.xmlnode)

    def op_ezlist(self, op):
        args = dict((n, value(v)) for n, v in op["set"] if n == "style_name")
        items = (raw(x) for x in op["items"])
        o = ezlist(items, header=raw(op["h"]), **args) if op["h"] else ezlist(items, **args)
        self.start("List", o)

    def op_header(self, op):
        h = ListHeader(raw(op["h"]))
        h.xmlnode.set(Q("x:keep"), "3")
        etree.SubElement(h.xmlnode, Q("x:more")).text = "m"
        before = shape(h.xmlnode)
        self.o.header = h
        now = shape(self.o.header.xmlnode)
        self.o.header.xmlnode.remove(self.o.header.xmlnode[-1])
        if now != before:
            return "ok", ["the header changed"]

    def op_header_same(self, op):
        if self.o.header is None:
            raise ValueError()
        self.o.header = self.o.header

    def op_header_bad(self, op):
        self.o.header = ListItem("bad") if self.o.header is None else Paragraph("bad")

    def op_steal(self, op):
        other = ezlist(["u", "v"], header=raw(op["h"]))
        self.o.header = other.header
        if [kid(e) for e in other.xmlnode] not in ([["i", "u"], ["i", "v"]], [["h", op["h"]], ["i", "u"], ["i", "v"]]):
            return "ok", ["other list changed"]

    def op_get_header(self, op):
        h = self.o.header
        return "ok", [] if h is None else kid(h.xmlnode)

    def op_items(self, op):
        l = list(self.o.iteritems())
        if any(x.kind != "ListItem" or x.xmlnode.getparent() is not self.o.xmlnode for x in l):
            return "ok", ["stray"]
        return "ok", [kid(x.xmlnode) for x in l]

    def op_append(self, op):
        self.o.append(ListItem(raw(op["t"])))

    def op_insert(self, op):
        self.o.insert(op["p"], ListItem(raw(op["t"])))

    def op_delete(self, op):
        del self.o[op["i"]]


STR = ["x", "", "a b", "\\xe9", "1", "true", "false", "<&>", "Standard", "_blank", "_self", "visible", "filter", "0", "-1"]
TYPES = {"style_name": "string", "cond_style_name": "string", "ID": "string", "outline_level": "level", "level": "level", "restart_numbering": "bool",
         "suppress_numbering": "bool", "continue_numbering": "bool", "print_": "bool", "start_value": "start", "formatted_number": "number",
         "href": "string", "target_frame": "frame", "default_cell_style_name": "string", "visibility": "vis", "formula": "string", "content_validation_name": "string"}


def typ(k, n):
    if n == "name":
        return {"Table": "tname", "DrawingPage": "pname"}.get(k, "string")
    if n == "protected":
        return "bool" if k == "Cell" else "prot"
    return TYPES[n]


class Driver(object):
    def __init__(self, rng, n, par):
        self.rng = rng

    def sv(self, s):
        cs, i = [], 0
        while i < len(s):
            n = 1
            if s[i] == "\\":
                n = {"x": 4, "u": 6, "U": 10}.get(s[i + 1], 2)
            cs.append(s[i:i + n])
            i += n
        t, v = "str", 0
        if s.lstrip("-").isdigit():
            t, v = "numstr", int(s)
        return {"t": t, "s": s, "i": v, "b": s != "", "cs": cs}

    def val(self, ty):
        r = self.rng
        other = lambda: r.choice([{"t": "none", "s": "None", "i": 0, "b": False, "cs": []}, {"t": "list", "s": "[]", "i": 0, "b": False, "cs": []}])
        num = lambda: (lambda i: {"t": "int", "s": str(i), "i": i, "b": i != 0, "cs": []})(r.choice([0, 1, 2, -1, -7, 10, r.randint(-100, 10 ** 6)]))
        flo = lambda: (lambda f: {"t": "float", "s": str(f), "i": int(f), "b": f != 0, "cs": []})(r.choice([0.0, 0.9, 1.5, 2.999, -0.5, -3.7, 1e6]))
        boo = lambda: (lambda b: {"t": "bool", "s": str(b), "i": int(b), "b": b, "cs": []})(r.random() < 0.5)
        st = lambda: self.sv(r.choice(STR))
        if ty == "vis":
            return r.choice([self.sv(r.choice(["visible", "collapse", "filter", "filter", "hidden", "VISIBLE", "", "visible "])), other(), num()])
        if ty in ("level", "start"):
            return r.choice([num, num, num, flo, boo, st, other])()
        if ty == "tname":
            return self.sv("".join(r.choice(["a", "B", " ", "'", '"', "\\t", "\\n", "\\xe9", ".", "1"]) for _ in range(r.randint(0, 6))))
        if ty in ("bool", "prot"):
            return r.choice([boo, boo, num, st, other])()
        if ty == "number":
            return r.choice([num, flo, lambda: self.sv(r.choice([x for x in STR if x]))])()
        if ty in ("frame", "pname"):
            return r.choice([st, st, num, other])() if r.random() < 0.5 else self.sv(r.choice(["_blank", "_self", "_top", "f"]))
        return r.choice([st, st, st, num, other])()

    def good(self, k, names, raw=False):
        """values for attributes that are accepted at creation"""
        r, out = self.rng, []
        for n in names:
            ty = typ(k, n)
            if raw:
                s = {"bool": ["true", "false"], "prot": ["true", "false"], "level": ["1", "3", "0", "-2", "10"], "start": ["1", "5", "12", "0"],
                     "vis": ["visible", "collapse", "filter"]}.get(ty, ["x", "a b", "\\xe9"])
                out.append([n, self.sv(r.choice(s))])
            else:
                v = self.sv(r.choice(["x", "a b", "\\xe9", "Q"]))
                if ty in ("level", "start"):
                    i = r.choice([1, 2, 5, 0, -3])
                    v = {"t": "int", "s": str(i), "i": i, "b": i != 0, "cs": []}
                if ty in ("bool", "prot"):
                    v = {"t": "bool", "s": "True", "i": 1, "b": True, "cs": []}
                if ty == "vis":
                    v = self.sv("filter")
                out.append([n, v])
        return out

    def texts(self):
        return self.rng.choice(["a", "text", "\\xe9", "x y", "1"])

    def next(self, s, last):
        r = self.rng
        if last is None:
            k = self.k = r.choice(list(ATTR) + ["List"] * 4 + ["Heading", "NumberedParagraph"])
            names = [n for n in ATTR[k] if n and n != "show" and r.random() < 0.4]
            text = r.choice(["", self.texts()]) if k in ("Span", "Paragraph", "Heading", "Hyperlink") else ""
            if k == "List" and r.random() < 0.4:
                return {"a": "ezlist", "h": r.choice(["", self.texts()]), "items": [r.choice([self.texts(), self.texts(), ""]) for _ in range(r.randint(0, 4))],
                        "set": self.good(k, [n for n in names if n == "style_name"])}
            if r.random() < 0.5:
                kids = []
                if k == "List":
                    kids = ([["h", self.texts()]] if r.random() < 0.5 else []) + [["i", self.texts()] for _ in range(r.randint(0, 4))]
                    if r.random() < 0.2:
                        kids = [["c", "note"]] + kids
                if k == "NumberedParagraph":
                    kids = [[r.choice("ph"), self.texts()]] if r.random() < 0.7 else []
                return {"a": "load", "k": k, "kids": kids, "text": text, "set": self.good(k, names, True), "nest": r.random() < 0.5}
            kids = [[r.choice("ph"), self.texts()]] if k == "NumberedParagraph" and r.random() < 0.6 else []
            return {"a": "new", "k": k, "kids": kids, "text": text, "set": self.good(k, names)}
        if "at" not in s:
            return None
        k = self.k
        if k == "List" and r.random() < 0.7:
            a = r.choice(["header", "header", "header_same", "header_bad", "get_header", "items", "append", "insert", "delete", "steal"])
            op = {"a": a}
            if a in ("header", "steal"):
                op["h"] = self.texts()
            if a in ("append", "insert"):
                op["t"] = self.texts()
            h = max([i + 1 for i, x in enumerate(s["kids"]) if x[0] == "h"] or [0])
            if a == "insert":
                op["p"] = r.randint(h, len(s["kids"]))
            if a == "delete":
                n = len(s["kids"])
                op["i"] = r.randint(-n - 1, n)
            return op
        if k == "NumberedParagraph" and r.random() < 0.2:
            return {"a": "content"}
        if r.random() < 0.1:
            return {"a": "reload"}
        n = r.choice([x for x in ATTR[k] if x and x != "show"])
        ty = typ(k, n)
        if r.random() < 0.2 and ty in ("string", "bool", "level"):
            return {"a": "del", "n": n}
        return {"a": "set", "n": n, "v": self.val(ty)}
