"""Text elements and white space encoding (C17, C18)."""
import codecs
import common
from common import esc
from lxml import etree
if common.ezodf:
    import ezodf
    from ezodf.xmlns import CN, wrap
    from ezodf import Paragraph, Heading, Span, Hyperlink, ListItem, ListHeader
    from ezodf.text import *
    from ezodf.base import GenericWrapper
    from ezodf.whitespaces import (Tabulator, LineBreak, Spaces, SoftPageBreak, encode_whitespaces, decode_whitespaces)
ALWAYS_FRESH = False
TEXT = "urn:oasis:names:tc:opendocument:xmlns:text:1.0"
X = "{%s}" % TEXT
EMPTY = {X + "tab": "#tab", X + "line-break": "#br", X + "soft-page-break": "#spb", X + "bookmark": "#bm"}
FIELDS = [X + "page-number", X + "sequence", X + "user-field-get", X + "author-name", "{urn:x}thing"]
OPEN = {X + "span": "<Span", X + "a": "<A", X + "p": "<p", X + "h": "<h"}


def un(chars):
    return "".join(codecs.decode(c, "unicode_escape") for c in chars)


def chars(s):
    return [esc(c) for c in s] if isinstance(s, str) else [esc(s)]


def flat(node):
    out = chars(node.text or "")
    for e in node:
        if not isinstance(e.tag, str):
            out.append(("#cm" if e.tag is etree.Comment else "#pi") if e.text == "not text" else "!" + esc(e.text))
        elif e.tag in EMPTY:
            out.append(EMPTY[e.tag])
            out += ["!content"] if len(e) or e.text else []
        elif e.tag == X + "s":
            out.append("#s" + e.get(X + "c", "1"))
        elif e.tag in FIELDS and e.text == "42" and not len(e):
            out.append("#fld")
        elif e.tag in OPEN:
            out += [OPEN[e.tag]] + flat(e) + ["#end"]
        else:
            out.append("!" + esc(str(e.tag)))
        out += chars(e.tail or "")
    return out


def token(x):
    if isinstance(x, str):
        return chars(x)
    n = x.xmlnode
    return ["#s" + n.get(X + "c", "1")] if n.tag == X + "s" else [EMPTY.get(n.tag, "!" + n.tag)]


class Adapter(common.Adapter):
    def __init__(self):
        self.e = None
        self.doc = None
        self.fields = 0

    def fingerprint(self):
        return None if self.e is None else etree.tostring(self.e.xmlnode)

    def project(self):
        if self.e is None:
            return {"kind": "", "flat": [], "plain": [], "len": 0}
        again = etree.fromstring(etree.tostring(self.e.xmlnode, with_tail=False, encoding="UTF-8"))
        return {"kind": self.kind, "flat": flat(again), "plain": chars(self.e.plaintext()), "len": self.e.textlen}

    def new(self, e, t, n):
        t = un(t)
        if e == "Span":
            return Span(t)
        if e == "A":
            return Hyperlink("http://x", t)
        if e == "p":
            return Paragraph(t)
        if e == "h":
            return Heading(t, 2)
        if e == "s":
            return Spaces(n)
        if e == "cm":
            return wrap(etree.Comment("not text"))
        if e == "pi":
            return wrap(etree.PI("pi", "not text"))
        if e == "fld":
            x = etree.Element(FIELDS[self.fields % len(FIELDS)])
            self.fields += 1
            x.text = "42"
            return wrap(x)
        if e == "bm":
            return wrap(etree.Element(X + "bookmark"))
        return {"tab": Tabulator, "br": LineBreak, "spb": SoftPageBreak}[e]()

    def op_create(self, op):
        self.kind, t = op["kind"], un(op["t"])
        if self.kind == "Heading":
            self.e = Heading(t, outline_level=1)
        elif self.kind == "Hyperlink":
            self.e = Hyperlink("http://x", text=t)
        else:
            self.e = {"Paragraph": Paragraph, "Span": Span, "ListItem": ListItem, "ListHeader": ListHeader}[self.kind](t)
        if op.get("doc"):
            self.doc = ezodf.newdoc("odt")
            self.attach()

    def attach(self):
        if self.kind in ("ListItem", "ListHeader"):
            lst = ezodf.List()
            lst.append(self.e)
            self.doc.body.append(lst)
        elif self.kind in ("Span", "Hyperlink"):
            p = Paragraph()
            p.append(self.e)
            self.doc.body.append(p)
        else:
            self.doc.body.append(self.e)

    def at(self, d):
        e = self.e
        for _ in range(d):
            e = e[-1]
        return e

    def op_append_text(self, op):
        self.at(op["d"]).append_text(un(op["t"]))

    def op_append(self, op):
        x, e = self.at(op["d"]), self.new(op["e"], op["t"], op["n"])
        if op["n"] % 2:
            x.append(e)
        else:
            x += e

    def op_insert(self, op):
        self.e.insert(op["i"], self.new(op["e"], op["t"], op["n"]))

    def op_child_text(self, op):
        self.e[op["i"]].append_text(un(op["t"]))

    def op_encode(self, op):
        t = un(op["t"])
        tags = encode_whitespaces(t)
        q = [c for x in tags for c in token(x)]
        return "ok", [q, chars(decode_whitespaces(tags))]

    def op_spaces(self, op):
        s = Spaces(op["n"])
        q = [s.count if s.textlen == s.count == len(s.plaintext()) == len(str(s)) else -1]
        s.count = op["m"]
        return "ok", q + [s.count if s.textlen == s.count == len(s.plaintext()) else -1]

    def op_reload(self, op):
        if self.doc is not None:
            self.doc = ezodf.opendoc(self.doc.tobytes())
            e = self.doc.body[-1]
            self.e = e if self.kind in ("Paragraph", "Heading") else e[0]
        else:
            self.e = wrap(etree.fromstring(etree.tostring(self.e.xmlnode, with_tail=False)))


class Driver(object):
    CH = [" "] * 6 + ["\\t", "\\n"] * 2 + ["a", "b", "<", "&", ">", "\\xe9", "\\u4e2d", "\\U0001f600", "\\xa0", "\\u2028", "\\\\", "'", '"', "#", "\\r"]

    def __init__(self, rng, n, par):
        self.rng = rng

    def text(self):
        r = self.rng
        n = r.choice([0, 1, 2, 3, 4, 6, 9, 14])
        if r.random() < 0.2:
            return [" "] * (n if r.random() < 0.95 else r.choice([255, 256, 257, 300]))
        return [r.choice(self.CH) for _ in range(n)]

    def kids(self, f):
        out, d = [], 0
        for k in f:
            if k in ("<Span", "<A", "<p", "<h"):
                if d == 0:
                    out.append(k)
                d += 1
            elif k == "#end":
                d -= 1
            elif d == 0 and len(k) > 1 and k[0] == "#" and k != "#end":
                out.append(k)
        return out

    def next(self, s, last):
        r = self.rng
        if last is None:
            return {"a": "create", "kind": r.choice(["Paragraph", "Paragraph", "Heading", "Span", "Hyperlink", "ListItem", "ListHeader"]),
                    "t": self.text(), "doc": r.random() < 0.15}
        if "flat" not in s:
            return None
        item = s["kind"] in ("ListItem", "ListHeader")
        f = s["flat"]
        d = 0
        while d < len(f) and f[-1 - d] == "#end":
            d += 1
        d = r.randint(0, d)
        a = r.choice(["append_text"] * 5 + ["append"] * 4 + ["insert", "child_text", "child_text", "encode", "spaces", "reload"])
        if len(f) > 120 and a in ("append_text", "append", "insert", "child_text"):
            a = "reload"
        if a == "append_text":
            if item and d == 0:
                a = "append"
            else:
                return {"a": a, "d": d, "t": self.text()}
        ks = self.kids(f)
        if a in ("insert", "child_text") and not ks:
            a = "append"
        if a in ("append", "insert"):
            if a == "insert":
                d = 0
            e = r.choice(["p", "h", "p", "h", "p", "h", "cm", "pi"]) if item and d == 0 else r.choice(["Span", "Span", "A", "tab", "br", "s", "spb", "bm", "cm", "pi", "fld", "fld"])
            op = {"a": a, "e": e, "n": r.choice([0, 1, 2, 3, 9]) if e == "s" else r.randint(0, 1), "t": self.text() if e in ("p", "h", "Span", "A") else []}
            if a == "append":
                op["d"] = d
            else:
                op["i"] = r.randrange(len(ks))
            return op
        if a == "child_text":
            i = r.randrange(len(ks))
            if ks[i][0] == "#":
                return {"a": "encode", "t": self.text()}
            return {"a": a, "i": i, "t": self.text()}
        if a == "encode":
            return {"a": a, "t": self.text()}
        if a == "spaces":
            return {"a": a, "n": r.randint(0, 6), "m": r.randint(0, 6)}
        return {"a": "reload"}
