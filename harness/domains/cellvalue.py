"""Typed cell values (C13, C10)."""
import common
from common import esc
from lxml import etree
from domains.table import T, O, X, TNS, ONS, XNS
if common.ezodf:
    from ezodf.xmlns import wrap
    from ezodf import Cell, Paragraph, Heading
    from ezodf.text import Span
ALWAYS_FRESH = False
ATTR = {"float": "value", "percentage": "value", "currency": "value", "date": "date-value", "time": "time-value",
        "boolean": "boolean-value", "string": None}


def unesc(s):
    return s.encode("ascii").decode("unicode_escape")


def show(v):
    if v is None:
        return "none"
    if isinstance(v, bool):
        return "bool:" + ("true" if v else "false")
    if isinstance(v, float):
        return "float:" + repr(v)
    if isinstance(v, str):
        return "str:" + esc(v)
    return "?" + type(v).__name__


class Adapter(common.Adapter):
    def __init__(self):
        self.c = None

    def fingerprint(self):
        return None if self.c is None else etree.tostring(self.c.xmlnode)

    def value(self, v):
        k = v["k"]
        if k == "str":
            return unesc(v["s"])
        if k == "int":
            return int(v["s"])
        if k == "float":
            return float(v["s"])
        if k == "bool":
            return v["s"] == "True"
        if k == "none":
            return None
        if k == "para":
            return Paragraph(unesc(v["t"]))
        if k == "heading":
            return Heading(unesc(v["t"]))
        if k == "obj":
            return Span("s")
        raise common.Unsupported(k)

    def kw(self, op):
        kw = {}
        if op["vt"] != "#none":
            kw["value_type"] = op["vt"]
        if op["cur"] != "#none":
            kw["currency"] = op["cur"]
        return kw

    def op_create(self, op):
        self.c = Cell(self.value(op["v"]), style_name=op["sty"], **self.kw(op))

    def fill(self, p, t):
        last = p
        for i, ch in enumerate(t):
            if ch == " " and i % 2:
                last = etree.SubElement(p, X + "s")
            elif ch in "\t\n":
                last = etree.SubElement(p, X + ("tab" if ch == "\t" else "line-break"))
            elif last is p:
                p.text = (p.text or "") + ch
            else:
                last.tail = (last.tail or "") + ch

    def op_load(self, op):
        e = etree.Element(T + "table-cell", nsmap={"table": TNS, "office": ONS, "text": XNS})
        e.set(T + "style-name", op["sty"])
        e.set(O + "value-type", op["typ"])
        kind, raw = op["val"].split(":", 1)
        if ATTR[op["typ"]]:
            e.set(O + ATTR[op["typ"]], raw)
        if op["cur"]:
            e.set(O + "currency", op["cur"])
        for k, t, y, _ in op["con"]:
            if k == "x":
                q = etree.SubElement(e, O + "annotation")
                etree.SubElement(q, X + "p").text = "a note"
                continue
            p = etree.SubElement(e, X + k)
            if y:
                p.set(X + "style-name", y)
            self.fill(p, unesc(t))
        self.c = wrap(etree.fromstring(etree.tostring(e)))

    def op_set_value(self, op):
        self.c.set_value(self.value(op["v"]), **self.kw(op))

    def op_append_text(self, op):
        if op["y"]:
            self.c.append_text(unesc(op["t"]), style_name=op["y"])
        else:
            self.c.append_text(unesc(op["t"]))

    def op_display_form(self, op):
        self.c.display_form = unesc(op["t"])

    def op_style_name(self, op):
        self.c.style_name = op["t"]

    def op_formula(self, op):
        self.c.formula = op["t"]

    def op_validation(self, op):
        self.c.content_validation_name = op["t"]

    def op_protected(self, op):
        self.c.protected = op["t"] == "true"

    def op_reload(self, op):
        self.c = wrap(etree.fromstring(etree.tostring(self.c.xmlnode)))

    def project(self):
        c = self.c
        if c is None:
            return {}
        typ = c.value_type or ""
        own = {"value-type", "currency" if typ == "currency" else "value-type", ATTR.get(typ) or "value-type"}
        left = sorted(k[len(O):] for k in c.xmlnode.attrib if k.startswith(O) and k[len(O):] not in own)
        txt = c.plaintext()
        if c.display_form != txt:
            left.append("display_form")
        con = []
        for w in c:
            e = w.xmlnode
            if e.tag in (X + "p", X + "h"):
                con.append([e.tag[len(X):], esc(w.plaintext()), w.style_name or "", "".join(x.get(X + "style-name", "") for x in e.iter(X + "span"))])
            else:
                con.append(["x", "office:annotation" if etree.tostring(e, method="text") == b"a note" else "?" + e.tag, "", ""])
        return {"con": con, "typ": typ, "val": show(c.value), "cur": c.currency or "", "txt": esc(txt), "sty": c.style_name or "",
                "frm": c.formula or "", "prot": "true" if c.protected is True else "false" if c.protected is False else "?",
                "cv": c.content_validation_name or "", "left": " ".join(left)}


TEXTS = ["", " ", "  ", "a", "a b", "a  b", "\t", "\n", " x ", "ä€", "𝄞", "<&>\"'", "true", "12.5", "a\n\n b\t\tc", "\\n", "None", "0"]


class Driver(object):
    def __init__(self, rng, n, par):
        self.rng = rng

    def text(self):
        r = self.rng
        if r.random() < 0.5:
            return esc(r.choice(TEXTS))
        return esc("".join(r.choice("ab \t\n  é<&\\") for _ in range(r.randint(0, 12))))

    def val(self):
        r = self.rng
        x = r.random()
        z = {"k": "", "s": "", "n": "", "b": "true", "t": ""}
        if x < 0.4:
            raw = unesc(self.text())
            try:
                n = repr(float(raw))
            except ValueError:
                n = ""
            z.update(k="str", s=esc(raw), n=n, b="true" if raw else "false")
        elif x < 0.55:
            v = r.choice([0, 1, -1, 7, 10 ** 6, -10 ** 20, 2 ** 53 + 1])
            z.update(k="int", s=str(v), n=repr(float(v)), b="true" if v else "false")
        elif x < 0.7:
            v = r.choice([0.0, -0.0, 0.1, 1e-300, 1.7976931348623157e308, 123456.789, 1 / 3.0, float("inf")])
            z.update(k="float", s=repr(v), n=repr(v), b="true" if v else "false")
        elif x < 0.8:
            v = r.random() < 0.5
            z.update(k="bool", s=str(v), b="true" if v else "false")
        elif x < 0.85:
            z.update(k="none", b="false")
        elif x < 0.9:
            z.update(k="obj")
        else:
            z.update(k=r.choice(["para", "heading"]), t=self.text())
        return z

    def call(self):
        r = self.rng
        v = self.val()
        vt = r.choice(["#none"] * 4 + ["float", "percentage", "currency", "date", "time", "boolean", "string", "bogus", "Float"])
        cur = r.choice(["#none"] * 5 + ["EUR", "USD", "Eur", "usd", "US$", " X ", ""])
        t = "currency" if cur != "#none" else vt
        if v["k"] in ("para", "heading"):
            vt, cur = r.choice(["#none", "#none", "string", vt]), "#none"
        elif t in ("float", "percentage", "currency") and (v["k"] == "bool" or v["n"] == "" and v["s"] != ""):
            vt, cur = "#none", "#none"
        elif t == "boolean" and v["k"] == "str" and v["s"]:
            vt = "#none"
        elif t in ("date", "time") and v["k"] != "str":
            vt = "#none"
        if v["k"] == "none" and vt in ("bogus", "Float"):
            vt = "string"
        return v, vt, cur

    def next(self, s, last):
        r = self.rng
        if last is None:
            if r.random() < 0.3:
                x = r.choice([("float", "float:2.0", ""), ("currency", "float:3.5", "USD"), ("currency", "float:3.5", "eur"), ("string", "str:", ""), ("string", "str:", ""), ("percentage", "float:0.0", ""),
                              ("boolean", "bool:true", ""), ("boolean", "bool:false", ""), ("date", "str:2011-01-01", ""), ("time", "str:PT1H", "")])
                con = [["x", "office:annotation", "", ""] if r.random() < 0.2 else [r.choice("ppph"), self.text(), r.choice(["", "", "P1"]), ""] for _ in range(r.choice([0, 1, 1, 2, 3]))]
                return {"a": "load", "typ": x[0], "val": x[1], "cur": x[2], "con": con, "sty": "S"}
            v, vt, cur = self.call()
            return {"a": "create", "v": v, "vt": vt, "cur": cur, "sty": "S"}
        if not s:
            return None
        a = r.choice(["set_value"] * 6 + ["append_text"] * 4 + ["display_form"] * 3 + ["style_name", "formula", "validation", "protected", "reload"])
        if a == "set_value":
            v, vt, cur = self.call()
            return {"a": a, "v": v, "vt": vt, "cur": cur}
        if a == "append_text":
            return {"a": a, "t": self.text(), "y": r.choice(["", "", "Y1", "Y2"])}
        if a == "display_form":
            return {"a": a, "t": self.text()}
        if a == "protected":
            return {"a": a, "t": r.choice(["true", "false"])}
        if a == "reload":
            return {"a": a}
        return {"a": a, "t": "Z%d" % r.randrange(5)}
