"""Variables and user fields (C22)."""
import codecs
import common
from common import esc
from lxml import etree
from domains.table import T, O, X, TNS, ONS, XNS
if common.ezodf:
    import ezodf
    from ezodf.xmlns import CN, wrap
ALWAYS_FRESH = False
OFFICE = {"odt": "text", "ods": "spreadsheet", "odp": "presentation"}
VALUE = {"string": "string-value", "float": "value", "boolean": "boolean-value"}
OWN = "{urn:x:own}format"
DECL = {"var": ("variable-decls", "variable-decl"), "fld": ("user-field-decls", "user-field-decl")}
INST = {"var": ["variable-set", "variable-get", "variable-input"], "fld": ["user-field-get", "user-field-set", "user-field-input"]}


def shown(t, v):
    if v is None:
        v = ""
    if isinstance(v, bool):
        return "b:%s" % v
    if isinstance(v, float):
        return "f:%r" % v
    if isinstance(v, str):
        return "s:" + esc(v)
    return "?:%r" % (v,)


def raw(x):
    if x[0] == "s":
        return codecs.decode(x[2:], "unicode_escape")
    return x[2:] == "True" if x[0] == "b" else float(x[2:])


class Adapter(common.Adapter):
    def __init__(self):
        self.body, self.doc = None, None

    def fingerprint(self):
        return None if self.body is None else etree.tostring(self.body.xmlnode)

    def col(self, k):
        return self.body.variables if k == "var" else self.body.userfields

    def project(self):
        if self.body is None:
            return {}
        decl, inst, v = [], [], []
        for k in ("var", "fld"):
            for d in self.col(k):
                if not isinstance(d.xmlnode.tag, str):
                    continue
                decl.append([k, esc(d.name), d.type, shown(d.type, d.value)])
                again = self.col(k)[d.name]
                if again.type != d.type or again.value != d.value:
                    v.append("access by name")
                for i in d.instances:
                    if i.name != d.name:
                        v.append("instances")
        tags = {X + t: k for k, ts in INST.items() for t in ts}
        for e in self.body.get_xmlroot().iter():
            if e.tag in tags:
                w = wrap(e)
                x = shown(w.type, w.value)
                inst.append([tags[e.tag], esc(w.name), w.type, x])
                if not self.displays(e, x):
                    v.append("displayed text")
                if any(e.get(O + a) is not None and t != w.type for t, a in VALUE.items()):
                    v.append("stale value")
                if e.get(X + "formula") not in (None, "ooow:" + x):
                    v.append("stale formula")
        return {"decl": decl, "inst": inst, "v": v}

    @staticmethod
    def displays(e, x):
        """the text shows the value x, or is what the document had for it"""
        t = e.text or ""
        if e.get(OWN) == x + "|" + t:
            return True
        try:
            return {"s": t == raw(x) if x[0] == "s" else False, "b": t in ("true", "false") and (t == "true") == (x == "b:True"),
                    "f": x[0] == "f" and float(t) == float(x[2:])}.get(x[0], False)
        except ValueError:
            return False

    def occurrence(self, e, i):
        k, n, t, x = e
        node = etree.Element(X + INST[k][i % 3])
        node.set(X + "name", codecs.decode(n, "unicode_escape"))
        if t != "string" or i % 2:
            node.set(O + "value-type", t)
        x = raw(x)
        node.text = ("true" if x else "false") if isinstance(x, bool) else str(x)
        if i % 3 != 1 and k == "var" and (i + len(n) + len(e[3])) % 2:
            # with its value in an attribute, displayed in some other format
            node.set(O + "value-type", t)
            node.set(O + VALUE[t], node.text)
            if len(e[3]) % 2:
                node.set(X + "formula", "ooow:" + e[3])
            node.text = {"string": "<%s>", "float": "EUR %s,-", "boolean": "%s!"}[t] % node.text
            node.set(OWN, e[3] + "|" + node.text)
        return node

    def place(self, node, i):
        """somewhere in the document: paragraph, span, table cell, list, section"""
        p = etree.Element(X + "p")
        p.text = "see "
        if i % 5 == 1:
            etree.SubElement(p, X + "span").append(node)
        else:
            p.append(node)
        node.tail = " tail"
        if i % 5 == 2:
            t = etree.Element(T + "table")
            t.set(T + "name", "t%d" % i)
            etree.SubElement(t, T + "table-column")
            etree.SubElement(etree.SubElement(t, T + "table-row"), T + "table-cell").append(p)
            return t
        if i % 5 == 3:
            l = etree.Element(X + "list")
            etree.SubElement(l, X + "list-item").append(p)
            return l
        if i % 5 == 4:
            s = etree.Element(X + "section")
            s.append(p)
            return s
        return p

    def op_open(self, op):
        b = etree.Element(O + OFFICE[op["kind"]], nsmap={"table": TNS, "office": ONS, "text": XNS})
        for k in ("var", "fld"):
            ds = [d for d in op["decl"] if d[0] == k]
            if ds:
                c = etree.SubElement(b, X + DECL[k][0])
                if len(ds) % 2:
                    c.append(etree.Comment(" not a declaration "))
                for _, n, t, x in ds:
                    d = etree.SubElement(c, X + DECL[k][1])
                    d.set(X + "name", codecs.decode(n, "unicode_escape"))
                    d.set(O + "value-type", t)
                    x = raw(x)
                    if k == "fld":
                        if t == "boolean":
                            d.set(O + "boolean-value", "true" if x else "false")
                        elif t == "float":
                            d.set(O + "value", str(x))
                        else:
                            d.set(O + "string-value", x)
        # the first ones in the page headers of a flat document, the others in the body
        headers = etree.Element("{%s}master-styles" % ONS)
        for i, e in enumerate(op["inst"]):
            (headers if i < op.get("heads", 0) else b).append(self.place(self.occurrence(e, i), i + op.get("off", 0)))
        if op.get("doc"):
            doc = ezodf.newdoc(op["kind"])
            for e in list(doc.body.xmlnode):
                doc.body.xmlnode.remove(e)
            for e in list(b):
                doc.body.xmlnode.append(e)
            self.doc = ezodf.opendoc(doc.tobytes())
            self.body = self.doc.body
        else:
            root = etree.Element(O + ("document" if len(headers) else "document-content"), nsmap={"office": ONS})
            if len(headers):
                root.append(headers)
            etree.SubElement(root, O + "body").append(b)
            self.body = wrap(b)

    def op_assign(self, op):
        x = raw(op["x"])
        if op.get("int"):
            x = int(x)
        n = codecs.decode(op["n"], "unicode_escape")
        if len(op["x"]) % 2 and n in self.col(op["k"]):
            self.col(op["k"])[n].value = x
        else:
            self.col(op["k"])[n] = x

    def op_get(self, op):
        w = self.col(op["k"])[codecs.decode(op["n"], "unicode_escape")]
        return "ok", [w.type, shown(w.type, w.value), len(list(w.instances))]

    def op_has(self, op):
        return "ok", [codecs.decode(op["n"], "unicode_escape") in self.col(op["k"])]

    def op_occur(self, op):
        node = self.occurrence([op["k"], op["n"], op["t"], op["x"]], op["i"])
        self.body.xmlnode.append(self.place(node, op["i"] + 1))

    def op_reload(self, op):
        if self.doc is not None:
            self.doc = ezodf.opendoc(self.doc.tobytes())
            self.body = self.doc.body
        else:
            root = etree.fromstring(etree.tostring(self.body.xmlnode.getparent().getparent()))
            self.body = wrap(root[-1][0])


class Driver(object):
    NAMES = ["x", "y", "X", "a b", "\\xe9", "it's", 'q"q', "<n>", "1", "xx"]
    NEAR = ["x", "x ", " x", "X", "xx", "x  ", "x-", "x.x", "x x", "_x"]

    def __init__(self, rng, n, par):
        self.rng = rng

    def value(self):
        r = self.rng
        k = r.random()
        if k < 0.35:
            return "string", "s:" + r.choice(["", "a", "true", "false", "5", "0", " x  y ", "\\xe9<&>", "\\n", "None"])
        if k < 0.75:
            x = r.choice([0, 1, -1, 5, 10**15, 0.0, 2.5, -0.1, 1e300, 1e-9, r.randint(-999, 999), r.random()])
            return "float", "f:%r" % float(x)
        return "boolean", "b:%s" % r.choice([True, False])

    def next(self, s, last):
        r = self.rng
        if last is None:
            decl, inst = [], []
            self.names = self.NEAR if r.random() < 0.3 else self.NAMES
            for k in ("var", "fld"):
                for n in r.sample(self.names, r.randint(0, 4)):
                    t, x = self.value()
                    decl.append([k, n, t, x])
                    inst += [[k, n, t, x]] * (r.randint(1, 3) if k == "var" else r.randint(0, 3))
            for _ in range(r.randint(0, 2)):
                t, x = self.value()
                k, n = r.choice(["var", "fld"]), r.choice(self.names)
                if not any(d[0] == k and d[1] == n for d in decl):
                    inst.append([k, n, t, x])
            r.shuffle(inst)
            op = {"a": "open", "kind": r.choice(["odt", "odt", "ods", "odp"]), "decl": decl, "inst": inst, "doc": r.random() < 0.3, "off": r.randint(0, 4)}
            if not op["doc"] and r.random() < 0.4:
                op["heads"] = r.randint(1, 3)
            return op
        if "decl" not in s:
            return None
        a = r.choice(["assign"] * 6 + ["get", "has", "occur", "reload", "reload"])
        op = {"a": a}
        if a != "reload":
            d = r.choice(s["decl"]) if s["decl"] and r.random() < 0.85 else [r.choice(["var", "fld"]), r.choice(self.names)]
            op["k"], op["n"] = d[0], d[1]
        if a == "occur":
            if len(s["inst"]) > 12:
                return {"a": "reload"}
            op["t"], op["x"] = self.value()
            # a variable reads its value from its first occurrence: later ones do not change it
            op["i"] = r.randint(0, 9)
            if not any(e[0] == op["k"] and e[1] == op["n"] for e in s["inst"]):
                return {"a": "reload"}
        if a == "assign":
            op["t"], op["x"] = self.value()
            if op["t"] == "float" and float(op["x"][2:]) == int(float(op["x"][2:])) and abs(float(op["x"][2:])) < 1e15 and r.random() < 0.5:
                op["int"] = True
        return op
