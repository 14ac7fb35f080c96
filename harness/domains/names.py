"""Qualified names and wrapper classes (C30)."""
import itertools
import common
from lxml import etree
if common.ezodf:
    import ezodf
    import ezodf.document, ezodf.styles, ezodf.content, ezodf.manifest
    from ezodf import xmlns
    from ezodf.base import GenericWrapper
ALWAYS_FRESH = False
COUNTER = itertools.count(1)
ODFNS = "urn:oasis:names:tc:opendocument:xmlns:"


class Adapter(common.Adapter):
    def __init__(self):
        self.reg, self.pre, self.cls, self.known, self.asked = None, [], {}, [], 0

    def name(self, p):
        return p + self.suffix

    def project(self):
        if self.reg is None:
            return {}
        pre = []
        for p in self.pre:
            c = self.cn(self.name(p) + ":probe")
            pre.append([p, c[1:-len("}probe")] if c.startswith("{") and c.endswith("}probe") else "?" + c])
        return {"pre": pre, "cls": [[t, self.number(t)] for t in self.known]}

    def op_setup(self, op):
        # "own" name spaces are a fresh set of prefixes, too: the table of the library is the only public one
        self.suffix = "n%d" % next(COUNTER)
        self.tagns = "urn:test:%d" % next(COUNTER)
        self.reg, self.cn = xmlns.XML, xmlns.CN

    def op_register(self, op):
        self.reg.register_namespace(self.name(op["p"]), op["u"])
        if op["p"] not in self.pre:
            self.pre.append(op["p"])

    def op_cn(self, op):
        f, p, l = op["form"], op["p"], op["l"]
        bare = [l, l + "}" + l, " {" + p + "}" + l, "}" + l][self.asked % 4]
        self.asked += 1
        t = {"prefix": self.name(p) + ":" + l, "clark": "{%s}%s" % (p, l), "bare": bare, "two": self.name(p) + ":" + l + ":" + l, "empty": ""}[f]
        return "ok", self.cn(t)

    def op_odf(self, op):
        return "ok", xmlns.CN(op["p"] + ":" + op["l"])

    def tag(self, t):
        return "{%s}%s" % (self.tagns, t)

    def klass(self, t, k):
        if (t, k) not in self.cls:
            # the second one extends the first one elsewhere, the third one has the first one's name
            base = self.klass(t, 1) if k == 2 else GenericWrapper
            d = {"TAG": self.tag(t), "number": k, "__module__": "elsewhere" if k == 2 else __name__}
            self.cls[(t, k)] = type("K%d" % (1 if k == 3 else k), (base,), d)
        return self.cls[(t, k)]

    def op_regclass(self, op):
        c = self.klass(op["t"], op["k"])
        if xmlns.register_class(c) is not c:
            return "ok", "not passed through"
        if op["t"] not in self.known:
            self.known.append(op["t"])
        if c().xmlnode.tag != self.tag(op["t"]):
            return "ok", "wrong tag"

    def number(self, t):
        e = etree.Element(self.tag(t), a="1")
        w = xmlns.wrap(e)
        if w.xmlnode is not e or e.get("a") != "1":
            return -1
        if type(w) is GenericWrapper:
            return 0
        return w.number if (t, w.number) in self.cls and type(w) is self.cls[(t, w.number)] else -2

    def op_wrap(self, op):
        return "ok", self.number(op["t"])

    def op_foreign(self, op):
        e = etree.Element("{urn:x-somebody}" + op["t"].split(":")[1])
        w = xmlns.wrap(e)
        return "ok", type(w).__name__ if w.xmlnode is e else "other node"

    def op_kind(self, op):
        p, l = op["t"].split(":")
        e = etree.fromstring('<r xmlns:%s="%s%s:1.0"><%s/></r>' % (p, ODFNS, {"draw": "drawing"}.get(p, p), op["t"]))[0]
        w = xmlns.wrap(e)
        if w.xmlnode is not e:
            return "ok", "other node"
        k = type(w).__name__
        if op["own"]:
            try:
                new = type(w)()         # an element of one's own
            except Exception:
                return "ok", k          # needs arguments
            if new.xmlnode.tag != e.tag or type(xmlns.wrap(new.xmlnode)).__name__ != k:
                return "ok", k + " makes " + str(new.xmlnode.tag)
        if hasattr(w, "kind") and w.kind != k and not (k == "CoveredCell" and w.kind == "Cell"):
            return "ok", "kind " + str(w.kind)
        return "ok", k


class Driver(object):
    def __init__(self, rng, n, par):
        self.rng = rng

    def next(self, s, last):
        r = self.rng
        if last is None:
            return {"a": "setup"}
        if "pre" not in s:
            return None
        a = r.choice(["register"] * 3 + ["odf"]  + ["cn"] * 5 + ["regclass"] * 2 + ["wrap"] * 2)
        if a == "register":
            return {"a": a, "p": r.choice(["pa", "pb", "pc", "a-b"]), "u": r.choice(["urn:1", "urn:2", "http://x/y#"])}
        if a == "odf":
            return {"a": a, "p": r.choice(["office", "text", "table", "draw", "style", "dc", "xlink", "manifest"]), "l": r.choice(["x", "y"])}
        if a == "cn":
            return {"a": a, "form": r.choice(["prefix"] * 5 + ["clark", "bare", "two", "empty"]), "p": r.choice(["pa", "pb", "pc", "pd", "a-b"]), "l": r.choice(["x", "y", "long-name"])}
        if a == "regclass":
            return {"a": a, "t": r.choice(["t1", "t2", "t3"]), "k": r.choice([1, 2, 3])}
        return {"a": a, "t": r.choice(["t1", "t2", "t3", "t4"])}
