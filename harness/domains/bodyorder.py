"""Children of a document body between prelude and epilogue (C19)."""
import common
from lxml import etree
from domains.table import T, O, X, TNS, ONS, XNS
if common.ezodf:
    import ezodf
    from ezodf.xmlns import CN, wrap
    from ezodf import Paragraph, Heading, List, Section, Table
ALWAYS_FRESH = False
BODY = {"odt": "text", "ods": "spreadsheet", "odg": "drawing", "odp": "presentation"}
DRAW = "{urn:oasis:names:tc:opendocument:xmlns:drawing:1.0}"
PRELUDE = {"forms": O + "forms", "tracked-changes": T + "tracked-changes", "text-tracked-changes": X + "tracked-changes",
           "variable-decls": X + "variable-decls", "sequence-decls": X + "sequence-decls", "user-field-decls": X + "user-field-decls",
           "dde-connection-decls": X + "dde-connection-decls", "auto-mark": X + "alphabetical-index-auto-mark-file",
           "calculation-settings": T + "calculation-settings", "content-validations": T + "content-validations", "label-ranges": T + "label-ranges"}
EPI = {t: T + t for t in ("named-expressions", "database-ranges", "data-pilot-tables", "consolidation", "dde-links")}
TAGS = {v: k for k, v in list(PRELUDE.items()) + list(EPI.items())}
N = "{urn:verif}n"


class Adapter(common.Adapter):
    def __init__(self):
        self.body, self.w, self.doc = None, {}, None

    def fingerprint(self):
        return None if self.body is None else etree.tostring(self.body.xmlnode)

    def ident(self, e):
        n = int(e.get(N, "0"))
        t = TAGS.get(e.tag)
        if t in PRELUDE:
            return ["a", t, n]
        if t in EPI:
            return ["z", t, n]
        return ["c", "p", n] if n else ["?", e.tag, 0]

    def project(self):
        if self.body is None:
            return {}
        kids = [self.ident(e) for e in self.body.xmlnode]
        api = [self.ident(w.xmlnode) for w in self.body]
        if api != kids or len(self.body) != len(kids) or [self.ident(self.body[i].xmlnode) for i in range(len(kids))] != kids:
            kids = kids + [["!", "views", 0]]
        free = [k for k, w in self.w.items() if w.xmlnode.getparent() is None]
        return {"kids": kids, "free": sorted([list(k) for k in free], key=lambda k: self.order.index(tuple(k)))}

    def elem(self, x):
        c, t, n = x
        if c == "a":
            e = etree.Element(PRELUDE[t])
        elif c == "z":
            e = etree.Element(EPI[t])
        else:
            e = etree.Element([X + "p", X + "h", X + "list", T + "table", DRAW + "frame", X + "section"][n % 6] if self.kind == "odt" else
                              T + "table" if self.kind == "ods" else DRAW + "page")
        if n:
            e.set(N, str(n))
        return e

    def op_open(self, op):
        self.kind = op["kind"]
        b = etree.Element(O + BODY[self.kind], nsmap={"table": TNS, "office": ONS, "text": XNS})
        for x in op["kids"]:
            b.append(self.elem(x))
        if op.get("doc"):
            doc = ezodf.newdoc(self.kind)
            for e in list(doc.body.xmlnode):
                doc.body.xmlnode.remove(e)
            for e in list(b):
                doc.body.xmlnode.append(e)
            self.doc = ezodf.opendoc(doc.tobytes())
            self.body = self.doc.body
        else:
            self.body = wrap(b)
        self.collect()

    def collect(self):
        self.order = []
        self.w = {}
        for w in self.body:
            k = tuple(self.ident(w.xmlnode))
            if k[0] == "c":
                self.w[k] = w

    def note(self, x):
        """free elements are listed in the order they became free"""
        k = tuple(x)
        if k in self.order:
            self.order.remove(k)
        self.order.append(k)

    def op_create(self, op):
        x = op["x"]
        w = [Paragraph, Heading, List, Section, lambda: Table("t"), Paragraph][x[2] % 6]() if self.kind == "odt" else wrap(self.elem(x))
        w.xmlnode.set(N, str(x[2]))
        self.w[tuple(x)] = w
        self.note(x)

    def get(self, x):
        k = tuple(x)
        if k in self.w:
            return self.w[k]
        for w in self.body:
            if tuple(self.ident(w.xmlnode)) == k:
                return w
        raise ValueError(x)

    def freed(self, e):
        k = self.ident(e)
        if k[0] == "c" and e.getparent() is None:
            self.note(k)

    def op_append(self, op):
        w = self.get(op["x"])
        if op["x"][2] % 2:
            if self.body.append(w) is not w:
                raise RuntimeError("append does not return the child")
        else:
            b = self.body
            b += w
            if b is not self.body:
                raise RuntimeError("+=")

    def op_insert(self, op):
        self.body.insert(op["i"], self.get(op["x"]))

    def op_insert_before(self, op):
        self.body.insert_before(self.get(op["t"]), self.get(op["x"]))

    def op_set(self, op):
        old = self.body.xmlnode[op["i"]] if -len(self.body) <= op["i"] < len(self.body) else None
        self.body[op["i"]] = self.get(op["x"])
        self.freed(old)

    def op_replace(self, op):
        old = self.get(op["t"])
        self.body.replace(old, self.get(op["x"]))
        self.freed(old.xmlnode)

    def op_remove(self, op):
        w = self.get(op["x"])
        self.body.remove(w)
        self.freed(w.xmlnode)

    def op_delete(self, op):
        old = self.body.xmlnode[op["i"]] if -len(self.body) <= op["i"] < len(self.body) else None
        del self.body[op["i"]]
        self.freed(old)

    def op_reopen(self, op):
        if self.doc is not None:
            self.doc = ezodf.opendoc(self.doc.tobytes())
            self.body = self.doc.body
        else:
            self.body = wrap(etree.fromstring(etree.tostring(self.body.xmlnode)))
        self.collect()


class Driver(object):
    def __init__(self, rng, n, par):
        self.rng = rng
        self.k = 100

    def next(self, s, last):
        r = self.rng
        if last is None:
            kind = r.choice(["odt"] * 6 + ["ods", "odp", "odg"])
            pre = [["a", t, 0] for t in PRELUDE if r.random() < 0.3 and (kind in ("odt", "ods") or "text" not in t)]
            if r.random() < 0.15:
                r.shuffle(pre)
            cs = [["c", "p", k + 1] for k in range(r.randint(0, 5))]
            epi = [["z", t, 1] for t in EPI if r.random() < 0.4]
            if epi and r.random() < 0.2:
                epi.insert(r.randint(0, len(epi)), ["z", r.choice(epi)[1], 2])
            self.kind = kind
            if cs and epi and r.random() < 0.1:      # a stray epilogue element among the content
                cs.insert(r.randrange(len(cs)), ["z", "consolidation", 9])
            return {"a": "open", "kind": kind, "kids": pre + cs + epi, "doc": r.random() < 0.2}
        if "kids" not in s:
            return None
        if self.kind != "odt":
            if len([1 for x in s["kids"]]) and r.random() < 0.3:
                return {"a": "delete", "i": r.randint(-len(s["kids"]) - 1, len(s["kids"]))}
            return {"a": "reopen"}
        cs = [x for x in s["kids"] if x[0] == "c"] + s["free"]
        kids = s["kids"]
        a = r.choice(["create"] * 3 + ["append"] * 5 + ["insert"] * 4 + ["insert_before"] * 3 + ["set", "replace", "remove", "remove", "delete", "reopen"])
        if a == "reopen" and s["free"]:
            a = "append"
        if a == "create" or not cs and a not in ("delete", "reopen"):
            if len(cs) > 12:
                return {"a": "delete", "i": r.randint(-len(kids) - 1, len(kids))}
            self.k += 1
            return {"a": "create", "x": ["c", "p", self.k]}
        op = {"a": a}
        if a in ("append", "insert", "insert_before", "set", "replace", "remove"):
            op["x"] = r.choice(s["free"]) if s["free"] and r.random() < 0.5 else r.choice(cs)
        if a in ("insert", "set", "delete"):
            op["i"] = r.randint(-len(kids) - 1, len(kids) + 1)
        if a == "insert_before":
            op["t"] = r.choice(kids + s["free"])
        if a == "replace":
            op["t"] = r.choice(cs)
        return op
