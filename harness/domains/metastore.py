"""Metadata stores (C21)."""
import datetime
import common
from common import esc
from lxml import etree
if common.ezodf:
    import ezodf
    from ezodf.meta import OfficeDocumentMeta, Statistic
    from ezodf.const import GENERATOR
ALWAYS_FRESH = False
KEYS = {"generator": "meta:generator", "title": "dc:title", "description": "dc:description", "subject": "dc:subject",
        "initial-creator": "meta:initial-creator", "creator": "dc:creator", "creation-date": "meta:creation-date", "date": "dc:date",
        "editing-cycles": "meta:editing-cycles", "language": "dc:language"}
STATS = ["page", "table", "draw", "image", "object", "ole-object", "paragraph", "word", "character", "row", "frame", "sentence",
         "syllable", "non-whitespace-character", "cell"]
NS = {"meta": "urn:oasis:names:tc:opendocument:xmlns:meta:1.0", "dc": "http://purl.org/dc/elements/1.1/",
      "office": "urn:oasis:names:tc:opendocument:xmlns:office:1.0"}


def cn(t):
    p, l = t.split(":")
    return "{%s}%s" % (NS[p], l)


TAGOF = {cn(v): k for k, v in KEYS.items()}
OTHERS = ["template", "auto-reload", "hyperlink-behaviour"]


def number(x):
    try:
        return int(x)
    except ValueError:
        return 0


class Adapter(common.Adapter):
    def __init__(self):
        self.m, self.doc = None, None
        self.now = set()

    def fingerprint(self):
        return None if self.m is None else etree.tostring(self.m.xmlnode.find(cn("office:meta")))

    def alias(self, k, x):
        x = x or ""
        if k in ("date", "creation-date") and x in self.now:
            return "@now"
        if k == "generator" and x == GENERATOR:
            return "@lib"
        return esc(x)

    def project(self):
        if self.m is None:
            return {}
        m, v = self.m, []
        meta = m.xmlnode.find(cn("office:meta"))
        if len(m.xmlnode.findall(cn("office:meta"))) != 1:
            v.append("meta")
        tags = {k: "!" for k in KEYS}
        kw, user, stat, other = [], [], [], []
        nstat = 0
        for e in meta:
            if e.tag in TAGOF:
                k = TAGOF[e.tag]
                if tags[k] != "!":
                    v.append("twice:" + k)
                tags[k] = self.alias(k, e.text)
            elif e.tag == cn("meta:keyword"):
                kw.append(esc(e.text or ""))
            elif e.tag == cn("meta:user-defined"):
                user.append([esc(e.get(cn("meta:name"))), esc(e.text or ""), e.get(cn("meta:value-type"), "string")])
            elif e.tag == cn("meta:document-statistic"):
                nstat += 1
                for a, x in e.attrib.items():
                    if a.endswith("-count"):
                        stat.append([a.split("}")[1][:-6], number(x)])
            else:
                other.append(e.tag.split("}")[1])
        if nstat != 1:
            v.append("statistics elements")

        def check(what, f):
            try:
                ok = f()
            except (LookupError, ValueError, TypeError, AttributeError):
                ok = False
            if not ok:
                v.append(what)

        def tag(k):
            try:
                return self.alias(k, m[k])
            except KeyError:
                return "!"
        check("tags", lambda: {k: tag(k) for k in KEYS} == tags)
        check("keywords", lambda: [esc(x or "") for x in m.keywords] == kw)
        check("usertags", lambda: [[esc(n), esc(x or "")] for n, x in m.usertags] == [u[:2] for u in user])
        check("typeof", lambda: all(m.usertags.typeof(self.raw(n)) == t for n, x, t in user))
        check("membership", lambda: all(self.raw(k) in m.keywords for k in kw if k) and all(self.raw(u[0]) in m.usertags for u in user))
        check("values", lambda: all(esc(m.usertags[self.raw(n)] or "") == x for n, x, t in user))
        check("count", lambda: [[n, x] for n, x in m.count] == stat)
        h = self.held
        check("stores held", lambda: list(h["keywords"]) == list(m.keywords) and list(h["usertags"]) == list(m.usertags) and list(h["count"]) == list(m.count))
        check("counts", lambda: all(m.count[n] == dict(map(tuple, stat)).get(n, 0) for n in STATS))
        return {"tags": tags, "kw": kw, "user": user, "stat": stat, "other": other, "v": v}

    def hold(self):
        self.held = {n: getattr(self.m, n) for n in ("keywords", "usertags", "count")}

    def view(self, name, op):
        """A store, taken from the metadata now or when they were loaded."""
        return self.held[name] if len(str(sorted(op.items()))) % 2 else getattr(self.m, name)

    def raw(self, x):
        import codecs
        return codecs.decode(x, "unicode_escape")

    def timed(self, f, keys):
        t0 = datetime.datetime.now().isoformat()
        f()
        t1 = datetime.datetime.now().isoformat()
        for k in keys:
            try:
                x = self.m[k]
                datetime.datetime.fromisoformat(x)
                if t0 <= x <= t1:
                    self.now.add(x)
            except (KeyError, ValueError, TypeError):
                pass

    def op_new(self, op):
        def f():
            if op.get("doc"):
                self.doc = ezodf.newdoc("odt")
                self.m = self.doc.meta
            else:
                self.m = OfficeDocumentMeta()
        self.timed(f, ["date", "creation-date"])
        self.hold()

    def op_load(self, op):
        if op["root"] == "flat":
            root = etree.Element(cn("office:document"), nsmap=NS)
        else:
            root = etree.Element(cn("office:document-meta"), nsmap=NS)
        meta = etree.SubElement(root, cn("office:meta"))
        for k, x in op["tags"].items():
            etree.SubElement(meta, cn(KEYS[k])).text = self.raw(x)
        for k in op["kw"]:
            etree.SubElement(meta, cn("meta:keyword")).text = self.raw(k)
        for o in op["other"]:
            etree.SubElement(meta, cn("meta:" + o))
        for n, x, t in op["user"]:
            e = etree.SubElement(meta, cn("meta:user-defined"))
            e.set(cn("meta:name"), self.raw(n))
            if t != "string":
                e.set(cn("meta:value-type"), t)
            e.text = self.raw(x)
        if op["stat"] or op.get("estat"):
            e = etree.SubElement(meta, cn("meta:document-statistic"))
            for n, x in op["stat"]:
                e.set(cn("meta:" + n + "-count"), op["odd"] if x == 0 and op.get("odd") else str(x))
        self.m = OfficeDocumentMeta(etree.fromstring(etree.tostring(root)))
        self.hold()

    def op_set(self, op):
        self.m[op["k"]] = self.raw(op["x"])

    def op_set_bad(self, op):
        self.m["subject"] = 5

    def op_kw_bad(self, op):
        self.view('keywords', op).add(5)

    def op_u_bad(self, op):
        self.view('usertags', op).set(5, "x")

    def op_get(self, op):
        return "ok", [self.alias(op["k"], self.m[op["k"]])]

    def op_kw_add(self, op):
        self.view('keywords', op).add(self.raw(op["x"]))

    def op_kw_remove(self, op):
        self.view('keywords', op).remove(self.raw(op["x"]))

    def op_kw_has(self, op):
        return "ok", [self.raw(op["x"]) in self.view('keywords', op)]

    def op_kw_clear(self, op):
        self.view('keywords', op).clear()

    def op_u_set(self, op):
        n, x = self.raw(op["n"]), self.raw(op["x"])
        x = {"int": int, "float": float}.get(op.get("py"), str)(x)
        if op["t"]:
            self.view('usertags', op).set(n, x, op["t"])
        elif len(op["x"]) % 2:
            self.view('usertags', op)[n] = x
        else:
            self.view('usertags', op).set(n, x)

    def op_u_get(self, op):
        return "ok", [esc(self.view('usertags', op)[self.raw(op["n"])] or "")]

    def op_u_type(self, op):
        return "ok", [self.view('usertags', op).typeof(self.raw(op["n"]))]

    def op_u_has(self, op):
        return "ok", [self.raw(op["n"]) in self.view('usertags', op)]

    def op_u_del(self, op):
        del self.view('usertags', op)[self.raw(op["n"])]

    def op_u_update(self, op):
        self.view('usertags', op).update({self.raw(n): self.raw(x) for n, x in op["es"]})

    def op_u_clear(self, op):
        self.view('usertags', op).clear()

    def op_s_set(self, op):
        self.view('count', op)[op["n"]] = op["x"]

    def op_s_get(self, op):
        return "ok", [self.view('count', op)[op["n"]]]

    def op_s_update(self, op):
        self.view('count', op).update(dict(map(tuple, op["es"])))

    def op_s_clear(self, op):
        self.view('count', op).clear()

    def op_clear(self, op):
        self.m.clear()

    def op_touch(self, op):
        self.timed(self.m.touch, ["date"])

    def op_inc(self, op):
        self.m.inc_editing_cycles()

    def op_reload(self, op):
        if self.doc is not None:
            self.doc = ezodf.opendoc(self.doc.tobytes())
            self.m = self.doc.meta
        else:
            self.m = OfficeDocumentMeta(etree.fromstring(self.m.tobytes()))
        self.hold()


class Driver(object):
    TEXT = ["a", "B b", "\\xe9\\u4e2d", "<&>", "0", " x ", "\\n", "5", "a"]

    def __init__(self, rng, n, par):
        self.rng = rng

    def u(self, empty=True):
        x = self.rng.choice(self.TEXT + ([""] if empty else []))
        return x if self.rng.random() < 0.7 else x + self.rng.choice("xyz")

    def next(self, s, last):
        r = self.rng
        if last is None:
            if r.random() < 0.4:
                return {"a": "new", "doc": r.random() < 0.4}
            kws = list(dict.fromkeys(self.u(False) for _ in range(r.randint(0, 4))))
            us = list(dict.fromkeys(self.u(False) for _ in range(r.randint(0, 4))))
            st = [n for n in STATS if r.random() < 0.2]
            return {"a": "load", "root": r.choice(["meta", "flat"]), "tags": {k: self.u() for k in KEYS if r.random() < 0.4},
                    "kw": kws, "user": [[n, self.u(), r.choice(["string", "float", "boolean"])] for n in us],
                    "stat": [[n, r.randint(0, 9)] for n in st], "estat": True, "odd": r.choice(["", "1.5", "many", "0x1"]), "other": [o for o in OTHERS if r.random() < 0.3]}
        if "kw" not in s:
            return None
        a = r.choice(["set"] * 3 + ["get", "kw_add", "kw_add", "kw_add", "kw_remove", "kw_has", "kw_clear", "u_set", "u_set", "u_set", "u_set", "u_get",
                      "u_type", "u_has", "u_del", "u_del", "u_update", "u_clear", "s_set", "s_set", "s_set", "s_get", "s_update", "s_clear",
                      "set_bad", "kw_bad", "u_bad", "touch", "inc", "inc", "reload", "reload"] + ["clear"] * (r.random() < 0.3))
        op = {"a": a}
        if a in ("set", "get"):
            op["k"] = r.choice(list(KEYS)) if r.random() < 0.93 else r.choice(["nokey", "Title", "dc:title"])
        if a == "set":
            op["x"] = self.u()
        if a in ("kw_add", "kw_remove", "kw_has"):
            op["x"] = r.choice(s["kw"]) if s["kw"] and r.random() < 0.5 else self.u(False)
        if a in ("u_set", "u_get", "u_type", "u_has", "u_del"):
            op["n"] = r.choice(s["user"])[0] if s["user"] and r.random() < 0.6 else self.u(False)
        if a == "u_set":
            op["x"], op["t"] = self.u(), r.choice(["", "", "float", "date", "time", "boolean", "string"])
            if r.random() < 0.2:
                op["x"], op["py"] = r.choice([("5", "int"), ("2.5", "float"), ("-3", "int")])
        if a == "u_update":
            op["es"] = [[n, self.u()] for n in dict.fromkeys(r.choice(s["user"])[0] if s["user"] and r.random() < 0.5 else self.u(False) for _ in range(r.randint(0, 3)))]
        if a in ("s_set", "s_get"):
            op["n"] = r.choice(STATS) if r.random() < 0.93 else "nostat"
        if a == "s_set":
            op["x"] = r.choice([0, 1, 2, 100000, -1])
        if a == "s_update":
            op["es"] = [[n, r.randint(0, 99)] for n in STATS if r.random() < 0.2]
        if a == "inc":
            x = s["tags"]["editing-cycles"]
            import codecs
            try:
                op["num"] = int(codecs.decode(x, "unicode_escape"))
            except ValueError:
                op["num"] = -1
        return op
