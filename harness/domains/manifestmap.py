"""The manifest (C24)."""
import codecs
import common
from common import esc
from lxml import etree
if common.ezodf:
    from ezodf.manifest import Manifest
ALWAYS_FRESH = False
NS = "urn:oasis:names:tc:opendocument:xmlns:manifest:1.0"
M = "{%s}" % NS


def raw(x):
    return codecs.decode(x, "unicode_escape")


class Adapter(common.Adapter):
    def __init__(self):
        self.m = None

    def fingerprint(self):
        return None if self.m is None else self.m.tobytes()

    def entry(self, e):
        return [esc(e.get(M + "full-path")), esc(e.get(M + "media-type", "")), e.get(M + "version", ""), len(e)]

    def project(self):
        if self.m is None:
            return {}
        root = etree.fromstring(self.m.tobytes())
        es = [self.entry(e) for e in root if isinstance(e.tag, str) and e.tag == M + "file-entry"]
        if any(isinstance(e.tag, str) and e.tag != M + "file-entry" for e in root) or root.tag != M + "manifest":
            es.append(["!foreign", "", "", 0])
        return {"es": es}

    def op_new(self, op):
        self.m = Manifest()

    def op_load(self, op):
        root = etree.Element(M + "manifest", nsmap={"manifest": NS})
        for p, m, v, n in op["es"]:
            if op.get("comment"):
                root.append(etree.Comment("c"))
            e = etree.SubElement(root, M + "file-entry")
            e.set(M + "full-path", raw(p))
            if m or n == 0:
                e.set(M + "media-type", raw(m))
            if v:
                e.set(M + "version", v)
            for _ in range(n):
                etree.SubElement(e, M + "encryption-data")
        self.m = Manifest(etree.tostring(root, xml_declaration=True, encoding="UTF-8"))

    def op_add(self, op):
        p, m = raw(op["p"]), raw(op["m"])
        if op["v"]:
            self.m.add(p, m, op["v"])
        elif m:
            self.m.add(p, m)
        else:
            self.m.add(p)

    def op_remove(self, op):
        self.m.remove(raw(op["p"]))

    def op_find(self, op):
        e = self.m.find(raw(op["p"]))
        return "ok", [] if e is None else [self.entry(e)]

    def op_reload(self, op):
        self.m = Manifest(self.m.tobytes())


class Driver(object):
    P = ["/", "content.xml", "styles.xml", "meta.xml", "Pictures/", "Pictures/a", "Pictures/a.png", "pictures/a", "\\xe9.xml", "a b", "<&>'\"",
         "META-INF/manifest.xml", "META-INF/", "", "./content.xml"]

    def __init__(self, rng, n, par):
        self.rng = rng

    def next(self, s, last):
        r = self.rng
        if last is None:
            if r.random() < 0.3:
                return {"a": "new"}
            ps = r.sample([p for p in self.P if p != "META-INF/manifest.xml"], r.randint(0, 6))
            return {"a": "load", "es": [[p, r.choice(["", "text/xml", "img"]), r.choice(["", "", "1.2"]), r.choice([0, 0, 0, 1])] for p in ps], "comment": r.random() < 0.2}
        if "es" not in s:
            return None
        a = r.choice(["add"] * 4 + ["remove", "remove", "find", "find", "reload"])
        op = {"a": a}
        if a != "reload":
            op["p"] = r.choice(s["es"])[0] if s["es"] and r.random() < 0.4 else r.choice(self.P)
        if a == "add":
            op["m"], op["v"] = r.choice(["", "text/xml", "image/png", "x\\xe9"]), r.choice(["", "", "1.0", "1.3"])
        return op
