"""Style containers (C26)."""
import io, zipfile
import common
from common import esc
from lxml import etree
if common.ezodf:
    import ezodf
    from ezodf.xmlns import fake_element, CN
ALWAYS_FRESH = False
NS = {"style": "urn:oasis:names:tc:opendocument:xmlns:style:1.0", "office": "urn:oasis:names:tc:opendocument:xmlns:office:1.0",
      "text": "urn:oasis:names:tc:opendocument:xmlns:text:1.0", "number": "urn:oasis:names:tc:opendocument:xmlns:datastyle:1.0"}
S = "{%s}" % NS["style"]
O = "{%s}" % NS["office"]
TAGS = {"fonts": "font-face-decls", "common": "styles", "auto": "automatic-styles", "master": "master-styles",
        "cfonts": "font-face-decls", "cauto": "automatic-styles"}


def xml(t, n, i):
    n = n.encode("ascii").decode("unicode_escape").replace("&", "&amp;").replace("<", "&lt;").replace('"', "&quot;")
    return '<%s %sstyle:display-name="%s" style:family="family-%s"><style:text-properties style:x="%s"/></%s>' % (
        t, 'style:name="%s" ' % n if n else "", i, i, i, t)


def short(tag):
    for p, u in NS.items():
        if tag.startswith("{%s}" % u):
            return p + ":" + tag[len(u) + 2:]
    return tag


def tup(e):
    if not isinstance(e.tag, str):
        return ["!comment", "", ""]
    i = e.get(S + "display-name")
    kids = [x.get(S + "x") for x in e]
    return [short(e.tag), esc(e.get(S + "name", "")), "%s" % i if kids == [i] else "%s!%s" % (i, kids)]


class Adapter(common.Adapter):
    def __init__(self):
        self.d = None

    def raw(self):
        d = self.d
        if self.k == "flat":
            return [etree.fromstring(d.tobytes())]
        z = zipfile.ZipFile(io.BytesIO(d.tobytes()))
        return [etree.fromstring(z.read("styles.xml")), etree.fromstring(z.read("content.xml"))]

    def fingerprint(self):
        if self.d is None:
            return None
        return [etree.tostring(x) for x in (self.d.xmlnode,)] if self.k == "flat" else [self.d.styles.tobytes(), self.d.content.tobytes()]

    def project(self):
        if self.d is None:
            return {}
        roots = self.raw()
        out = {}
        for c, t in TAGS.items():
            if c[0] == "c" and c != "common":
                if self.k == "flat":
                    continue
                r = roots[1]
            else:
                r = roots[0]
            found = r.findall(O + t)
            out[c] = [tup(e) for e in found[0]] if len(found) == 1 else [["!%d containers" % len(found), "", ""]]
        return {"cs": out}

    def op_open(self, op):
        self.k = op["k"]
        decl = " ".join('xmlns:%s="%s"' % x for x in NS.items())
        def part(root, cs, more=""):
            return "<%s %s%s>%s%s</%s>" % (root, decl, ' office:mimetype="application/vnd.oasis.opendocument.text"' if root == "office:document" else "",
                "".join("<office:%s>%s</office:%s>" % (TAGS[c], "".join("<!--c-->" if e[0] == "!comment" else xml(*e) for e in op["cs"][c]), TAGS[c]) for c in cs), more, root)
        if op["f"] == "empty" and self.k != "flat":
            self.d = ezodf.newdoc(self.k)
        elif self.k == "flat":
            x = part("office:document", ["fonts", "common", "auto", "master"], "<office:body><office:text/></office:body>")
            p = "flat.fodt"
            with open(p, "w", encoding="utf8") as f:
                f.write(x)
            self.d = ezodf.opendoc(p)
        else:
            b = io.BytesIO()
            z = zipfile.ZipFile(b, "w")
            z.writestr("mimetype", "application/vnd.oasis.opendocument.text")
            z.writestr("styles.xml", part("office:document-styles", ["fonts", "common", "auto", "master"]))
            z.writestr("content.xml", part("office:document-content", ["cfonts", "cauto"], "<office:body><office:text/></office:body>"))
            z.writestr("META-INF/manifest.xml", '<manifest:manifest xmlns:manifest="urn:oasis:names:tc:opendocument:xmlns:manifest:1.0"/>')
            z.close()
            self.d = ezodf.opendoc(b.getvalue())

    def box(self, c):
        d = self.d
        if self.k == "flat":
            return {"fonts": d.fonts, "common": d.styles, "auto": d.automatic_styles, "master": d.master_styles}[c]
        s = d.styles
        return {"fonts": s.fonts, "common": s.styles, "auto": s.automatic_styles, "master": s.master_styles,
                "cfonts": d.content.fonts, "cauto": d.content.automatic_styles}[c]

    def name(self, op):
        return op["n"].encode("ascii").decode("unicode_escape")

    def op_get(self, op):
        b = self.box(op["c"])
        w = b[self.name(op)]
        q = tup(w.xmlnode)
        if w.xmlnode.getparent() is not b.xmlnode:
            q[0] = "!stray"
        return "ok", q

    def op_attr(self, op):
        w = self.box(op["c"])[self.name(op)]
        return "ok", [esc(w["name"]), w["family"], "!none" if w["parent-style-name"] is None else w["parent-style-name"]]

    def op_set(self, op):
        self.box(op["c"])[self.name(op)] = fake_element(xml(op["t"], op["n"], op["i"]))

    def op_inject(self, op):
        self.d.inject_style(xml(op["t"], op["n"], op["i"]))

    def op_injectbad(self, op):
        try:
            self.d.inject_style("<style:style style:name='A'>")
        except etree.ParseError:
            raise ValueError()

    def op_move(self, op):
        w = self.box(op["c"])[self.name(op)]
        self.box(op["d"])[self.name(op)] = w

    def op_rename(self, op):
        w = self.box(op["c"])[self.name(op)]
        w.xmlnode.set(S + "name", op["m"].encode("ascii").decode("unicode_escape"))

    def op_reopen(self, op):
        if self.k == "flat":
            with open("flat2.fodt", "wb") as f:
                f.write(self.d.tobytes())
            self.d = ezodf.opendoc("flat2.fodt")
        else:
            self.d = ezodf.opendoc(self.d.tobytes())


class Driver(object):
    N = ["A", "B", "C", "a", "x y", "\\xe9", "1", "0", "<&\"", "Standard"]
    T = ["style:style", "style:style", "style:page-layout", "style:font-face", "style:master-page", "text:list-style", "number:date-style"]

    def __init__(self, rng, n, par):
        self.rng, self.n = rng, 0

    def style(self, comments=False):
        r = self.rng
        self.n += 1
        if comments and r.random() < 0.1:
            return ["!comment", "", ""]
        if r.random() < 0.15:
            return ["style:default-style", "", "i%d" % self.n]
        return [r.choice(self.T), r.choice(self.N), "i%d" % self.n]

    def next(self, s, last):
        r = self.rng
        if last is None:
            self.k = r.choice(["odt", "odt", "flat"])
            self.names = [c for c in TAGS if self.k != "flat" or c not in ("cfonts", "cauto")]
            f = r.choice(["empty", "some", "some"])
            self.uniq = r.random() < 0.6
            cs = {}
            for c in self.names:
                l = [] if f == "empty" else [self.style(True) for _ in range(r.choice([0, 1, 3, 6]))]
                if self.uniq:
                    l = [e for i, e in enumerate(l) if e[1] == "" or e[1] not in [x[1] for x in l[:i]]]
                cs[c] = l
            return {"a": "open", "k": self.k, "f": f, "cs": cs}
        if "cs" not in s:
            return None
        a = r.choice(["get"] * 5 + ["set"] * 5 + ["attr", "inject", "inject", "injectbad", "move", "move", "rename", "rename", "reopen"])
        op = {"a": a}
        c = r.choice(self.names)
        here = [e[1] for e in s["cs"].get(c, []) if e[1]]
        n = r.choice(here) if here and r.random() < 0.6 else r.choice(self.N)
        ids = [e[2] for e in s["cs"].get(c, []) if e[2]]
        if ids and r.random() < 0.1:        # other attributes are no names
            n = r.choice(["family-", ""]) + r.choice(ids)
        if a in ("get", "attr", "set", "move", "rename"):
            op["c"], op["n"] = c, n
        if a == "attr" and any(e[1] == n and e[0] != "style:style" for e in s["cs"][c]):
            op["a"] = "get"
        if a == "rename":
            op["m"] = r.choice(self.N)
            if self.uniq and op["m"] in here:
                return {"a": "reopen"}
        if a == "move":
            op["d"] = r.choice(self.names)
        if a in ("set", "inject"):
            e = self.style()
            op["t"], op["i"] = r.choice(self.T), e[2]
            if a == "inject":
                op["n"] = e[1]
                if self.uniq and e[1] and e[1] in [x[1] for x in s["cs"]["common"]]:
                    return {"a": "reopen"}
        return op
