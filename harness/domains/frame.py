"""The frame of a document (C31). Files are read by zipfile and lxml alone."""
import io, os, tempfile, zipfile
import common
from common import esc
from lxml import etree
from domains.docstore import NS, MIME, Q, raw, bodytag, el
if common.ezodf:
    import ezodf
    from ezodf import Paragraph, Table, DrawingPage
    from ezodf.document import FlatXMLDocument
    from ezodf.xmlns import fake_element, wrap
ALWAYS_FRESH = False
ORDER = ["meta", "settings", "scripts", "font-face-decls", "styles", "automatic-styles", "master-styles", "body"]
ROOT = {"content": "office:document-content", "styles": "office:document-styles", "meta": "office:document-meta", "flat": "office:document"}
ALLOWED = {"content": ["scripts", "font-face-decls", "automatic-styles", "body"], "styles": ["font-face-decls", "styles", "automatic-styles", "master-styles"],
           "meta": ["meta"], "flat": ORDER}
KID = {"font-face-decls": "style:font-face", "styles": "style:style", "automatic-styles": "style:style", "master-styles": "style:master-page"}


def embed(at):
    """A whole document inside of the document."""
    o = el(el(at, "draw:frame"), "draw:object")
    r = root("flat", [("meta", ["m"]), ("scripts", ["s"]), ("font-face-decls", ["f"]), ("styles", ["s"]), ("automatic-styles", ["a"]), ("master-styles", ["m"]), ("body", ["b"])], "odt")
    o.append(r)


def embedded(x):
    """The embedded document in x, taken out of it: is it as it was made?"""
    o = x.find(".//" + Q("draw:object"))
    if o is None:
        return ""
    e = etree.Element("e")
    embed(e)
    same = etree.tostring(o[0], method="c14n", exclusive=True) == etree.tostring(e[0][0][0], method="c14n", exclusive=True) if len(o) else False
    o.getparent().getparent().remove(o.getparent())
    return "" if same else "?embedded"


def fill(e, tag, kids, kind):
    for n in kids:
        if n == "@":  # an attribute of the frame element
            e.set(Q("x:at"), "1")
            if tag == "body":
                e.getparent().set(Q("x:at"), "1")
        elif tag in KID:
            el(e, KID[tag], style__name=raw(n))
        elif tag == "scripts":
            el(e, "x:script", raw(n))
        elif tag == "settings":
            el(e, "x:set", raw(n))
        elif tag == "meta":
            el(e, "meta:keyword", raw(n))
        elif kind == "ods":
            c = el(el(el(e, "table:table", table__name=raw(n)), "table:table-row"), "table:table-cell")
            if n[0] == "E":
                embed(el(c, "text:p"))
        elif kind == "odp":
            c = el(e, "draw:page", draw__name=raw(n))
            if n[0] == "E":
                embed(c)
        else:
            c = el(e, "text:p", raw(n))
            if n[0] == "E":
                embed(c)


def root(p, l, kind):
    r = etree.Element(Q(ROOT[p]), nsmap=NS)
    if p == "flat":
        r.set(Q("office:mimetype"), MIME[kind])
    for tag, kids in l:
        if tag == "@":  # an attribute of the root element
            r.set(Q("x:at"), kids[0])
        elif tag == "!":
            r.append(etree.Comment(kids[0]))
        elif tag == "x":
            el(r, "x:other", raw(kids[0]))
        elif tag == "body":
            fill(etree.SubElement(el(r, "office:body"), bodytag(kind)), tag, kids, kind)
        else:
            fill(el(r, "office:" + tag), tag, kids, kind)
    return r


class Adapter(common.Adapter):
    def __init__(self):
        self.d = None
        self.dir = tempfile.mkdtemp(dir=os.environ.get("VERIF_WORK", "."))
        self.n = 0

    def close(self):
        import shutil
        shutil.rmtree(self.dir)

    def path(self):
        self.n += 1
        return os.path.join(self.dir, "f%d.xml" % self.n)

    def trees(self):
        b = self.d.tobytes()
        if self.k == "flat":
            return {"flat": etree.fromstring(b)}
        z = zipfile.ZipFile(io.BytesIO(b))
        return dict((p, etree.fromstring(z.read(p + ".xml"))) for p in ("content", "styles", "meta"))

    def project(self):
        if self.d is None:
            return {}
        parts, other, wf = {}, {}, []
        for p, r in self.trees().items():
            if r.tag != Q(ROOT[p]):
                wf.append(p + " root")
            seen, parts[p], other[p] = [], dict((t, []) for t in ALLOWED[p]), []
            if r.get(Q("x:at")) is not None:
                other[p].append(r.get(Q("x:at")))
            for e in r:
                if e.tag is etree.Comment:
                    other[p].append(e.text)
                elif e.tag == Q("x:other"):
                    other[p].append(esc(e.text))
                elif isinstance(e.tag, str) and e.tag.startswith(Q("office:")) and e.tag[len(Q("office:")):] in ALLOWED[p]:
                    t = e.tag[len(Q("office:")):]
                    seen.append(ORDER.index(t))
                    a = [x.get(Q("x:at")) for x in ([e] + list(e) if t == "body" else [e])]
                    if a != [a[0]] * len(a):
                        wf.append("attributes of " + t)
                    parts[p][t] = parts[p][t] + (["@"] if a[0] else []) + self.held(e, t)
                else:
                    other[p].append("?" + str(e.tag))
            if len(set(seen)) != len(seen):
                wf.append(p + " twice")
            if sorted(seen) != seen:
                wf.append(p + " order")
            if p in ("content", "flat"):
                b = r.findall(Q("office:body"))
                if len(b) != 1 or [x.tag for x in b[0]] != [bodytag(self.kind)]:
                    wf.append(p + " body")
        return {"k": self.k, "parts": parts, "other": other, "wf": wf}

    def held(self, e, t):
        if t in KID:
            return [esc(x.get(Q("style:name"), "?" + x.tag)) for x in e]
        if t in ("scripts", "settings"):
            return [esc(x.text) for x in e]
        if t == "meta":
            return [esc(x.text or "") for x in e.findall(Q("meta:keyword"))]
        out = []
        for b in e:
            for x in b:
                if x.tag not in (Q("text:variable-decls"), Q("text:user-field-decls")):
                    wrong = embedded(x)
                    out.append(wrong + esc(x.get(Q("table:name")) or x.get(Q("draw:name")) or "".join(x.itertext())))
        return out

    def load(self, op):
        self.k, self.kind = op["k"], op["kind"]
        if self.k == "flat":
            p = self.path()
            with open(p, "wb") as f:
                f.write(etree.tostring(root("flat", op["parts"]["flat"], self.kind), xml_declaration=True, encoding="UTF-8"))
            return p
        b = io.BytesIO()
        z = zipfile.ZipFile(b, "w")
        z.writestr("mimetype", MIME[self.kind])
        man = etree.Element(Q("manifest:manifest"), nsmap={"manifest": NS["manifest"]})
        for p, t in [("/", MIME[self.kind])] + [(x + ".xml", "text/xml") for x in sorted(op["parts"])]:
            el(man, "manifest:file-entry", manifest__full_path=p, manifest__media_type=t)
        for p in sorted(op["parts"]):
            z.writestr(p + ".xml", etree.tostring(root(p, op["parts"][p], self.kind)))
        z.writestr("META-INF/manifest.xml", etree.tostring(man))
        z.close()
        return b.getvalue()

    def op_open(self, op):
        self.d = ezodf.opendoc(self.load(op))

    def op_template(self, op):
        self.d = ezodf.newdoc(template=self.load(op))

    def op_new(self, op):
        self.k, self.kind = op["k"], op["kind"]
        self.d = ezodf.newdoc(self.kind) if self.k == "pkg" else FlatXMLDocument(self.kind)

    def op_put(self, op):
        d, t, n = self.d, op["t"], raw(op["n"])
        at = d if self.k == "flat" else d.content if op["p"] == "content" else d.styles
        if t == "meta":
            d.meta.keywords.add(n)
        elif t == "body":
            if self.kind == "ods":
                d.sheets.append(Table(n, size=(1, 1)))
            elif self.kind == "odp":
                d.pages.append(DrawingPage(n))
            else:
                d.body.append(Paragraph(n))
        elif t == "scripts":
            e = etree.Element(Q("x:script"))
            e.text = n
            at.scripts.append(wrap(e))
        elif t == "styles" and len(n) % 2:
            d.inject_style('<style:style style:name="%s"/>' % n)
        else:
            box = {"font-face-decls": "fonts", "automatic-styles": "automatic_styles", "master-styles": "master_styles", "styles": "styles"}[t]
            getattr(at, box)[n] = fake_element('<%s style:name="%s"/>' % (KID[t], n))

    def op_reopen(self, op):
        if self.k == "flat":
            p = self.path()
            self.d.saveas(p)
            self.d = ezodf.opendoc(p)
        else:
            b = self.d.tobytes()
            self.d = ezodf.opendoc(io.BytesIO(b) if len(b) % 2 else b)


class Driver(object):
    def __init__(self, rng, n, par):
        self.rng, self.i = rng, 0

    def name(self):
        self.i += 1
        return self.rng.choice(["n", "\\xe9", "x y", "N"]) + str(self.i)

    def layout(self, p):
        r = self.rng
        k = r.choice([0.2, 0.5, 0.8, 1])
        l = [["@", ["a"]]] if r.random() < 0.2 else []
        for t in ALLOWED[p]:
            while r.random() < 0.15:
                l.append([r.choice("x!"), [self.name().replace("\\xe9", "e")]])
            if r.random() < k or t == "body":
                l.append([t, ["@"] * (r.random() < 0.2) + [self.name() for _ in range(r.choice([0, 1, 3]))]])
                if t == "body" and r.random() < 0.3:
                    l[-1][1].append("E" + self.name())
        while r.random() < 0.2:
            l.append([r.choice("x!"), [self.name().replace("\\xe9", "e")]])
        return l

    def next(self, s, last):
        r = self.rng
        if last is None or "parts" in s and r.random() < 0.05:
            k = r.choice(["pkg", "pkg", "flat"])
            op = {"a": "new" if r.random() < 0.15 else "open", "k": k, "kind": r.choice(["odt", "ods", "odp"])}
            if op["a"] == "open":
                op["parts"] = {"flat": self.layout("flat")} if k == "flat" else dict((p, self.layout(p)) for p in ("content", "styles", "meta") if p == "content" or r.random() < 0.8)
                if k == "pkg" and r.random() < 0.3:
                    op["a"] = "template"
            return op
        if "parts" not in s:
            return None
        if r.random() < 0.3:
            return {"a": "reopen"}
        p = r.choice(sorted(s["parts"]))
        return {"a": "put", "p": p, "t": r.choice([t for t in sorted(s["parts"][p]) if t != "settings"]), "n": self.name()}
