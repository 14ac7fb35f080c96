"""Documents, packages and files (C01-C04, C06, C07). Files are read by zipfile and lxml alone."""
import codecs, datetime, gc, hashlib, io, os, random, shutil, struct, tempfile, zipfile, warnings
import common
from common import esc
from lxml import etree
if common.ezodf:
    import ezodf
    from ezodf import observer, Paragraph, Table, DrawingPage, Cell, Heading, Span, Section, Hyperlink, NumberedParagraph, ezlist
    from ezodf.xmlns import wrap
ALWAYS_FRESH = False
B = "application/vnd.oasis.opendocument."
KINDS = {"odt": "text", "ott": "text-template", "odg": "graphics", "otg": "graphics-template", "odp": "presentation", "otp": "presentation-template",
         "ods": "spreadsheet", "ots": "spreadsheet-template", "odc": "chart", "otc": "chart-template", "odi": "image", "oti": "image-template",
         "odf": "formula", "otf": "formula-template", "odm": "text-master", "oth": "text-web"}
MIME = dict((k, B + v) for k, v in KINDS.items())
KIND = dict((v, k) for k, v in MIME.items())
BODY = {"text": "text", "graphics": "drawing", "presentation": "presentation", "spreadsheet": "spreadsheet", "chart": "chart", "image": "image"}
NS = {"office": "urn:oasis:names:tc:opendocument:xmlns:office:1.0", "text": "urn:oasis:names:tc:opendocument:xmlns:text:1.0",
      "table": "urn:oasis:names:tc:opendocument:xmlns:table:1.0", "draw": "urn:oasis:names:tc:opendocument:xmlns:drawing:1.0",
      "style": "urn:oasis:names:tc:opendocument:xmlns:style:1.0", "meta": "urn:oasis:names:tc:opendocument:xmlns:meta:1.0",
      "dc": "http://purl.org/dc/elements/1.1/", "manifest": "urn:oasis:names:tc:opendocument:xmlns:manifest:1.0", "x": "urn:x-unknown"}
OLD = "2001-02-03T04:05:06"


def Q(s):
    p, n = s.split(":")
    return "{%s}%s" % (NS[p], n)


def raw(s):
    return codecs.decode(s, "unicode_escape")


def bodytag(kind):
    v = KINDS[kind].split("-")[0]
    return Q("office:" + BODY.get(v, v))


def group(kind):
    return {"ods": "sheet", "ots": "sheet", "odg": "page", "otg": "page", "odp": "page", "otp": "page"}.get(kind, "text")


PART = {}


def part(token):
    """bytes of a package part that is no text"""
    if token == "d":
        return b""
    if token == "xml":
        data = b'\xef\xbb\xbf<?xml version="1.0"?>\r\n<office:document-content xmlns:office="urn:oasis:names:tc:opendocument:xmlns:office:1.0">\n <x/>  </office:document-content>\n'
    elif token == "utf":
        data = u"\u20ac \xe4\r\n".encode("utf-16")
    else:
        data = b"".join(hashlib.sha256(b"%s%d" % (token.encode(), i)).digest() for i in range({"big": 600, "huge": 9000}.get(token, 1 + len(token) % 3))) + b"\x00\xff<&>\r\n" + token.encode()
    PART[data] = token
    return data


def unpart(data):
    return "d" if data == b"" else PART.get(data, "?%d:%s" % (len(data), hashlib.md5(data).hexdigest()[:6]))


# ------------------------------------------------------------- writing fixtures
def el(parent, tag, text=None, **at):
    e = etree.SubElement(parent, Q(tag))
    for k, v in at.items():
        e.set(Q(k.replace("__", ":").replace("_", "-")), v)
    e.text = text
    return e


ONLY = "urn:only-in-values"     # a prefix that stands in values only


def item(parent, kind, token):
    g, t = group(kind), raw(token)
    if g == "sheet":
        s = el(parent, "table:table", table__name=t)
        el(s, "table:table-column")
        c = el(el(s, "table:table-row"), "table:table-cell", office__value_type="string", office__string_value=t)
        el(c, "text:p", t)
    elif g == "page":
        el(parent, "draw:page", draw__name=t)
    else:
        p = last = el(parent, "text:p")
        for ch in t:
            e = {"\t": "text:tab", "\n": "text:line-break", "\v": "text:s"}.get(ch)
            if e:
                last = el(p, e)
            elif last is p:
                p.text = (p.text or "") + ch
            else:
                last.tail = (last.tail or "") + ch


def fixture_trees(c):
    cont, kind, unk = c["cont"], c["kind"], c["unk"]
    content = etree.Element(Q("office:document-content"), nsmap=dict(NS, only=ONLY))
    styles = etree.Element(Q("office:document-styles"), nsmap=NS)
    meta = etree.Element(Q("office:document-meta"), nsmap=NS)
    el(content, "office:automatic-styles")
    body = etree.SubElement(el(content, "office:body"), bodytag(kind))
    if cont["uf"]:
        el(el(body, "text:user-field-decls"), "text:user-field-decl", text__name="u", office__value_type="string", office__string_value=raw(cont["uf"]))
    for t in cont["body"]:
        item(body, kind, t)
    if "attr" in unk:
        body.set(Q("x:attr"), "keep")
        body.set(Q("x:type"), "only:name")
    if "content" in unk:
        el(el(content, "x:foo", x__a="1"), "x:bar", "keep me ").tail = " tail"
    st = el(styles, "office:styles")
    for t in cont["sty"]:
        el(st, "style:style", style__name=raw(t), style__family="paragraph")
    if "styles" in unk:
        el(styles, "x:sty", "keep", x__b="2")
    m = el(meta, "office:meta")
    el(m, "meta:generator", "fixture")
    if cont["title"] or len(cont["body"]) == 1:      # an empty title is none
        el(m, "dc:title", raw(cont["title"]))
    for t in cont["keys"]:
        el(m, "meta:keyword", raw(t))
    el(m, "meta:creation-date", OLD)
    el(m, "dc:date", OLD)
    if c["meta"]["cyc"] != -1:
        el(m, "meta:editing-cycles", ["many", "3 times", "1,000", "12a", "-"][(len(c["ext"]) + len(c["cont"]["body"])) % 5] if c["meta"]["cyc"] == -2 else str(c["meta"]["cyc"]))
    if "user" in unk:
        el(m, "meta:user-defined", "kept", meta__name="mine")
    if "meta" in unk:
        el(m, "x:met", "keep", x__c="3")
    return content, styles, meta


def xmlbytes(e, encoding="UTF-8"):
    if encoding != "UTF-8":     # also what may stand in front of and behind the root element
        e.addprevious(etree.ProcessingInstruction("pi", "in front"))
        e.addnext(etree.Comment("behind"))
        return etree.tostring(e.getroottree(), xml_declaration=True, encoding=encoding, doctype='<!DOCTYPE office:x [<!ENTITY e "x">]>')
    return etree.tostring(e, xml_declaration=True, encoding="UTF-8")


class Pipe(object):
    """written without seeking: the sizes of the parts stand behind their data"""
    def __init__(self, b):
        self.write, self.flush, self.close = b.write, b.flush, lambda: None


def fixture(c, lay):
    if c["type"].startswith("junk:"):
        return ("junk " + c["type"][5:]).encode() if c["type"] != "junk:" else b""
    content, styles, meta = fixture_trees(c)
    if c["type"] == "flat":
        root = etree.Element(Q("office:document"), nsmap=dict(NS, only=ONLY))
        root.set(Q("office:mimetype"), MIME[c["kind"]])
        for e in list(meta) + [x for x in styles if x.tag == Q("office:styles")] + list(content) + [x for x in styles if x.tag != Q("office:styles")]:
            root.append(e)
        return xmlbytes(root, "UTF-16" if lay == "encoded" else "UTF-8")
    man = etree.Element(Q("manifest:manifest"), nsmap={"manifest": NS["manifest"]})
    ent = lambda p, t: el(man, "manifest:file-entry", manifest__full_path=p, manifest__media_type=t)
    if lay == "bare":           # further entries first, the managed parts are not listed at all
        for p, t in c["man"][:1]:
            ent(raw(p), t)
    if lay == "rootlast":       # what the document is stands at the end of the manifest
        el(man, "x:other", x__a="1")
        man.append(etree.Comment(" the document comes last "))
    elif lay != "untyped":
        ent("/", MIME[c["kind"]])
        if lay == "versioned":
            man[-1].set(Q("manifest:version"), "1.2")
    if lay == "versioned":
        for p, t in (("content.xml", "application/xml"), ("styles.xml", ""), ("meta.xml", "text/xml")):
            el(man, "manifest:file-entry", manifest__full_path=p, manifest__media_type=t, manifest__version="1.2").set(Q("manifest:size"), "77")
    elif lay == "typeless":       # entries with other media types, and one of them twice as long
        for p, t in (("content.xml", ""), ("META-INF/manifest.xml", "text/xml"), ("styles.xml", "application/xml"), ("meta.xml", "text/html"), ("mimetype", "text/plain")):
            ent(p, t)
    elif lay != "bare":
        for p in ("content.xml", "styles.xml", "meta.xml"):
            ent(p, "text/xml")
    for p, t in c["man"][1 if lay == "bare" else 0:]:
        ent(raw(p), t)
    if lay == "rootlast":
        ent("/", MIME[c["kind"]])
    b = io.BytesIO()
    z = zipfile.ZipFile(Pipe(b) if lay == "piped" else b, "w")

    def add(name, data, how=zipfile.ZIP_DEFLATED):
        zi = zipfile.ZipInfo(name, (2001, 2, 3, 4, 5, 6))
        zi.compress_type = how
        z.writestr(zi, data)
    if lay not in ("late", "nomime", "rootlast", "untyped"):
        add("mimetype", MIME[c["kind"]], zipfile.ZIP_STORED)
    if lay == "twice":          # older versions of some parts are still stored (the last entry of a name counts)
        warnings.simplefilter("ignore")
        for n in [raw(n) for n, t in c["ext"] if not n.endswith("/")][:2] + ["content.xml", "meta.xml"]:
            add(n, b"<outdated/>")
    for i, (n, t) in enumerate(c["ext"]):
        if i % 2:
            add(raw(n), part(t), zipfile.ZIP_BZIP2 if lay == "piped" else zipfile.ZIP_STORED if i % 4 == 1 else zipfile.ZIP_DEFLATED)
    for n, e, enc in (("content.xml", content, "UTF-16"), ("meta.xml", meta, "US-ASCII"), ("styles.xml", styles, "ISO-8859-1")):
        add(n, xmlbytes(e, enc if lay == "encoded" else "UTF-8"))
    for i, (n, t) in enumerate(c["ext"]):
        if not i % 2:
            add(raw(n), part(t))
    if lay == "late":
        add("mimetype", MIME[c["kind"]])
    if lay != "noman":
        add("META-INF/manifest.xml", xmlbytes(man))
    if lay == "piped":
        z.comment = b"a comment"
    z.close()
    return b.getvalue()


# ------------------------------------------------------------- richer content
MARK = "{urn:x-unknown}rich"
WORDS = ["", " ", "a", "a  b", "\r", "a\r\nb", "\t", "  x\n", "\xe4\u20ac", "\U0001f600", "e\u0301", "<b>&amp;\"'", "]]>", "\xa0", "\u2028", "\x85", "0", "x" * 3000]


def dump(e, top=True, ns=False):
    """everything an element holds, read by lxml alone; with ns also what the prefixes in values stand for"""
    if not isinstance(e.tag, str):
        d = [e.tag.__name__, getattr(e, "target", ""), e.text or ""]
    else:
        d = [e.tag, sorted(e.attrib.items()), e.text or "", [dump(x, False, ns) for x in e]]
        if ns:
            d.append([e.nsmap.get(v.split(":")[0]) for k, v in d[1] if ":" in v])
    return d if top else d + [e.tail or ""]


def markup(e, r, depth=2):
    """foreign markup, mixed content, comments and processing instructions inside e"""
    for _ in range(r.randint(1, 3)):
        k = r.randrange(5)
        x = etree.Comment(" c - <") if k == 0 else etree.ProcessingInstruction("pi", "d > &") if k == 1 else \
            etree.Element(r.choice(["{urn:x-unknown}thing", "{urn:other}y", Q("text:note"), Q("office:annotation")]), nsmap={"x": "urn:x-unknown", "o": "urn:other"})
        if k > 1:
            x.set(r.choice(["{urn:x-unknown}a", "{urn:other}b", "plain", "{http://www.w3.org/XML/1998/namespace}space"]), r.choice(WORDS + ["default", "a\nb"]))
            x.text = r.choice(WORDS)
            if depth:
                markup(x, r, depth - 1)
        x.tail = r.choice(WORDS)
        e.append(x)


def rich_table(name, r):
    t = Table(name, size=(r.randint(1, 4), r.randint(1, 4)))
    for pos, c in list(t.itercells()):
        k = r.randrange(8)
        if k == 0:
            c.set_value(r.choice([1.5, -0.0, 1e300, 7, 2 ** 60]))
        elif k == 1:
            c.set_value(r.random() < 0.5)
        elif k == 2:
            c.set_value(r.random(), currency=r.choice(["EUR", "\xa3"]))
        elif k == 3:
            c.set_value("2001-02-03", "date")
        elif k == 4:
            c.formula = r.choice(['of:=SUM([.A1:.B2])', 'of:="<" & ">"', "="])
        elif k == 5:
            c.set_value(r.choice(WORDS))
        elif k == 6:
            markup(c.xmlnode, r)
    if t.nrows() > 1 and r.random() < 0.5:
        t.set_cell_span((1, 0), (1, t.ncols()))
    t.row_info(0).style_name = "ro1"
    t.column_info(-1).visibility = "collapse"
    return t


def rich_item(kind, seed):
    r, g = random.Random("%s %s" % (kind, seed)), group(kind)
    if g == "sheet":
        w = rich_table("rich %d" % seed, r)
    elif g == "page":
        w = DrawingPage("rich %d" % seed)
        for _ in range(2):
            markup(el(el(w.xmlnode, "draw:frame", draw__name=r.choice(["f", "\xe4"])), "draw:text-box"), r)
    else:
        w = Section("rich %d" % seed, style_name="s")
        for _ in range(r.randint(1, 4)):
            k = r.randrange(6)
            x = Heading(r.choice(WORDS), outline_level=r.randint(1, 4)) if k == 0 else Paragraph(r.choice(WORDS), style_name="p1") if k == 1 else \
                ezlist([r.choice(WORDS), "x", r.choice(WORDS)], header="h") if k == 2 else NumberedParagraph(Paragraph("n")) if k == 3 else \
                rich_table("t", r) if k == 4 else Paragraph()
            if k in (0, 1, 5):
                for _ in range(r.randint(0, 3)):
                    x.append(r.choice([lambda: Span(r.choice(WORDS)), lambda: Hyperlink("http://x/?a=1&b=\xe4", r.choice(WORDS))])())
                    x.append_text(r.choice(WORDS))
            if k == 5:
                markup(x.xmlnode, r)
            if k == 2:
                x[-1].append(ezlist(["nested"]))
            w.append(x)
    w.xmlnode.set(MARK, str(seed))
    return w


# --------------------------------------------------------------------- reading
def read_rich(body, kind, known):
    return [("r%s" if known.get((group(kind), e.get(MARK))) == dump(e) else "!r%s") % e.get(MARK) for e in body.iter() if e.get(MARK)]


def text_of(p):
    out = p.text or ""
    for e in p:
        if e.tag == Q("text:s"):
            out += " " * int(e.get(Q("text:c"), "1"))
        elif e.tag == Q("text:tab"):
            out += "\t"
        elif e.tag == Q("text:line-break"):
            out += "\n"
        else:
            out += text_of(e)
        out += e.tail or ""
    return out


def read_body(body, kind):
    out, uf = [], ""
    for e in body:
        if e.get(MARK):
            continue
        if e.tag == Q("text:p"):
            out.append(esc(text_of(e)))
        elif e.tag == Q("draw:page"):
            out.append(esc(e.get(Q("draw:name"))))
        elif e.tag == Q("table:table"):
            n = e.get(Q("table:name"))
            c = next(e.iter(Q("table:table-cell")))
            v = c.get(Q("office:string-value"))
            if v is None:
                v = "\n".join(text_of(p) for p in c.findall(Q("text:p")))
            out.append(esc(n) if v == n else esc(n) + "!" + esc(v))
        elif e.tag == Q("text:user-field-decls"):
            for d in e:
                uf += esc(d.get(Q("office:string-value"))) if d.get(Q("text:name")) == "u" else "!" + str(d.get(Q("text:name")))
    return out, uf


def read_meta(m):
    g = lambda t: [esc(e.text or "") for e in m.findall(Q(t))]
    one = lambda l: "" if not l else l[0] if len(l) == 1 else "!several"
    cyc = one(g("meta:editing-cycles"))
    return {"title": one(g("dc:title")), "keys": g("meta:keyword"), "cyc": int(cyc) if cyc.lstrip("-").isdigit() else -1 if cyc == "" else -2,
            "gen": one(g("meta:generator")), "date": one(g("dc:date")), "born": one(g("meta:creation-date"))}


STYLE = [[Q("style:text-properties"), [("{urn:oasis:names:tc:opendocument:xmlns:xsl-fo-compatible:1.0}color", "#ff0000")], "", [], ""]]


def style_name(e):
    d = dump(e)
    return esc(e.get(Q("style:name"))) + ("" if d[2:] in (["", []], ["", STYLE]) and len(d[1]) == 2 else "!")


def read_trees(content, styles, meta, known):
    """content: element holding office:body ...; the three may be one"""
    v = {"unk": []}
    bodies = content.find(Q("office:body"))
    body = bodies[0]
    v["bodytag"] = body.tag if len(bodies) == 1 else "several"
    v["body"], v["uf"] = read_body(body, None)
    sts = styles.findall(Q("office:styles"))
    v["sty"] = [style_name(e) for s in sts for e in s]
    v["rich"] = read_rich(body, next((k for k in KINDS if bodytag(k) == body.tag), "odt"), known)
    ms = meta.findall(Q("office:meta"))
    if len(ms) != 1:
        raise ValueError("%d office:meta" % len(ms))
    v.update(read_meta(ms[0]))
    if body.get(Q("x:attr")) == "keep" and body.get(Q("x:type")) == "only:name" and body.nsmap.get("only") == ONLY:
        v["unk"].append("attr")
    foo = content.findall(Q("x:foo"))
    if len(foo) == 1 and foo[0].get(Q("x:a")) == "1" and len(foo[0]) == 1 and foo[0][0].text == "keep me " and foo[0][0].tail == " tail":
        v["unk"].append("content")
    met = ms[0].findall(Q("x:met"))
    if len(met) == 1 and met[0].text == "keep" and met[0].get(Q("x:c")) == "3":
        v["unk"].append("meta")
    sty = styles.findall(Q("x:sty"))
    if len(sty) == 1 and sty[0].text == "keep" and sty[0].get(Q("x:b")) == "2":
        v["unk"].append("styles")
    us = [(e.get(Q("meta:name")), e.text) for e in ms[0].findall(Q("meta:user-defined"))]
    if us == [("mine", "kept")]:
        v["unk"].append("user")
    elif us:
        v["unk"].append("user?")
    return v


CORE = ("mimetype", "content.xml", "styles.xml", "meta.xml", "META-INF/manifest.xml")


def read_file(data, known={}):
    """the view of one file: what is in there, and what is wrong with it"""
    if data[:2] != b"PK":
        if not data:
            return {"type": "junk:"}
        if data[:5] == b"junk ":
            return {"type": "junk:" + data[5:].decode()}
        try:
            root = etree.fromstring(data)
            v = read_trees(root, root, root, known)
            mime = root.get(Q("office:mimetype"))
            bad = [] if root.tag == Q("office:document") else ["root"]
            v.update(type="flat", kind=KIND.get(mime, "?" + str(mime)), ext=[], man=[], wf=bad)
            if v["bodytag"] != bodytag(v["kind"]):
                v["kind"] += "!" + v["bodytag"]
            return v
        except Exception as e:
            return {"type": "broken:" + type(e).__name__}
    bad = []
    try:
        z = zipfile.ZipFile(io.BytesIO(data))
        names = z.namelist()
        if z.testzip() is not None:
            bad.append("crc")
    except Exception as e:
        return {"type": "broken:" + type(e).__name__}
    if len(set(names)) != len(names):
        bad.append("duplicate parts")
    for n in CORE:
        if n not in names:
            bad.append("no " + n)
    try:
        mime = z.read("mimetype").decode() if "mimetype" in names else ""
        first = z.infolist()[0]
        if first.filename != "mimetype" or first.compress_type != zipfile.ZIP_STORED or data[30:38 + len(mime)] != b"mimetype" + mime.encode() \
                or struct.unpack("<HH", data[26:30]) != (8, 0):
            bad.append("mimetype entry")
        man, roots = [], {}
        if "META-INF/manifest.xml" in names:
            m = etree.fromstring(z.read("META-INF/manifest.xml"))
            es = [(e.get(Q("manifest:full-path")), e.get(Q("manifest:media-type"))) for e in m if e.tag == Q("manifest:file-entry")]
            if len(set(p for p, t in es)) != len(es):
                bad.append("manifest lists a path twice")
            d = dict(es)
            if d.get("/") != mime and mime:
                bad.append("manifest /")
            for n in CORE[1:4]:
                if d.get(n) != "text/xml":
                    bad.append("manifest " + n)
            man = sorted([esc(p), t or ""] for p, t in es if p not in CORE + ("/",))
            if not mime:
                mime = d.get("/")
        for n in CORE[1:4]:
            roots[n] = etree.fromstring(z.read(n))
        v = read_trees(roots["content.xml"], roots["styles.xml"], roots["meta.xml"], known)
        ext = sorted([esc(i.filename), unpart(z.read(i))] for i in z.infolist() if i.filename not in CORE and z.getinfo(i.filename) is i)
        v.update(type="pkg", kind=KIND.get(mime, "?" + str(mime)), ext=ext, man=man, wf=bad)
        if v["kind"] in KINDS and v["bodytag"] != bodytag(v["kind"]):
            v["kind"] += "!" + v["bodytag"]
        return v
    except Exception as e:
        return {"type": "broken:" + type(e).__name__ + esc(str(e))[:60]}


NOCONT = {"body": [], "sty": [], "title": "", "keys": [], "uf": "", "rich": []}
NOMETA = {"cyc": -1, "gen": "", "date": "", "born": ""}


def meta(doc, key):
    try:
        return doc.meta[key] or ""
    except KeyError:
        return ""


class Listener(object):
    def __init__(self, a, d, w):
        self.a, self.d, self.w = a, d, w
        self.doc = a.docs[d]

    def get_xmlroot(self):
        return self.doc.body.get_xmlroot()

    def on_prepare_saving_handler(self, msg):
        self.a.note(self, "prepare")
        if self.w == "w":
            self.a.add(self.doc, "prep")

    def on_post_saving_handler(self, msg):
        self.a.note(self, "post")


class Adapter(common.Adapter):
    def __init__(self):
        self.dir = tempfile.mkdtemp(dir=os.path.abspath(os.environ.get("VERIF_WORK", ".")))
        self.away = tempfile.mkdtemp(dir=os.path.abspath(os.environ.get("VERIF_WORK", ".")))
        self.target, self.linked = os.path.realpath(tempfile.mkdtemp(dir=os.path.abspath(os.environ.get("VERIF_WORK", ".")))), {}
        self.docs, self.streams, self.listeners, self.views = {"0": None}, {}, [], {}
        self.born, self.log, self.before, self.window = set(), [], {}, None
        self.rich = {}
        self.ready = False

    def close(self):
        self.docs.clear()
        self.listeners = []
        shutil.rmtree(self.dir, ignore_errors=True)
        shutil.rmtree(self.away, ignore_errors=True)
        shutil.rmtree(self.target, ignore_errors=True)

    # -- files
    def path(self, name):
        return os.path.join(self.dir, raw(name))

    def bytes_of(self):
        out = {}
        for base, dirs, files in os.walk(self.dir):
            for f in files + [d + "/" for d in dirs]:
                p = os.path.join(base, f)
                n = esc(os.path.relpath(p, self.dir))
                if f[-1] == "/":
                    if n != "sub":
                        out[n + "/"] = b"directory"
                    continue
                with open(p, "rb") as fp:
                    out[n] = fp.read()
        for f in os.listdir(self.away):
            out["!away/" + f] = b"stray"
        for f in os.listdir(self.target):
            with open(os.path.join(self.target, f), "rb") as fp:
                if fp.read() != self.linked.get(fp.name):
                    out["!linked/" + f] = b"changed"
        for n, s in self.streams.items():
            out[n] = s.getvalue()
        return out

    def view(self, data):
        h = hashlib.sha256(data).digest()
        if h not in self.views:
            v = read_file(data, self.rich)
            if "cyc" in v:
                v["date"] = "old" if v["date"] == OLD else "fresh" if self.fresh(v["date"]) else "stale"
                v["born"] = "" if v["born"] == "" else "fix" if v["born"] == OLD else "new" if v["born"] in self.born else "other"
                v["gen"] = "" if v["gen"] == "" else "fix" if v["gen"] == "fixture" else "lib" if "ezodf" in v["gen"] else "other"
            self.views[h] = v
        return self.views[h]

    def fresh(self, text):
        if self.window is None:
            return False
        try:
            t = datetime.datetime.fromisoformat(text)
            if t.tzinfo is not None:
                t = t.astimezone().replace(tzinfo=None)
            return self.window[0] <= t <= datetime.datetime.now()
        except ValueError:
            return False

    @staticmethod
    def cont(v):
        return dict((k, v[k]) for k in NOCONT) if "body" in v else dict(NOCONT)

    def project(self):
        if not self.ready:
            return {}
        z = {"ftype": {"0": ""}, "fcont": {"0": NOCONT}, "fkind": {"0": ""}, "fext": {"0": []}, "funk": {"0": []}, "fman": {"0": []}, "fwf": {"0": []},
             "fmeta": {"0": NOMETA}, "mem": {"0": NOCONT}, "mmeta": {"0": {"cyc": -1, "gen": "", "born": ""}}, "mkind": {"0": ""}, "mname": {"0": ""}}
        for n, data in self.bytes_of().items():
            v = self.view(data)
            z["ftype"][n] = v["type"]
            z["fcont"][n] = self.cont(v)
            z["fkind"][n] = v.get("kind", "")
            for k in ("ext", "unk", "man", "wf"):
                z["f" + k][n] = v.get(k, [])
            if data in self.made:       # fixtures need not be well-formed packages
                z["fwf"][n] = []
            if data in self.untyped:    # only its name tells what it is
                z["fwf"][n], z["fkind"][n] = self.untyped[data]
            z["fmeta"][n] = dict((k, v[k]) for k in NOMETA) if "cyc" in v else dict(NOMETA)
        for d, doc in self.docs.items():
            if doc is not None:
                z["mem"][d] = self.look(doc)
                z["mmeta"][d] = self.look_meta(doc)
                z["mkind"][d] = doc.doctype if doc.mimetype == MIME.get(doc.doctype) else "%s:%s" % (doc.doctype, doc.mimetype)
                if doc.body.xmlnode.tag != bodytag(doc.doctype):
                    z["mkind"][d] += "!" + doc.body.xmlnode.tag
                z["mname"][d] = self.name_of(doc.docname)
        return z

    def name_of(self, n):
        if not n:
            return ""
        for k, s in self.streams.items():
            if n is s:
                return k
        return esc(os.path.relpath(os.path.join(self.dir, n), self.dir)) if isinstance(n, str) else "?"

    # -- documents through the API
    def look(self, doc):
        g, body = group(doc.doctype), []
        if g == "sheet":
            for t in doc.sheets:
                if t.xmlnode.get(MARK):
                    continue
                v = t[0, 0].value
                body.append(esc(t.name) if v == t.name else esc(t.name) + "!" + esc(str(v)))
        elif g == "page":
            body = [esc(p.name) for p in doc.pages if not p.xmlnode.get(MARK)]
        else:
            body = [esc(p.plaintext()) for p in doc.body if p.kind == "Paragraph"]
        title = meta(doc, "title")
        st = doc.styles.xmlnode if doc.styles.xmlnode.tag == Q("office:styles") else doc.styles.styles.xmlnode
        try:
            uf = esc(doc.body.userfields["u"].value)
        except KeyError:
            uf = ""
        return {"body": body, "sty": [style_name(e) for e in st], "rich": read_rich(doc.body.xmlnode, doc.doctype, self.rich), "title": esc(title), "keys": [esc(k) for k in doc.meta.keywords], "uf": uf}

    def look_meta(self, doc):
        cyc, gen, born = meta(doc, "editing-cycles"), meta(doc, "generator"), meta(doc, "creation-date")
        return {"cyc": int(cyc) if cyc.isdigit() else -1 if cyc == "" else -2, "gen": "" if gen == "" else "fix" if gen == "fixture" else "lib" if "ezodf" in gen else "other",
                "born": "" if born == "" else "fix" if born == OLD else "new" if born in self.born else "other"}

    def add(self, doc, token):
        g, t = group(doc.doctype), raw(token)
        if g == "sheet":
            s = Table(t, size=(2, 2))
            s[0, 0].set_value(t)
            doc.sheets.append(s)
        elif g == "page":
            doc.pages.append(DrawingPage(t))
        else:
            doc.body.append(Paragraph(t))

    # -- operations
    def apply(self, op):
        self.window = (datetime.datetime.now(),)
        self.before = self.bytes_of() if self.ready else {}
        self.log = []
        f = getattr(self, "op_" + op["a"])
        # relative names are those of the current directory, which changes between the operations
        home = os.getcwd()
        os.chdir(self.away if op.get("away") else self.dir)
        try:
            q = f(op)
        finally:
            os.chdir(home)
        if op["a"] in ("save", "saveas", "savestream", "tobytes", "look"):
            after = self.bytes_of()
            out = {"from": {"0": "0"}, "log": self.settle(after)}
            for n, data in after.items():
                same = [m for m in sorted(self.before) if self.before[m] == data]
                first = [m for m in (n, n[:-4] if n.endswith(".bak") else n) if m in same]      # equal files: the usual origin
                out["from"][n] = (first + same + ["new"])[0]
            if q is not None:
                out["tb"] = q
            if op["a"] != "look":
                doc = self.saving
                data = self.tb if op["a"] == "tobytes" else after.get(self.name_of(doc.docname))
                out["trees"] = self.differing(doc, data)
            return "ok", out
        return "ok", []

    @staticmethod
    def differing(doc, data):
        """the parts of the file that are not what the document holds"""
        held = {"content.xml": doc.body.get_xmlroot(), "styles.xml": doc.styles.xmlnode, "meta.xml": doc.meta.xmlnode}
        try:
            if data[:2] == b"PK":
                z = zipfile.ZipFile(io.BytesIO(data))
                return [n for n in sorted(held) if dump(etree.fromstring(z.read(n)), ns=True) != dump(held[n], ns=True)]
            return [] if dump(etree.fromstring(data), ns=True) == dump(held["content.xml"], ns=True) else ["file"]
        except Exception as e:
            return [type(e).__name__]

    def note(self, listener, event):
        self.log.append((event, listener, self.bytes_of()))

    def settle(self, after):
        """before/after a prepare nothing may be written, at a post everything has to be there"""
        out = []
        for event, l, state in self.log:
            if l.doc is not self.saving:
                out.append("foreign " + event)
            elif event == "prepare":
                out.append("prepare:" + ("before" if state == self.before else "late"))
            else:
                out.append("post:" + ("complete" if state == after else "early"))
        return out

    def classify(self, op, e):
        if isinstance(e, (IOError, OSError)):
            return "rej"
        if op["a"] in ("new", "uf") and isinstance(e, KeyError):
            return "rej"
        return "crash:" + type(e).__name__

    def fingerprint(self):
        return self.bytes_of() if self.ready else None

    def op_init(self, op):
        self.ready = True
        self.made, self.untyped = set(), {}
        os.mkdir(self.path("sub"))
        for f in op["files"]:
            data = fixture(f["c"], f["lay"])
            self.made.add(data)
            if f["lay"] == "untyped":
                self.untyped[data] = [f["c"]["wf"], f["c"]["kind"]]
            p = self.path(f["n"])
            if f.get("link"):       # the name stands for a file somewhere else
                real = os.path.join(self.target, "f%d" % len(self.linked))
                os.symlink(real, p)
                self.linked[real] = data
                p = real
            with open(p, "wb") as fp:
                fp.write(data)

    def op_unlink(self, op):
        os.remove(self.path(op["f"]))

    def op_put(self, op):
        data = fixture(op["c"], op["lay"])
        self.made.add(data)
        if op.get("inplace"):       # the same inode gets another content
            with open(self.path(op["f"]), "r+b") as fp:
                fp.truncate()
                fp.write(data)
            real = os.path.realpath(self.path(op["f"]))
            if real in self.linked:
                self.linked[real] = data
        else:
            with open(self.path(op["f"]) + "~new", "wb") as fp:
                fp.write(data)
            os.rename(self.path(op["f"]) + "~new", self.path(op["f"]))

    def name(self, op, key="f"):
        return raw(op[key]) if op.get("rel") else self.path(op[key])

    def take(self, d, doc):
        self.docs[d] = doc
        self.listeners = [l for l in self.listeners if l.d != d]
        gc.collect(0)
        born = meta(doc, "creation-date")
        if self.fresh(born):
            self.born.add(born)

    def op_new(self, op):
        self.take(op["d"], ezodf.newdoc(op["k"], self.name(op) if op["f"] else "") if op.get("style") != "kw"
                  else ezodf.newdoc(doctype=op["k"], filename=self.name(op) if op["f"] else ""))

    def source(self, name, how, rel=False):
        p = raw(name) if rel else self.path(name)
        if name in self.streams:
            data = self.streams[name].getvalue()
            return data if how == "bytes" else self.streams[name] if how == "samestream" else io.BytesIO(data)
        if how == "path":
            return p
        with open(p, "rb") as f:
            data = f.read()
        return data if how == "bytes" else io.BytesIO(data)

    def op_open(self, op):
        self.take(op["d"], ezodf.opendoc(self.source(op["f"], op["how"], op.get("rel"))))

    def op_template(self, op):
        self.take(op["d"], ezodf.newdoc(filename=self.name(op) if op["f"] else "", template=self.source(op["t"], op["how"], op.get("rel"))))

    def op_edit(self, op):
        self.add(self.docs[op["d"]], op["x"])

    def op_cut(self, op):
        doc = self.docs[op["d"]]
        g = group(doc.doctype)
        if g == "sheet":
            first = [k for k, t in enumerate(doc.sheets) if not t.xmlnode.get(MARK)][:1]
            for k in first:
                del doc.sheets[k]
        elif g == "page":
            first = [k for k, t in enumerate(doc.pages) if not t.xmlnode.get(MARK)][:1]
            for k in first:
                del doc.pages[k]
        else:
            for p in doc.body:
                if p.kind == "Paragraph":
                    doc.body.remove(p)
                    break

    def op_title(self, op):
        self.docs[op["d"]].meta["title"] = raw(op["x"])

    def op_clear(self, op):
        self.docs[op["d"]].meta.clear()

    def op_rich(self, op):
        doc = self.docs[op["d"]]
        w = rich_item(doc.doctype, op["n"])
        self.rich[group(doc.doctype), str(op["n"])] = dump(w.xmlnode)
        where = {"sheet": lambda: doc.sheets, "page": lambda: doc.pages}.get(group(doc.doctype), lambda: doc.body)()
        where.append(w)
        doc.meta["description"] = WORDS[op["n"] % len(WORDS)]
        doc.meta.count["page"] = op["n"]

    def op_style(self, op):
        n = raw(op["x"]).replace("&", "&amp;").replace("<", "&lt;").replace('"', "&quot;")
        self.docs[op["d"]].inject_style('<style:style style:name="%s" style:family="paragraph">%s</style:style>' % (n, '<style:text-properties fo:color="#ff0000"/>' if len(op["x"]) % 2 else ""))

    def op_key(self, op):
        self.docs[op["d"]].meta.keywords.add(raw(op["x"]))

    def op_uf(self, op):
        self.docs[op["d"]].body.userfields["u"] = raw(op["x"])

    def op_backup(self, op):
        self.docs[op["d"]].backup = op["b"]

    def op_listen(self, op):
        l = Listener(self, op["d"], op["w"])
        observer.subscribe("prepare_saving", l)
        observer.subscribe("post_saving", l)
        self.listeners.append(l)

    def op_save(self, op):
        self.saving = self.docs[op["d"]]
        self.saving.save()

    def op_saveas(self, op):
        self.saving = self.docs[op["d"]]
        self.saving.saveas(self.name(op))

    def op_savestream(self, op):
        self.saving = self.docs[op["d"]]
        s = io.BytesIO()
        self.streams[op["f"]] = s
        self.before[op["f"]] = b""
        try:
            self.saving.saveas(s)
        except Exception:
            del self.streams[op["f"]]
            raise

    def op_look(self, op):
        return None

    def op_tobytes(self, op):
        doc = self.saving = self.docs[op["d"]]
        state = meta(doc, "date"), meta(doc, "generator")
        data = self.tb = doc.tobytes()
        v = read_file(data, self.rich)
        out = {"type": v["type"], "cont": self.cont(v), "kind": v.get("kind", ""), "cyc": v.get("cyc", -9),
               "born": "" if v.get("born") == "" else "fix" if v.get("born") == OLD else "new" if v.get("born") in self.born else "other"}
        for k in ("ext", "unk", "man", "wf"):
            out[k] = v.get(k, [])
        if (meta(doc, "date"), meta(doc, "generator")) != state or v.get("date") != esc(state[0]):
            out["born"] += " date changed"
        return out


# ------------------------------------------------------------------ random histories
BLANK = ["\\t \\t", " ", "\\n", "\\t\\n\\n", "  ", " a  b ", "\\t\\t", "x\\n \\ny"]         # white space (paragraphs only)
TOK = ["a", "b", "long text", "\\xe4\\xf6", "\\u20ac", "<&>\"'", "x=1", "\\U0001f600", "0", "]]>"]
NAMES = ["a.odt", "b.ods", "c", "d e.xml", "\\xe9.odt", "sub/x.odt", "a.odt.bak", "noext.", "UPPER.ODT"]
XN = ["Pictures/", "Pictures/1.png", "settings.xml", "Thumbnails/thumbnail.png", "Object 1/content.xml", "Object 1/", "\\xe9\\u20ac.bin", "META-INF/documentsignatures.xml",
      "Configurations2/", "content.xml.old", "a/b/c/d", "MIMETYPE", "Basic/script-lc.xml", "layout-cache", "meta", "x y", "Content.xml", "META.XML", "Object 1/styles.xml", "Object 1/mimetype", "dir/meta.xml", "Pictures/../a.png", "x\\\\y", "meta.xml/", "styles.xml.bak", "mimetype.txt", "META-INF/", "META-INF/manifest.rdf", "-", "%20", ".hidden", "Pictures/.x", "/styles.xml", "./content.xml"]


class Driver(object):
    def __init__(self, rng, n, par):
        self.rng, self.k, self.mgr, self.ns, self.untyped = rng, 0, {}, 0, None
        self.siblings = set()
        self.junk = {"type": "junk:", "cont": NOCONT, "kind": "", "ext": [], "unk": [], "man": [], "wf": [], "meta": dict(NOMETA)}

    def cont(self, kind):
        r = self.rng
        toks = [t for t in TOK if t not in ("<&>\"'",)] if group(kind) == "sheet" else TOK
        toks = toks + BLANK if group(kind) == "text" else toks
        return {"body": [r.choice(toks) for _ in range(r.choice([0, 1, 2, 4]))], "sty": r.sample(TOK[:6], r.randint(0, 2)), "title": r.choice(["", "T", "\\xe4 <t>"]), "rich": [],
                "keys": r.sample(TOK, r.randint(0, 2)), "uf": r.choice(["", "v", "\\xe4"])}

    def file(self, n):
        r = self.rng
        k = r.random()
        junk = dict(self.junk, type="junk:" + r.choice(["x", "y z", ""]))
        if k < 0.12:
            return {"n": n, "c": junk, "lay": ""}
        flat = k < 0.3
        kind = r.choice(["odt", "ods", "odp", "odg", "odt", "ods"]) if flat else r.choice(["odt", "odt", "ods", "ods", "ott", "ots", "otg", "otp", "odg", "odp", "odc", "odi", "otc", "oti", "odm", "oth"])
        ext = [] if flat else sorted([x, "d" if x.endswith("/") else r.choice(["p", "q", "rr", "sss", "d", "xml", "utf", "big"] + ["huge"] * (r.random() < 0.1))] for x in r.sample(XN, r.choice([0, 1, 2, 5, 9])))
        man = sorted([x, r.choice(["", "image/png", "text/xml"])] for x in set(r.sample(XN, r.choice([0, 0, 1, 3])) + [e[0] for e in ext if r.random() < 0.5]) if not x.startswith("META-INF"))
        lay = r.choice(["", "", "encoded"]) if flat else r.choice(["std", "std", "std", "late", "nomime", "noman", "bare", "typeless", "versioned", "rootlast", "piped", "twice", "encoded"])
        if lay == "noman":
            man = []
        c = {"type": "flat" if flat else "pkg", "cont": self.cont(kind), "kind": kind, "ext": ext, "man": [] if flat else man, "wf": [],
             "unk": sorted(r.sample(["attr", "content", "meta", "styles", "user"], r.choice([0, 2, 5]))),
             "meta": {"cyc": r.choice([-1, -2, 0, 1, 9, 99, 12345]), "gen": "fix", "date": "old", "born": "fix"}}
        return {"n": n, "c": c, "lay": lay, "link": r.random() < 0.12}

    def next(self, s, last):
        r = self.rng
        if last is None:
            names = r.sample([n for n in NAMES if "/" not in n], r.randint(1, 4)) + (["t.ott"] if r.random() < 0.6 else [])
            files = [self.file(n) for n in names]
            for n in r.sample([n for n in NAMES if "/" not in n], 3):       # names a save must not take for its own
                for x in {os.path.splitext(n)[0] + ".tmp", os.path.splitext(n)[0] + ".bak", n + ".tmp", n + "~", n + ".new"} - {f["n"] for f in files}:
                    if r.random() < 0.3:
                        self.siblings.add(x)
                        files.append({"n": x, "c": dict(self.junk, type="junk:%d" % len(files)), "lay": ""})
            for f in files[:1]:
                c = f["c"]
                if c["type"] == "pkg" and f["lay"] == "std" and r.random() < 0.4:
                    f["lay"], f["n"] = "untyped", r.choice(["p q.", "p.q r.", ".p.", "p.ods.", "odt.", "p.bak."]) + c["kind"]
                    c["wf"] = ["untyped", f["n"]]
                    self.untyped = f["n"]
            return {"a": "init", "files": files}
        if "ftype" not in s:
            return None
        files = [n for n in s["ftype"] if n != "0" and n not in self.siblings]
        docs = [d for d in s["mem"] if d != "0"]
        if last["r"] == "ok" and last["o"]["a"] in ("new", "open", "template"):
            o = last["o"]
            t = o.get("f") if o["a"] == "open" else o.get("t")
            self.mgr[o["d"]] = "flat" if o["a"] == "open" and s["ftype"].get(t) == "flat" else o.get("how", "path")
        a = r.choice(["new", "open", "open", "open", "template"] + ["edit"] * 4 + ["rich"] * 2 + ["cut", "title", "clear", "style", "key", "uf", "backup", "listen", "listen"]
                     + ["save"] * 4 + ["saveas"] * 4 + ["savestream", "tobytes", "tobytes", "look"]) if docs else r.choice(["new", "open", "open", "template"])
        op = {"a": a}
        plain = [n for n in files if n[0] not in "~!"]
        if docs and plain and r.random() < 0.08:        # another program
            n = r.choice(plain)
            if r.random() < 0.5:
                return {"a": "unlink", "f": n}
            if n != self.untyped:
                f = self.file(n)
                return {"a": "put", "f": n, "c": f["c"], "lay": f["lay"], "inplace": r.random() < 0.5}
        op["rel"] = a in ("new", "open", "template", "saveas") and r.random() < 0.4
        op["away"] = a in ("tobytes", "savestream", "saveas", "edit", "title") and not op["rel"] and r.random() < 0.4
        if a in ("new", "open", "template"):
            op["d"] = r.choice("123")
            if a == "new":
                op["k"] = r.choice([k for k in KINDS if k not in ("odf", "otf")])
            if a in ("new", "template"):
                op["f"] = r.choice(["", "", "new.odt"])
            if a != "new":
                n = r.choice(files + ["missing"]) if r.random() < 0.9 else "missing"
                op["f" if a == "open" else "t"] = n
                if s["fwf"].get(n) and n != self.untyped:
                    return {"a": "look"}
                pkg = s["ftype"].get(n) == "pkg" and not s["fwf"].get(n)
                op["how"] = r.choice(["path", "path", "bytes", "stream"]) if pkg else "path"
                if n[0] == "~":
                    op["how"] = r.choice(["bytes", "stream", "samestream"])
            return op
        d = op["d"] = r.choice(docs)
        if a in ("edit", "title", "style", "key", "uf"):
            op["x"] = r.choice(TOK)
            if a == "edit" and group(s["mkind"][d]) == "text" and r.random() < 0.5:
                op["x"] = r.choice(BLANK)
            if a == "edit" and s["mkind"][d] in ("ods", "ots") and op["x"] in ("<&>\"'",):
                op["x"] = "<&>"
            if a == "style":
                op["x"] = r.choice(TOK[:6])
        if a == "rich":
            op["n"] = r.randint(1, 9999)
        if a == "backup":
            op["b"] = r.random() < 0.4
        if a == "listen":
            op["w"] = r.choice("rrw")
        if a in ("save", "saveas"):
            if a == "saveas":
                pool = [n for n in files if n[0] != "~"]
                op["f"] = r.choice(pool) if pool and r.random() < 0.5 else "nodir/x.odt" if r.random() < 0.06 else r.choice(NAMES)
            t = op.get("f") or s["mname"][d]
            if t[:1] == "~":
                return {"a": "look"}
        if a == "savestream":
            if self.mgr.get(d) == "flat":
                return {"a": "save", "d": d} if s["mname"][d] else {"a": "look"}
            self.ns += 1
            op["f"] = "~%d" % self.ns
        if a == "look":
            op.pop("d")
        return op
