"""Parts registered with the file manager of a document (C33)."""
import io, os, shutil, tempfile, zipfile
import common
from common import esc
from lxml import etree
if common.ezodf:
    import ezodf
ALWAYS_FRESH = False
M = "{urn:oasis:names:tc:opendocument:xmlns:manifest:1.0}"
NAMES = ["Pictures/a.png", "Pictures/A.png", "Pictures/a", "settings.xml", "Object 1/content.xml", "Thumbnails/thumbnail.png", "\\xe9/b c.bin", "content.xml.bak"]
MANAGED = ["mimetype", "META-INF/manifest.xml", "content.xml", "styles.xml", "meta.xml"]
DATA = {"bin": bytes(bytearray(range(256))), "zip": b"PK\3\4" + b"\0" * 40, "big": b"0123456789" * 9000, "": b"", "xml": b"<?xml version='1.0'?>\n<x/>", "nl": b"a\r\nb\rc\n"}
MIME = dict((k, "application/vnd.oasis.opendocument." + v) for k, v in (("odt", "text"), ("ods", "spreadsheet"), ("odp", "presentation"), ("odg", "graphics")))


def raw(x):
    return x.encode("ascii").decode("unicode_escape")


def data(c):
    return DATA[c] if c in DATA else raw(c).encode("utf-8")


def told(b):
    for k, v in DATA.items():
        if v == b:
            return k
    try:
        return esc(b.decode("utf-8"))[:60]
    except UnicodeDecodeError:
        return "?%r" % b[:30]


class Live(object):
    """knows its content when asked, like the documents' own parts"""
    def __init__(self, c):
        self.c = c

    def tobytes(self, xml_declaration=False):
        return data(self.c)


def view(b, kind):
    bad = []
    z = zipfile.ZipFile(io.BytesIO(b))
    names = [i.filename for i in z.infolist()]
    if z.testzip() is not None:
        bad.append("broken")
    if len(set(names)) != len(names):
        bad.append("twice")
    first = z.infolist()[0]
    if first.filename != "mimetype" or first.compress_type or z.read("mimetype") != MIME[kind].encode():
        bad.append("mimetype")
    for n in MANAGED:
        if n not in names:
            bad.append("no " + n)
        elif n.endswith(".xml"):
            etree.fromstring(z.read(n))
    if [n for n in names if n not in MANAGED and n not in [raw(x) for x in NAMES]]:
        bad.append("others")
    es = [(e.get(M + "full-path"), e.get(M + "media-type")) for e in etree.fromstring(z.read(MANAGED[1])) if e.tag == M + "file-entry"]
    man = dict(es)
    if len(man) != len(es) or man.get("/") != MIME[kind] or any(man.get(n) != "text/xml" for n in MANAGED[2:]):
        bad.append("manifest")
    return {"part": [told(z.read(raw(n))) if raw(n) in names else "#none" for n in NAMES],
            "man": [esc(man[raw(n)] or "") if raw(n) in man else "#none" for n in NAMES], "bad": bad}


class Adapter(common.Adapter):
    def __init__(self):
        self.dir = tempfile.mkdtemp(dir=os.environ.get("VERIF_WORK", "."))
        self.doc, self.live, self.n = None, {}, 0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def fingerprint(self):
        return None if self.doc is None else self.project()

    def project(self):
        if self.doc is None:
            return {}
        v = view(self.doc.tobytes(), self.kind)
        v["live"] = [i + 1 in self.live for i in range(len(NAMES))]
        return v

    def path(self):
        self.n += 1
        return os.path.join(self.dir, "d%d.%s" % (self.n, self.kind))

    def source(self, b, how):
        if how == "stream":
            return io.BytesIO(b)
        if how == "path":
            p = self.path()
            with open(p, "wb") as f:
                f.write(b)
            return p
        return b

    def op_new(self, op):
        self.kind, self.live = op["k"], {}
        self.doc = ezodf.newdoc(op["k"])

    def op_open(self, op):
        self.kind, self.live = op["k"], {}
        b = io.BytesIO()
        src = zipfile.ZipFile(io.BytesIO(ezodf.newdoc(op["k"]).tobytes()))
        with zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED) as z:
            for i in src.infolist():
                x = src.read(i.filename)
                if i.filename == MANAGED[1]:
                    root = etree.fromstring(x)
                    for n, m in zip(NAMES, op["man"]):
                        if m != "#none":
                            e = etree.SubElement(root, M + "file-entry")
                            e.set(M + "full-path", raw(n))
                            e.set(M + "media-type", raw(m))
                    x = etree.tostring(root)
                z.writestr(i, x)
            for n, c in zip(NAMES, op["part"]):
                if c != "#none":
                    z.writestr(raw(n), data(c))
        self.doc = ezodf.opendoc(self.source(b.getvalue(), op["how"]))

    def op_register(self, op):
        i, c = op["i"], op["c"]
        self.live.pop(i, None)
        x = data(c)
        if op["how"] == "obj":
            x = self.live[i] = Live(c)
        elif op["how"] == "text":
            x = raw(c)
        if op["m"]:
            self.doc.filemanager.register(raw(NAMES[i - 1]), x, raw(op["m"]))
        else:
            self.doc.filemanager.register(raw(NAMES[i - 1]), x)

    def op_edit(self, op):
        self.live[op["i"]].c = op["c"]

    def op_list(self, op):
        self.doc.filemanager.manifest.add(raw(NAMES[op["i"] - 1]), raw(op["m"]))

    def op_unlist(self, op):
        self.doc.filemanager.manifest.remove(raw(NAMES[op["i"] - 1]))

    def write(self, how):
        if how == "stream":
            b = io.BytesIO()
            self.doc.filemanager.save(b)
            return b.getvalue()
        if how == "bytes":
            return self.doc.tobytes()
        if how != "again" or not self.doc.docname:
            self.doc.docname = self.path()
        self.doc.save()
        with open(self.doc.docname, "rb") as f:
            return f.read()

    def op_save(self, op):
        return "ok", [view(self.write(op["how"]), self.kind)]

    def op_reopen(self, op):
        b = self.write(op["how"])
        self.live = {}
        self.doc = ezodf.opendoc(self.source(b, op["how"]))

    def op_template(self, op):
        b = self.write(op["how"])
        self.live = {}
        self.doc = ezodf.newdoc(self.kind, template=self.source(b, op["how"]))


class Driver(object):
    CS = ["x", "y", "z", "\\xe4\\u20ac", "a<&>b", " "]
    MS = ["", "", "text/xml", "image/png", "x\\xe9"]

    def __init__(self, rng, n, par):
        self.rng = rng

    def next(self, s, last):
        r = self.rng
        if last is None:
            k = r.choice(sorted(MIME))
            if r.random() < 0.4:
                return {"a": "new", "k": k}
            return {"a": "open", "k": k, "how": r.choice(["bytes", "stream", "path"]),
                    "part": [r.choice(["#none"] * 6 + self.CS + sorted(DATA)) for _ in NAMES],
                    "man": [r.choice(["#none", "#none"] + self.MS) for _ in NAMES]}
        if "part" not in s:
            return None
        a = r.choice(["register"] * 5 + ["edit"] * 3 + ["list", "unlist", "save", "save", "reopen", "template"])
        i = r.randint(1, len(NAMES))
        if a == "edit":
            ok = [k + 1 for k, x in enumerate(s["live"]) if x]
            if ok:
                return {"a": a, "i": r.choice(ok), "c": r.choice(self.CS + sorted(DATA))}
            a = "register"
        if a == "register":
            how = r.choice(["bytes", "text", "obj", "obj"])
            return {"a": a, "i": i, "c": r.choice(self.CS + ([] if how == "text" else sorted(DATA))), "m": r.choice(self.MS), "how": how}
        if a == "list":
            return {"a": a, "i": i, "m": r.choice(self.MS)}
        if a == "unlist":
            return {"a": a, "i": i}
        return {"a": a, "how": r.choice(["bytes", "stream", "path"] + ["again"] * (a == "save"))}
