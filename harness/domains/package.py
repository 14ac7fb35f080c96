"""The package check (C32)."""
import io, os, shutil, tempfile, zipfile
import common
from lxml import etree
if common.ezodf:
    import ezodf
    from ezodf.filemanager import check_zipfile_for_oasis_validity as oasis_check
ALWAYS_FRESH = False
MF = "urn:oasis:names:tc:opendocument:xmlns:manifest:1.0"
OF = "urn:oasis:names:tc:opendocument:xmlns:office:1.0"
M = "application/vnd.oasis.opendocument."
LISTED = ["content.xml", "meta.xml", "styles.xml"]
PARTS = ["META-INF/manifest.xml"] + LISTED
KINDS = {"odt": "text", "ods": "spreadsheet", "odg": "graphics", "odp": "presentation", "odc": "chart", "odi": "image", "ott": "text-template",
         "ots": "spreadsheet-template", "otg": "graphics-template", "otp": "presentation-template", "otc": "chart-template", "oti": "image-template",
         "odm": "text-master", "oth": "text-web"}
DOCTYPE = dict((M + v, k) for k, v in KINDS.items())
ROOT = {"content.xml": "document-content", "meta.xml": "document-meta", "styles.xml": "document-styles"}


DECOYS = ["Object 1/content.xml", "Object 1/styles.xml", "Object 1/meta.xml", "Object 1/META-INF/manifest.xml", "Object 1/mimetype", "content.xml.bak", "Content.xml", "META.XML",
          "META-INF/manifest.rdf", "styles.xml/", "x content.xml", "META-INF/", "META-INF/documentsignatures.xml", "Object 1/"]


def package(p, decoys=()):
    b = io.BytesIO()
    z = zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED)

    def mimetype(how=zipfile.ZIP_STORED, extra=b""):
        i = zipfile.ZipInfo("mimetype", (2001, 1, 1, 1, 1, 2))
        i.compress_type, i.extra = how, extra
        z.writestr(i, p["mt"])
    if p["first"] in ("ok", "deflated", "extra"):
        mimetype(zipfile.ZIP_DEFLATED if p["first"] == "deflated" else zipfile.ZIP_STORED, b"\xfe\xca\0\0" if p["first"] == "extra" else b"")
    else:
        z.writestr("Pictures/1.png", b"mimetype" + M.encode() + b"text")
    for n in decoys:
        z.writestr(n, p["mt"] if n.endswith("mimetype") else "<x/>" if n[-1] != "/" else "")
    for n in p["parts"]:
        if n in ROOT:
            e = etree.Element("{%s}%s" % (OF, ROOT[n]), nsmap={"office": OF})
            if n == "meta.xml":
                etree.SubElement(e, "{%s}meta" % OF)
        else:
            e = etree.Element("{%s}manifest" % MF, nsmap={"manifest": MF})
            for path, t in ([] if p["root"] == "#none" else [("/", p["root"])]) + [(x, "text/xml") for x in p["man"]] + [("Pictures/1.png", "")] + \
                    [(x, "text/xml" if "." in x else M + "text" if x == "Object 1/" else "") for x in decoys]:
                f = etree.SubElement(e, "{%s}file-entry" % MF)
                f.set("{%s}full-path" % MF, path)
                f.set("{%s}media-type" % MF, t)
        z.writestr(n, etree.tostring(e))
    if p["first"] == "late":
        mimetype()
    z.close()
    return b.getvalue()


def view(data):
    if data[:2] != b"PK":
        return {"type": "junk", "first": "none", "mt": "", "parts": [], "man": [], "root": "#none"}
    z = zipfile.ZipFile(io.BytesIO(data))
    names = z.namelist()
    v = {"type": "zip", "first": "none", "mt": "", "man": [], "root": "#none"}
    if "mimetype" in names:
        i, v["mt"] = z.getinfo("mimetype"), z.read("mimetype").decode()
        v["first"] = "late" if i.header_offset else "deflated" if i.compress_type else "ok" if data[28:30] == b"\0\0" else "extra"
    v["parts"] = [n for n in PARTS if n in names]
    if PARTS[0] in names:
        d = dict((e.get("{%s}full-path" % MF), e.get("{%s}media-type" % MF)) for e in etree.fromstring(z.read(PARTS[0])))
        v["man"], v["root"] = [n for n in LISTED if n in d], d.get("/", "#none")
    return v


class Adapter(common.Adapter):
    def __init__(self):
        self.dir = tempfile.mkdtemp(dir=os.environ.get("VERIF_WORK", "."))
        self.path = os.path.join(self.dir, "a file.odt")
        self.ready = False

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def data(self):
        if not os.path.isfile(self.path):
            return None
        with open(self.path, "rb") as f:
            return f.read()

    def fingerprint(self):
        return [sorted(os.listdir(self.dir)), self.data()]

    def project(self):
        if not self.ready:
            return {}
        d = self.data()
        v = view(d or b"")
        if d is None:
            v["type"] = "dir" if os.path.isdir(self.path) else "missing"
        if len(os.listdir(self.dir)) > (v["type"] != "missing"):
            v["type"] += " and other files"
        return v

    def write(self, data):
        self.ready = True
        with open(self.path, "wb") as f:
            f.write(data)

    def op_make(self, op):
        self.write(package(op["p"], DECOYS if op.get("decoys") else ()))

    def op_spoil(self, op):
        self.ready = True
        if op["t"] == "dir":
            os.mkdir(self.path)
        elif op["t"] == "junk":
            self.write(b"mimetype" * 9)

    def op_new(self, op):
        doc = ezodf.newdoc(DOCTYPE[op["mt"]])
        doc.saveas(self.path)
        self.ready = True

    def op_check(self, op):
        before = self.fingerprint()
        x = oasis_check(self.path, op["mt"].encode())
        if self.fingerprint() != before:
            return "crash:changed", []
        return "ok", [x if isinstance(x, bool) else "?%r" % (x,)]

    def op_resave(self, op):
        doc = ezodf.opendoc(self.path if len(self.data()) % 2 else self.data())
        doc.backup = False
        doc.saveas(self.path)


class Driver(object):
    def __init__(self, rng, n, par):
        self.rng = rng

    def text(self):
        r = self.rng
        k = M + r.choice(sorted(KINDS.values()))
        x = r.random()
        return k if x < 0.8 else r.choice(["", "application/zip", k + "\n", " " + k, k[:-1], k + "-", k.upper(), k + "\0", "mimetype" + k])

    def next(self, s, last):
        r = self.rng
        if last is None:
            if r.random() < 0.1:
                return {"a": "spoil", "t": r.choice(["junk", "dir", "missing"])}
            if r.random() < 0.15:
                return {"a": "new", "mt": M + r.choice(sorted(KINDS.values()))}
            mt = self.text()
            first = r.choice(["ok"] * 6 + ["late", "deflated", "extra", "none"])
            parts = [n for n in PARTS if r.random() < 0.93]
            man = [n for n in LISTED if r.random() < 0.93] if PARTS[0] in parts else []
            root = "#none" if PARTS[0] not in parts else r.choice([mt] * 6 + [self.text(), "#none", ""])
            # an empty part is no deflated one
            return {"a": "make", "p": {"type": "zip", "first": first, "mt": "" if first == "none" else mt, "parts": parts, "man": man, "root": root.replace("\0", "")}, "decoys": r.random() < 0.4}
        if "type" not in s:
            return None
        if s["type"] == "zip" and r.random() < 0.25 and (s["mt"] if s["first"] != "none" else s["root"]) in DOCTYPE:
            return {"a": "resave"}
        return {"a": "check", "mt": r.choice([s["mt"], s["mt"], s["root"], self.text()]) or M}
