"""Several documents side by side (C29)."""
import gc, io, os, shutil, tempfile, zipfile
import common
from common import esc
from lxml import etree
if common.ezodf:
    import ezodf
    from ezodf import Paragraph, Table, Cell, Span, List
    from ezodf.xmlns import fake_element
    from ezodf.document import FlatXMLDocument
ALWAYS_FRESH = False
U = "urn:oasis:names:tc:opendocument:xmlns:"
NS = {"office": U + "office:1.0", "text": U + "text:1.0", "table": U + "table:1.0", "style": U + "style:1.0", "meta": U + "meta:1.0",
      "dc": "http://purl.org/dc/elements/1.1/", "manifest": U + "manifest:1.0", "x": "urn:x-unknown"}
MIME = {"ods": "application/vnd.oasis.opendocument.spreadsheet", "odt": "application/vnd.oasis.opendocument.text"}
BODY = {"ods": "office:spreadsheet", "odt": "office:text"}


def Q(s):
    p, n = s.split(":")
    return "{%s}%s" % (NS[p], n)


def el(parent, tag, text=None, **at):
    e = etree.SubElement(parent, Q(tag))
    for k, v in at.items():
        e.set(Q(k.replace("__", ":").replace("_", "-")), v)
    e.text = text
    return e


def value(tok):
    return float(tok[1:]) if tok[:1] == "#" else tok == "?1" if tok[:1] == "?" else tok


def token(v):
    if v is None:
        return ""
    if isinstance(v, bool):
        return "?1" if v else "?0"
    if isinstance(v, float):
        return "#%g" % v
    return esc(v)


# ------------------------------------------------------------------- fixtures
def typed(e, tok):
    v = value(tok)
    if isinstance(v, bool):
        e.set(Q("office:value-type"), "boolean")
        e.set(Q("office:boolean-value"), "true" if v else "false")
    elif isinstance(v, float):
        e.set(Q("office:value-type"), "float")
        e.set(Q("office:value"), repr(v))
    else:
        e.set(Q("office:value-type"), "string")
        e.set(Q("office:string-value"), v)


def package(b, flat=False):
    content = etree.Element(Q("office:document-content"), nsmap=NS)
    styles = etree.Element(Q("office:document-styles"), nsmap=NS)
    meta = etree.Element(Q("office:document-meta"), nsmap=NS)
    auto = el(content, "office:automatic-styles")
    body = el(el(content, "office:body"), BODY[b["kind"]])
    if b["vars"]["va"]:
        d = el(body, "text:variable-decls")
        for n, x in b["vars"]["va"]:
            el(d, "text:variable-decl", text__name=n, office__value_type="string")
    if b["vars"]["uf"]:
        d = el(body, "text:user-field-decls")
        for n, x in b["vars"]["uf"]:
            typed(el(d, "text:user-field-decl", text__name=n), x)
    hold = el(body, "x:holder")
    for n, x in b["vars"]["va"]:
        el(hold, "text:variable-set", x, text__name=n, office__value_type="string")
    for n, x in b["vars"]["uf"]:
        el(hold, "text:user-field-get", x, text__name=n)
    for t in b["text"]:
        el(body, "text:p", t)
    for t in b["sheets"]:
        s = el(body, "table:table", table__name=t["n"])
        for x in t["cv"]:
            c = el(s, "table:table-column")
            if x:
                c.set(Q("table:style-name"), x)
        cover = {(i, j) for r, c, h, w in t["sp"] for i in range(r, r + h) for j in range(c, c + w)}
        head = {(r, c): (h, w) for r, c, h, w in t["sp"]}
        for i, row in enumerate(t["m"]):
            r = el(s, "table:table-row")
            if t["rv"][i]:
                r.set(Q("table:style-name"), t["rv"][i])
            for j, x in enumerate(row):
                c = el(r, "table:covered-table-cell" if (i, j) in cover and (i, j) not in head else "table:table-cell")
                if (i, j) in head:
                    c.set(Q("table:number-rows-spanned"), str(head[(i, j)][0]))
                    c.set(Q("table:number-columns-spanned"), str(head[(i, j)][1]))
                if x:
                    typed(c, x)
                    if isinstance(value(x), str):
                        el(c, "text:p", x)
    st = el(styles, "office:styles")
    for w, p in (("c", st), ("a", auto)):
        for n, x in b["sty"][w]:
            el(p, "style:style", style__name=n, style__family="paragraph", style__display_name=x)
    m = el(meta, "office:meta")
    if b["meta"]["title"]:
        el(m, "dc:title", b["meta"]["title"])
    for k in b["meta"]["keys"]:
        el(m, "meta:keyword", k)
    for n, x in b["meta"]["tags"]:
        el(m, "meta:user-defined", x, meta__name=n)
    if b["meta"]["cnt"]:
        el(m, "meta:document-statistic", meta__page_count=str(b["meta"]["cnt"]))
    if flat:
        root = etree.Element(Q("office:document"), nsmap=NS)
        root.set(Q("office:mimetype"), MIME[b["kind"]])
        root.extend(list(meta) + list(styles) + list(content))
        return etree.tostring(root, xml_declaration=True, encoding="UTF-8")
    man = etree.Element(Q("manifest:manifest"), nsmap={"manifest": NS["manifest"]})
    out = io.BytesIO()
    z = zipfile.ZipFile(out, "w")
    z.writestr("mimetype", MIME[b["kind"]])
    el(man, "manifest:file-entry", manifest__full_path="/", manifest__media_type=MIME[b["kind"]])
    for n, e in (("content.xml", content), ("styles.xml", styles), ("meta.xml", meta)):
        el(man, "manifest:file-entry", manifest__full_path=n, manifest__media_type="text/xml")
        z.writestr(n, etree.tostring(e, xml_declaration=True, encoding="UTF-8"))
    z.writestr("META-INF/manifest.xml", etree.tostring(man))
    z.close()
    return out.getvalue()


# ----------------------------------------------------------------- observation
def read_sheet(t):
    nr, nc = t.nrows(), t.ncols()
    cells = [[t.get_cell((i, j)) for j in range(nc)] for i in range(nr)]
    sp = []
    for i in range(nr):
        for j in range(nc):
            if not cells[i][j].covered and cells[i][j].span != (1, 1):
                sp.append([i, j] + list(cells[i][j].span))
    return {"n": esc(t.name), "m": [[token(c.value) for c in row] for row in cells], "sp": sp,
            "rv": [t.row_info(i).style_name or "" for i in range(nr)], "cv": [t.column_info(j).style_name or "" for j in range(nc)]}


def shape(e):
    return [e.get(Q("table:name")), len(e.findall(Q("table:table-column"))), [len(r) for r in e.findall(Q("table:table-row"))]]


class Adapter(common.Adapter):
    def __init__(self):
        self.dir = tempfile.mkdtemp(dir=os.environ.get("VERIF_WORK", "."))
        self.docs, self.blobs, self.held, self.n = {}, {}, [], 0
        self.ready = False

    def close(self):
        self.docs = self.held = None
        shutil.rmtree(self.dir, ignore_errors=True)

    def fingerprint(self):
        return [(d, etree.tostring(x.body.get_xmlroot()), etree.tostring(x.meta.xmlnode), etree.tostring(x.styles.xmlnode)) for d, x in sorted(self.docs.items())]

    @staticmethod
    def containers(doc):
        if isinstance(doc, FlatXMLDocument):
            return {"c": doc.styles, "a": doc.automatic_styles}
        return {"c": doc.styles.styles, "a": doc.content.automatic_styles}

    def slots(self, f, none):
        return dict((d, f(self.docs[d]) if d in self.docs else none) for d in "123")

    def sheets(self, doc):
        return list(doc.sheets) if hasattr(doc, "sheets") else []

    def paras(self, doc):
        return [p for p in doc.body if p.kind == "Paragraph"]

    def read_vars(self, doc):
        out = {}
        for k, store in (("uf", doc.body.userfields), ("va", doc.body.variables)):
            l = []
            for e in store:
                x = token(store[e.name].value)
                for i in e.instances:
                    if token(i.value) != x and not isinstance(i.value, str):
                        x = "!" + x
                l.append([esc(e.name), x])
            out[k] = l
        return out

    def read_meta(self, doc):
        m = doc.meta
        try:
            title = m["title"] or ""
        except KeyError:
            title = ""
        return {"title": esc(title), "keys": [esc(k) for k in m.keywords], "tags": [[esc(n), esc(x)] for n, x in m.usertags], "cnt": m.count["page"]}

    def read_sty(self, doc):
        g = lambda c: [[esc(e.get(Q("style:name"))), esc(e.get(Q("style:display-name")))] for e in c.xmlnode]
        return {w: g(c) for w, c in self.containers(doc).items()}

    def project(self):
        if not self.ready:
            return {}
        v = []
        s = {"kind": self.slots(lambda x: x.doctype, ""), "sheets": self.slots(lambda x: [read_sheet(t) for t in self.sheets(x)], []),
             "text": self.slots(lambda x: [esc(p.plaintext()) for p in self.paras(x)] if x.doctype == "odt" else [], []),
             "meta": self.slots(self.read_meta, {"title": "", "keys": [], "tags": [], "cnt": 0}), "vars": self.slots(self.read_vars, {"uf": [], "va": []}),
             "sty": self.slots(self.read_sty, {"c": [], "a": []}), "v": v}
        for d, x in self.docs.items():
            nodes = [t.xmlnode for t in self.sheets(x)]
            if any([r["n"], len(r["cv"]), [len(y) for y in r["m"]]] != shape(e) for r, e in zip(s["sheets"][d], nodes)):
                v.append("xml of " + d)
            for h in self.held:
                for e, r in zip(nodes, s["sheets"][d]):
                    if h.xmlnode is e and read_sheet(h) != r:
                        v.append("held sheet of " + d)
        return s

    def op_start(self, op):
        for b, x in op["blobs"].items():
            self.blobs[b] = ("bytes", package(x, b in op.get("flat", "")))
        self.ready = True

    def op_new(self, op):
        self.docs[op["d"]] = FlatXMLDocument(op["k"]) if op.get("flat") else ezodf.newdoc(op["k"])

    def path(self, b):
        # files are replaced again and again
        return os.path.join(self.dir, "file" + b)

    def op_load(self, op):
        how, x = self.blobs[op["b"]]
        flat = not zipfile.is_zipfile(x if how == "path" else io.BytesIO(x))
        if op["how"] == "bytes" and not flat:
            if how == "path":
                x = open(x, "rb").read()
            self.docs[op["d"]] = ezodf.opendoc(x)
            return
        if how == "bytes":
            data, x = x, self.path(op["b"])
            with open(x, "wb") as f:
                f.write(data)
        self.docs[op["d"]] = ezodf.opendoc(x) if op["how"] == "path" or flat else ezodf.newdoc(template=x)

    def op_store(self, op):
        doc = self.docs[op["d"]]
        if op["how"] == "bytes":
            self.blobs[op["b"]] = ("bytes", doc.tobytes())
        else:
            p = self.path(op["b"])
            doc.saveas(p)
            self.blobs[op["b"]] = ("path", p)

    def op_drop(self, op):
        del self.docs[op["d"]]
        self.held = [h for h in self.held if any(h.xmlnode.getroottree().getroot() is x.body.get_xmlroot() for x in self.docs.values())]
        gc.collect()

    def sheet(self, d, i):
        return self.docs[d].sheets[i - 1]

    def hold(self, t):
        if len(self.held) < 12:
            self.held.append(t)
        return t

    def op_sheetnew(self, op):
        t = self.hold(Table(op["n"], size=(op["h"], op["w"])))
        sheets = self.docs[op["d"]].sheets
        if op["p"] == len(sheets) and op["h"] % 2:
            sheets += t
        else:
            sheets.insert(op["p"], t)

    def op_sheetcopy(self, op):
        t = self.sheet(op["d"], op["i"]).copy(op["n"])
        self.docs[op["e"]].sheets.append(self.hold(t))

    def op_sheetmove(self, op):
        self.docs[op["e"]].sheets.append(self.hold(self.sheet(op["d"], op["i"])))

    def op_sheetset(self, op):
        self.docs[op["e"]].sheets[op["j"] - 1] = self.hold(self.sheet(op["d"], op["i"]))

    def op_sheetdel(self, op):
        self.hold(self.sheet(op["d"], op["i"]))
        del self.docs[op["d"]].sheets[op["i"] - 1]

    def op_rename(self, op):
        self.sheet(op["d"], op["i"]).name = op["n"]

    def op_cell(self, op):
        t, pos = self.sheet(op["d"], op["i"]), (op["r"], op["c"])
        if op["x"][:1] in ("#", "?") or len(op["x"]) % 2:
            t[pos].set_value(value(op["x"]))
        else:
            t[pos] = Cell(value(op["x"]))

    def op_take(self, op):
        src = self.sheet(op["e"], op["j"])[(op["r2"], op["c2"])]
        self.sheet(op["d"], op["i"])[(op["r"], op["c"])] = src

    def op_insrow(self, op):
        t = self.sheet(op["d"], op["i"])
        t.append_rows(1) if op["p"] == t.nrows() else t.insert_rows(op["p"], 1)

    def op_delrow(self, op):
        self.sheet(op["d"], op["i"]).delete_rows(op["p"], 1)

    def op_inscol(self, op):
        t = self.sheet(op["d"], op["i"])
        t.append_columns(1) if op["p"] == t.ncols() else t.insert_columns(op["p"], 1)

    def op_delcol(self, op):
        self.sheet(op["d"], op["i"]).delete_columns(op["p"], 1)

    def op_span(self, op):
        self.sheet(op["d"], op["i"]).set_cell_span((op["r"], op["c"]), (op["h"], op["w"]))

    def op_unspan(self, op):
        t = self.sheet(op["d"], op["i"])
        for pos, c in t.itercells():
            if not c.covered and c.span != (1, 1):
                t.remove_cell_span(pos)

    def op_rowstyle(self, op):
        self.sheet(op["d"], op["i"]).row_info(op["r"]).style_name = op["x"]

    def op_colstyle(self, op):
        self.sheet(op["d"], op["i"]).column_info(op["c"]).style_name = op["x"]

    def op_wipe(self, op):
        self.sheet(op["d"], op["i"]).reset((op["h"], op["w"]))

    def op_text(self, op):
        self.docs[op["d"]].body.append(Paragraph(op["x"]))

    def op_textmove(self, op):
        self.docs[op["e"]].body.append(self.paras(self.docs[op["d"]])[op["i"] - 1])

    def op_more(self, op):
        self.paras(self.docs[op["d"]])[op["i"] - 1].append_text(op["x"])

    def op_textdel(self, op):
        body = self.docs[op["d"]].body
        body.remove(self.paras(self.docs[op["d"]])[op["i"] - 1])

    def op_title(self, op):
        self.docs[op["d"]].meta["title"] = op["x"]

    def op_key(self, op):
        self.docs[op["d"]].meta.keywords.add(op["x"])

    def op_nokeys(self, op):
        self.docs[op["d"]].meta.keywords.clear()

    def op_tag(self, op):
        self.docs[op["d"]].meta.usertags[op["n"]] = op["x"]

    def op_untag(self, op):
        del self.docs[op["d"]].meta.usertags[op["n"]]

    def op_count(self, op):
        self.docs[op["d"]].meta.count["page"] = op["x"]

    def op_uf(self, op):
        self.docs[op["d"]].body.userfields[op["n"]] = value(op["x"])

    def op_va(self, op):
        self.docs[op["d"]].body.variables[op["n"]] = value(op["x"])

    def style(self, op):
        return '<style:style style:name="%s" style:family="paragraph" style:display-name="%s"/>' % (op["n"], op["x"])

    def op_style(self, op):
        doc = self.docs[op["d"]]
        self.containers(doc)[op["w"]][op["n"]] = fake_element(self.style(op))

    def op_inject(self, op):
        self.docs[op["d"]].inject_style(self.style(op))

    def op_crowd(self, op):
        # lots of other tables and documents come and go
        for i in range(op["n"]):
            doc = ezodf.newdoc("ods") if i % 20 == 0 else doc
            doc.sheets.append(Table("x%d" % i, size=(1, 2)))
        if doc.sheets["x%d" % i] is not doc.sheets[i % 20] and doc.sheets["x%d" % i].name != "x%d" % i:
            return "ok", "lost"

    def op_default(self, op):
        t, d = Table(), ezodf.newdoc("ods")
        q = [t.name, t.nrows(), t.ncols(), sum(1 for p, c in t.itercells() if c.value is not None or c.covered or c.span != (1, 1)), Paragraph().plaintext(), Span().plaintext(),
             len(List()), len(d.sheets) + len(list(d.meta.keywords)) + len(list(d.meta.usertags)) + len(d.styles.styles.xmlnode)]
        # what is done with these objects is of no concern to others made later
        t.name, d.meta["title"] = "used", "used"
        t[(0, 0)].set_value("used")
        t.set_cell_span((1, 1), (2, 2))
        d.sheets.append(t)
        d.meta.keywords.add("used")
        d.meta.usertags["used"] = "1"
        d.inject_style(self.style({"n": "used", "x": "used"}))
        return "ok", q


class Driver(object):
    TOK = ["x", "long text", "#1", "#2.5", "?1", "?0", "", "a<&>b"]
    NAMES = ["S", "T", "U", "Sheet 1"]

    def __init__(self, rng, n, par):
        self.rng = rng

    def some(self, l, k):
        return [self.rng.choice(l) for _ in range(self.rng.randint(0, k))]

    def blob(self, kind):
        r = self.rng
        b = {"kind": kind, "sheets": [], "text": [], "meta": {"title": r.choice(["", "T"]), "keys": sorted(set(self.some(["k", "l", "m"], 3))), "tags": [[n, r.choice(["v", "w"])] for n in r.sample(["n", "m", "o"], r.randint(0, 2))], "cnt": r.choice([0, 3])},
             "vars": {"uf": [[n, r.choice(["x", "y", "1st"])] for n in r.sample(["u", "w"], r.randint(0, 2))], "va": [[n, r.choice(["x", "y"])] for n in r.sample(["u", "w"], r.randint(0, 2))]},
             "sty": {"c": [[n, "a"] for n in r.sample(["s1", "s2", "s3"], r.randint(0, 3))], "a": [[n, "b"] for n in r.sample(["s1", "s2"], r.randint(0, 2))]}}
        if kind == "odt":
            b["text"] = self.some(["p", "q", "some words"], 4)
        else:
            for n in self.some(self.NAMES, 3):
                h, w = r.randint(1, 4), r.randint(1, 4)
                m = [[r.choice(self.TOK[:5] + ["", ""]) for _ in range(w)] for _ in range(h)]
                sp = []
                if h * w > 1 and r.random() < 0.4:
                    sp = [[0, 0, h, w]] if r.random() < 0.3 else [[h - 1, 0, 1, w]] if w > 1 else [[0, 0, h, 1]]
                b["sheets"].append({"n": n, "m": m, "sp": sp, "rv": [r.choice(["", "r1"]) for _ in range(h)], "cv": [r.choice(["", "c1", "c2"]) for _ in range(w)]})
        return b

    def next(self, s, last):
        r = self.rng
        if last is None:
            self.stored = {"A", "B"}
            return {"a": "start", "blobs": {"A": self.blob("ods"), "B": self.blob(r.choice(["ods", "odt"]))}, "flat": r.choice(["", "", "A", "B", "AB"])}
        if "kind" not in s:
            return None
        docs = [d for d in "123" if s["kind"][d]]
        free = [d for d in "123" if not s["kind"][d]]
        if free and (len(docs) < 2 or r.random() < 0.15):
            d = r.choice(free)
            if r.random() < 0.25:
                return {"a": "new", "d": d, "k": r.choice(["ods", "ods", "odt"]), "flat": r.random() < 0.3}
            return {"a": "load", "d": d, "b": r.choice(sorted(self.stored)), "how": r.choice(["bytes", "path", "template"])}
        d = r.choice(docs)
        a = r.choice(["store", "drop", "default"] + ["sheet"] * 8 + ["cell"] * 10 + ["grid"] * 8 + ["text"] * 4 + ["meta"] * 4 + ["vars"] * 4)
        if a == "store":
            b = r.choice("ABC")
            self.stored.add(b)
            return {"a": a, "d": d, "b": b, "how": r.choice(["bytes", "path"])}
        if a == "drop":
            return {"a": a, "d": d}
        if a == "default":
            return {"a": a} if r.random() < 0.5 else {"a": "crowd", "n": r.choice([30, 150])}
        ods = [x for x in docs if s["kind"][x] == "ods"]
        allsheets = [(x, i) for x in ods for i in range(1, len(s["sheets"][x]) + 1)]
        if a in ("sheet", "cell", "grid") and (not ods or a != "sheet" and not allsheets):
            a = "meta"
        if a == "sheet":
            e = r.choice(ods)
            if not allsheets or r.random() < 0.3:
                n = len(s["sheets"][e])
                if n >= 5:
                    return {"a": "sheetdel", "d": e, "i": r.randint(1, n)}
                return {"a": "sheetnew", "d": e, "n": r.choice(self.NAMES), "h": r.randint(1, 4), "w": r.randint(1, 4), "p": r.randint(0, n)}
            x, i = r.choice(allsheets)
            k = r.choice(["sheetcopy", "sheetmove", "sheetset", "sheetdel"])
            if k == "sheetcopy" and len(s["sheets"][e]) < 6:
                return {"a": k, "d": x, "i": i, "e": e, "n": r.choice(self.NAMES)}
            if k == "sheetset":
                y, j = r.choice(allsheets)
                return {"a": k, "d": x, "i": i, "e": y, "j": j}
            if k == "sheetdel":
                return {"a": k, "d": x, "i": i}
            return {"a": "sheetmove", "d": x, "i": i, "e": e}
        if a in ("cell", "grid"):
            x, i = r.choice(allsheets)
            t = s["sheets"][x][i - 1]
            h, w = len(t["m"]), len(t["cv"])
            at = {"d": x, "i": i}
            rr, cc = r.randrange(h), r.randrange(w)
            if a == "cell":
                k = r.choice(["cell", "cell", "take", "rename"])
                if k == "rename":
                    return dict(at, a=k, n=r.choice(self.NAMES + ["renamed"]))
                if k == "take" and not t["sp"]:
                    y, j = r.choice(allsheets)
                    u = s["sheets"][y][j - 1]
                    if not u["sp"]:
                        return dict(at, a=k, r=rr, c=cc, e=y, j=j, r2=r.randrange(len(u["m"])), c2=r.randrange(len(u["cv"])))
                x = r.choice([y for y in self.TOK if y])
                return dict(at, a="cell", r=rr, c=cc, x=x if not t["sp"] else "#7")
            k = r.choice(["insrow", "delrow", "inscol", "delcol", "span", "unspan", "rowstyle", "colstyle", "wipe"])
            if k == "rowstyle":
                return dict(at, a=k, r=rr, x=r.choice(["rs", "rt"]))
            if k == "colstyle":
                return dict(at, a=k, c=cc, x=r.choice(["cs", "ct"]))
            if k == "wipe":
                return dict(at, a=k, h=r.randint(1, 3), w=r.randint(1, 3)) if r.random() < 0.4 else dict(at, a="rowstyle", r=rr, x="rs")
            if t["sp"]:
                return dict(at, a="unspan")
            if k == "unspan" or k == "span":
                hh, ww = r.randint(1, h - rr), r.randint(1, w - cc)
                if hh * ww > 1:
                    return dict(at, a="span", r=rr, c=cc, h=hh, w=ww)
                k = "insrow"
            if k == "delrow" and h == 1 or k == "insrow" and h > 6:
                return dict(at, a="rowstyle", r=rr, x="rs")
            if k == "delcol" and w == 1 or k == "inscol" and w > 6:
                return dict(at, a="colstyle", c=cc, x="cs")
            return dict(at, a=k, p=r.randint(0, h) if k == "insrow" else rr if k == "delrow" else r.randint(0, w) if k == "inscol" else cc)
        odt = [x for x in docs if s["kind"][x] == "odt"]
        if a == "text" and odt:
            e, y = r.choice(odt), r.choice(odt)
            n = len(s["text"][e])
            k = r.choice(["text", "textmove", "more", "textdel"]) if n else "text"
            if k == "text":
                return {"a": k, "d": e, "x": r.choice(["t", "new words"])}
            op = {"a": k, "d": e, "i": r.randint(1, n)}
            if k == "textmove":
                op["e"] = y
            if k == "more":
                op["x"] = r.choice(["+", " and more"])
            return op
        if a == "vars":
            k = r.choice(["uf", "va", "style", "inject"])
            if k in ("uf", "va"):
                return {"a": k, "d": d, "n": r.choice(["u", "w"]), "x": r.choice(["#5", "str", "?1", "other"])}
            if k == "inject":
                return {"a": k, "d": d, "n": r.choice(["s1", "s8"]), "x": "i"} if r.random() < 0.3 else {"a": "style", "d": d, "w": "c", "n": "s2", "x": r.choice(["y", "z"])}
            return {"a": k, "d": d, "w": r.choice("ca"), "n": r.choice(["s1", "s2", "s3"]), "x": r.choice(["y", "z"])}
        k = r.choice(["title", "key", "key", "nokeys", "tag", "tag", "untag", "count"])
        op = {"a": k, "d": d}
        if k in ("title", "key"):
            op["x"] = r.choice(["new", "w", "k", "l"])
        if k in ("tag", "untag"):
            op["n"] = r.choice(["n", "m", "o"])
        if k == "tag":
            op["x"] = r.choice(["t", "v"])
        if k == "count":
            op["x"] = r.choice([1, 5, 12])
        return op
