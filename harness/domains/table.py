"""Table: rows, columns, cells, infos (C08, C09, C10)."""
import common
from common import esc
from lxml import etree
if common.ezodf:
    from ezodf.xmlns import CN, wrap
    from ezodf import Table, Cell, Paragraph
    from ezodf.table import TableRow
TNS = "urn:oasis:names:tc:opendocument:xmlns:table:1.0"
ONS = "urn:oasis:names:tc:opendocument:xmlns:office:1.0"
XNS = "urn:oasis:names:tc:opendocument:xmlns:text:1.0"
T = "{%s}" % TNS
O = "{%s}" % ONS
X = "{%s}" % XNS
ALWAYS_FRESH = False
ROWISH = ("table-row", "table-rows", "table-header-rows", "table-row-group")
COLISH = ("table-column", "table-columns", "table-header-columns", "table-column-group")


def colname(j):
    s = ""
    j += 1
    while j:
        j, r = divmod(j - 1, 26)
        s = chr(65 + r) + s
    return s


def addr(i, j):
    return colname(j) + str(i + 1)


def split(tok):
    """mark ("^" head of a span one row high and two columns wide, "~" covered, "" plain) and token"""
    return (tok[:1], tok[1:]) if tok[:1] in ("^", "~") else ("", tok)


# --------------------------------------------------- cells that carry more than a text
# A token names a complete cell; what kind of cell it is follows from the token:
#  0 text  1 text, formula, protected  2 number shown as the token  3 two paragraphs
#  4 currency, validation  5 truth value shown as the token
NUM, PROTECT = "%d", T + "protect"


def kind(tok):
    return sum(map(ord, tok)) % 6


def number(tok):
    return float(sum(map(ord, tok)) % 89) + 0.5


def signature(tok):
    """value type, value, text, formula, protected, currency, validation"""
    k = kind(tok)
    v = {2: number(tok), 3: tok + "\n2", 4: number(tok), 5: True}.get(k, tok)
    t = {2: "float", 4: "currency", 5: "boolean"}.get(k, "string")
    return (t, v, tok + "\n2" if k == 3 else "" if k == 4 else tok, "of:=" + tok if k == 1 else None, k == 1, "EUR" if k == 4 else None, "V" + tok if k == 4 else None)


def xml_wants(tok):
    """attributes (without those of spans) and paragraphs"""
    k = kind(tok)
    at = {T + "style-name": "S" + tok, O + "value-type": signature(tok)[0]}
    if k in (2, 4):
        at[O + "value"] = repr(number(tok))
    if k == 5:
        at[O + "boolean-value"] = "true"
    if k == 1:
        at[T + "formula"] = "of:=" + tok
        at[PROTECT] = "true"
    if k == 4:
        at[O + "currency"] = "EUR"
        at[T + "content-validation-name"] = "V" + tok
    return at, [tok, "2"] if k == 3 else [] if k == 4 else [tok]


def xml_cell(tok):
    mark, tok = split(tok)
    e = etree.Element(T + ("covered-table-cell" if mark == "~" else "table-cell"))
    if mark == "^":
        e.set(T + "number-columns-spanned", "2")
        e.set(T + "number-rows-spanned", "1")
    if tok != "":
        at, ps = xml_wants(tok)
        for k, x in at.items():
            e.set(k, x)
        for x in ps:
            etree.SubElement(e, X + "p").text = x
    return e


def xml_token(e):
    """token of a cell element, read without the library"""
    mark, own = "", 0
    at = dict(e.attrib)
    if e.tag == T + "covered-table-cell":
        mark = "~"
    elif e.get(T + "number-columns-spanned") == "2" and e.get(T + "number-rows-spanned") == "1":
        mark = "^"
        del at[T + "number-columns-spanned"], at[T + "number-rows-spanned"]
    if at.get(PROTECT) == "false":
        del at[PROTECT]
    kids = list(e)
    if not kids and not at and not (e.text or "").strip():
        return mark
    tok = at.get(T + "style-name", "?")[1:]
    if all(k.tag == X + "p" for k in kids) and (at, ["".join(k.itertext()) for k in kids]) == xml_wants(tok):
        return mark + esc(tok)
    return "?" + esc(etree.tostring(e).decode("utf8").split(">", 1)[-1])[:60]


def api_token(c):
    mark = "~" if c.covered else "^" if c.span != (1, 1) else ""
    if c.kind != "Cell" :
        return "?kind"
    sig = (c.value_type, c.value, c.plaintext(), c.formula, c.protected, c.currency, c.content_validation_name)
    if c.style_name is None and len(c) == 0 and sig == (None, None, "", None, False, None, None):
        return mark
    if (c.style_name or "")[:1] == "S" and sig == signature(c.style_name[1:]):
        return mark + esc(c.style_name[1:])
    return "?%s|%s" % (esc(str(c.style_name)), esc(repr(sig)))


def put(c, tok):
    k = kind(tok)
    if k == 2:
        c.set_value(number(tok))
    elif k == 4:
        c.set_value(number(tok), currency="EUR")
    elif k == 5:
        c.set_value(True)
    else:
        c.set_value(tok)
    if k in (2, 5):
        c.display_form = tok
    if k == 3:
        c.append(Paragraph("2"))
    c.style_name = "S" + tok
    if c.protected or k == 1:
        c.protected = k == 1
    for name, x in (("formula", "of:=" + tok if k == 1 else None), ("content_validation_name", "V" + tok if k == 4 else None)):
        if x is not None:
            setattr(c, name, x)
        elif getattr(c, name) is not None:
            delattr(c, name)


# ------------------------------------------------------------------ cells with a text only
def plain_cell(tok):
    mark, tok = split(tok)
    e = etree.Element(T + ("covered-table-cell" if mark == "~" else "table-cell"))
    if tok != "":
        e.set(T + "style-name", "S" + tok)
        e.set(O + "value-type", "string")
        etree.SubElement(e, X + "p").text = tok
    return e


def plain_token(c):
    v, s = c.value, c.style_name
    if v is None and s is None and c.value_type is None and len(c) == 0 and c.plaintext() == "":
        return ""
    if s == "S%s" % v and c.value_type == "string" and c.plaintext() == v:
        return esc(v)
    return "?%s|%s|%s" % (esc(str(v)), c.value_type, esc(str(s)))


def plain_put(cell, tok):
    cell.set_value(tok)
    cell.style_name = "S" + tok


# ------------------------------------------- infos: style, default cell style, visibility
def info_set(i, tok):
    i.style_name = tok
    i.default_cell_style_name = "D" + tok
    i.visibility = ("visible", "collapse", "filter")[kind(tok) % 3]


def info_xml(e, tok):
    if tok != "":
        e.set(T + "style-name", tok)
        e.set(T + "default-cell-style-name", "D" + tok)
        if kind(tok) % 3:
            e.set(T + "visibility", ("visible", "collapse", "filter")[kind(tok) % 3])


def info_token(i):
    s, d, v = i.style_name, i.default_cell_style_name, i.visibility
    if (s, d, v) == (None, None, "visible"):
        return ""
    if s and d == "D" + s and v == ("visible", "collapse", "filter")[kind(s) % 3]:
        return esc(s)
    return "?" + esc("%s|%s|%s" % (s, d, v))


def info_xml_token(e):
    at = dict(e.attrib)
    if not at:
        return ""
    s = at.get(T + "style-name", "?")
    w = etree.Element("x")
    info_xml(w, s)
    at.setdefault(T + "visibility", "visible")
    w.set(T + "visibility", w.get(T + "visibility", "visible"))
    return esc(s) if dict(w.attrib) == at else "?"


# ------------------------- what else is in a table element; the order is that of OpenDocument
BEFORE = ["table:title", "table:desc", "table:table-source", "office:dde-source", "table:scenario", "office:forms", "table:shapes"]
MIDDLE = ["text:soft-page-break"]       # in front of the last row, or what holds it
BEHIND = ["table:named-expressions", "table:x-extension"]
PRE = {"table": T, "office": O, "text": X}


def extra(name):
    p, n = name.split(":")
    e = etree.Element(PRE[p] + n)
    etree.SubElement(e, X + "p").text = "in " + n
    return e


def extras(t):
    """names of the other children in document order, "?" for one that is not what it was"""
    out = []
    for e in t:
        n = etree.QName(e).localname
        if n in ROWISH or n in COLISH:
            continue
        p = [k for k in PRE if PRE[k] + n == e.tag]
        ok = p and [(k.tag, k.text) for k in e] == [(X + "p", "in " + n)]
        out.append(p[0] + ":" + n if ok else "?" + n)
    return out


def compress(elements, attr):
    """merge equal neighbours into one element with a repetition attribute"""
    out = []
    for e in elements:
        k = etree.tostring(e)
        if out and out[-1][1] == k:
            out[-1][2] += 1
        else:
            out.append([e, k, 1])
    for e, k, n in out:
        if n > 1:
            e.set(T + attr, str(n))
    return [o[0] for o in out]


def xml_table(rows, ri, ci, lay, name="T", ex=(), cell=xml_cell):
    t = etree.Element(T + "table", nsmap={"table": TNS, "office": ONS, "text": XNS})
    if name:
        t.set(T + "name", name)
    cols = []
    for c in ci:
        e = etree.Element(T + "table-column")
        info_xml(e, c)
        cols.append(e)
    rws = []
    for r, info in zip(rows, ri):
        e = etree.Element(T + "table-row")
        info_xml(e, info)
        cells = [cell(x) for x in r]
        e.extend(compress(cells, "number-columns-repeated") if lay == "repeat" else cells)
        rws.append(e)
    if lay == "repeat":
        cols = compress(cols, "number-columns-repeated")
        rws = compress(rws, "number-rows-repeated")
    if lay == "header":
        h = etree.SubElement(t, T + "table-header-columns")
        h.append(cols[0])
        t.extend(cols[1:])
        h = etree.SubElement(t, T + "table-header-rows")
        h.append(rws[0])
        t.extend(rws[1:])
    elif lay == "group":
        h = etree.SubElement(t, T + "table-column-group")
        h.extend(cols[:1])
        h = etree.SubElement(h, T + "table-column-group")
        h.extend(cols[1:])
        h = etree.SubElement(t, T + "table-row-group")
        h.extend(rws[:1])
        g = etree.SubElement(h, T + "table-row-group")
        g.extend(rws[1:])
    elif lay == "rows":       # table:table-rows / table:table-columns wrappers
        etree.SubElement(t, T + "table-columns").extend(cols)
        etree.SubElement(t, T + "table-rows").extend(rws)
    else:
        t.extend(cols)
        t.extend(rws)
    for k, x in enumerate([x for x in ex if x in BEFORE]):
        t.insert(k, extra(x))
    for x in ex:
        if x in MIDDLE:
            [e for e in t if etree.QName(e).localname in ROWISH][-1].addprevious(extra(x))
        if x in BEHIND:
            t.append(extra(x))
    return t


def is_own(e, table, tag):
    p = e.getparent()
    while p is not None:
        if p.tag == tag:
            return p is table
        p = p.getparent()
    return False


def xml_parts(table, tag):
    return [e for e in table.iter(T + tag) if is_own(e, table, table.tag)]


def disagreeing_views(t, m, ri, ci, cx=[]):
    """names of the views of the table that do not show the same matrix as get_cell()"""
    v = []
    nr, nc = t.nrows(), t.ncols()

    def tok(cells):
        return [api_token(c) for c in cells]

    def check(name, f):
        try:
            ok = f()
        except (ArithmeticError, LookupError, TypeError, ValueError, AttributeError, StopIteration):
            ok = False
        if not ok:
            v.append(name)
    check("negative", lambda: [[api_token(t.get_cell((i - nr, j - nc))) for j in range(nc)] for i in range(nr)] == m)
    check("address", lambda: [[api_token(t[addr(i, j)]) for j in range(nc)] for i in range(nr)] == m)
    check("tuple", lambda: [[api_token(t[i, j]) for j in range(nc)] for i in range(nr)] == m)
    check("rows", lambda: [tok(r) for r in t.rows()] == m)
    check("row", lambda: [tok(t.row(i)) for i in range(nr)] == m)
    check("columns", lambda: [tok(c) for c in t.columns()] == [[m[i][j] for i in range(nr)] for j in range(nc)])
    check("column", lambda: [tok(t.column(j)) for j in range(nc)] == [[m[i][j] for i in range(nr)] for j in range(nc)])
    check("rowaddr", lambda: [tok(t.row(addr(i, 0))) for i in range(nr)] == m)
    check("itercells", lambda: [(p, api_token(c)) for p, c in t.itercells()] ==
          [((i, j), m[i][j]) for i in range(nr) for j in range(nc)])
    check("sameobject", lambda: all(t.row_info(i).xmlnode is t[i, j].xmlnode.getparent() for i in range(nr) for j in range(nc)))
    check("rowlen", lambda: all(len(t.row_info(i)) == nc for i in range(nr)))
    check("infokind", lambda: all(t.row_info(i).kind == "TableRow" for i in range(nr)) and
          all(t.column_info(j).kind == "TableColumn" for j in range(nc)))
    check("infoaddr", lambda: [info_token(t.row_info(addr(i, 0))) for i in range(nr)] == ri and
          [info_token(t.column_info(addr(0, j))) for j in range(nc)] == ci)
    check("infonegative", lambda: [info_token(t.row_info(i - nr)) for i in range(nr)] == ri and
          [info_token(t.column_info(j - nc)) for j in range(nc)] == ci)

    def second():
        w = Table(xmlnode=t.xmlnode)
        return (w.nrows(), w.ncols()) == (nr, nc) and [tok(r) for r in w.rows()] == m and \
            [info_token(w.column_info(j)) for j in range(nc)] == ci
    check("wrapper", second)

    def xml():
        x = etree.fromstring(etree.tostring(t.xmlnode))
        rows = xml_parts(x, "table-row")
        cols = xml_parts(x, "table-column")
        return [[xml_token(c) for c in r] for r in rows] == m and \
            [info_xml_token(r) for r in rows] == ri and \
            [info_xml_token(c) for c in cols] == ci + cx
    check("xml", xml)

    def order():
        kinds = [e.tag.split("}")[1] for e in t.xmlnode]
        rk = [k for k, x in enumerate(kinds) if x in ROWISH]
        ck = [k for k, x in enumerate(kinds) if x in COLISH]
        bk = [k for k, x in enumerate(kinds) if x in [y.split(":")[1] for y in BEFORE]]
        ek = [k for k, x in enumerate(kinds) if x in [y.split(":")[1] for y in BEHIND]]
        places = [x for x in (bk, ck, rk, ek) if x]
        return all(max(x) < min(y) for x, y in zip(places, places[1:]))
    check("order", order)
    return v


def table_state(t):
    nr, nc = t.nrows(), t.ncols()
    return ([[api_token(t.get_cell((i, j))) for j in range(nc)] for i in range(nr)],
            [info_token(t.row_info(i)) for i in range(nr)],
            [info_token(t.column_info(j)) for j in range(nc)])


class Adapter(common.Adapter):
    def __init__(self):
        self.t = self.held = None
        self.home = []

    def fingerprint(self):
        return None if self.t is None else etree.tostring(self.t.xmlnode)

    def project(self):
        if self.t is None:
            return {"m": [], "ri": [], "ci": [], "cx": [], "held": [], "ex": [], "v": []}
        m, ri, ci = table_state(self.t)
        cx = [info_xml_token(c) for c in xml_parts(self.t.xmlnode, "table-column")][len(ci):]
        v = disagreeing_views(self.t, m, ri, ci, cx)
        for row, parent in self.home:
            if row.getparent() is not None and row.getparent() is not parent:
                v.append("group")
                break
        held = []
        if self.held is not None:
            for (i, j), c in self.t.itercells():
                if c.xmlnode is self.held.xmlnode:
                    held = held + [i, j]
        return {"m": m, "ri": ri, "ci": ci, "cx": cx, "held": held, "ex": extras(self.t.xmlnode), "v": v}

    def key(self, op):
        i, j = op["i"], op["j"]
        if i >= 0 and j >= 0 and (i + 2 * j) % 3 == 0:
            return addr(i, j)
        return (i, j)

    def op_new(self, op):
        self.t = Table("T", size=(op["nr"], op["nc"]))

    def op_load(self, op):
        x = etree.fromstring(etree.tostring(xml_table(op["rows"], op["ri"], op["ci"], op["lay"], op.get("nm", "T"), ex=op["ex"])))
        self.t = wrap(x)
        self.home = [(self.t.row_info(i).xmlnode, self.t.row_info(i).xmlnode.getparent()) for i in range(self.t.nrows())]

    def op_append_rows(self, op):
        self.t.append_rows(op["n"])

    def op_append_columns(self, op):
        self.t.append_columns(op["n"])

    def op_insert_rows(self, op):
        self.t.insert_rows(op["i"], op["n"])

    def op_insert_columns(self, op):
        self.t.insert_columns(op["i"], op["n"])

    def op_delete_rows(self, op):
        self.t.delete_rows(op["i"], op["n"])

    def op_delete_columns(self, op):
        self.t.delete_columns(op["i"], op["n"])

    def op_set_value(self, op):
        put(self.t[self.key(op)], op["t"])

    def op_set_cell(self, op):
        row = TableRow(3) if (self.t.nrows() + self.t.ncols()) % 3 == 0 else None   # a cell of a row of no table
        c = Cell() if row is None else row[1]
        put(c, op["t"])
        self.t[self.key(op)] = c
        if row is not None:
            if len(row) != 3 or row[1].xmlnode is not c.xmlnode:
                raise RuntimeError("the cell has left its row")

    def op_copy_cell(self, op):
        self.t[self.key(op)] = self.t[op["i2"], op["j2"]]

    def op_set_noncell(self, op):
        for x in (Paragraph("p"), None, "text", 1.0, self.t.row_info(0)):
            before = self.fingerprint()
            try:
                self.t[op["i"], op["j"]] = x
            except common.REJECTS:
                if self.fingerprint() != before:
                    return "rej+changed", []
                continue
            return "ok", []
        return "rej", []

    def op_bad_ref(self, op):
        w = {"#none": None, "#float": 1.5, "#list": [0, 0], "#neg": "A-1"}.get(op["w"], op["w"])
        t = self.t
        for f in (lambda: t[w], lambda: t.row(w), lambda: t.column(w), lambda: t.row_info(w), lambda: t.column_info(w),
                  lambda: t.__setitem__(w, Cell("bad")), lambda: t.set_cell_span(w, (1, 1)), lambda: t.remove_cell_span(w)):
            try:
                f()
            except common.REJECTS:
                continue
            return "ok", []
        return "rej", []

    def op_hold(self, op):
        self.held = self.t[op["i"], op["j"]]

    def op_held_set(self, op):
        if self.held is not None:
            put(self.held, op["t"])

    def op_get(self, op):
        return "ok", [api_token(self.t[self.key(op)])]

    def op_get_row(self, op):
        return "ok", [api_token(c) for c in self.t.row(op["i"])]

    def op_get_column(self, op):
        return "ok", [api_token(c) for c in self.t.column(op["i"])]

    def op_row_style(self, op):
        info_set(self.t.row_info(op["i"]), op["t"])

    def op_column_style(self, op):
        info_set(self.t.column_info(op["i"]), op["t"])

    def op_reset(self, op):
        self.t.reset((op["nr"], op["nc"]))
        self.home = []

    def op_clear(self, op):
        self.t.clear()
        self.home = []

    def op_reload(self, op):
        self.held = None
        self.home = []
        self.t = wrap(etree.fromstring(etree.tostring(self.t.xmlnode)))


class Driver(object):
    """Random histories on tables far larger than the exhaustive bound."""
    def __init__(self, rng, n, par):
        self.rng, self.k = rng, 0
        self.max = par.get("max", 8)

    def tok(self):
        self.k += 1
        return "t%d" % self.k

    def start(self):
        r = self.rng
        nr, nc = r.randint(1, self.max), r.randint(1, self.max)
        if r.random() < 0.3:
            return {"a": "new", "nr": nr, "nc": nc}
        lay = r.choice(["plain", "header", "group", "repeat", "rows"])
        rows = [[r.choice(["", "a", "b", self.tok()]) for _ in range(nc)] for _ in range(nr)]
        if lay == "repeat":
            rows = [[r.choice(["", "a"]) for _ in range(nc)] for _ in range(nr)]
            if nr > 1 and r.random() < 0.5:
                rows[1] = list(rows[0])
        elif nc > 1 and r.random() < 0.4:
            for k in range(nr):
                if r.random() < 0.6:
                    j = r.randrange(nc - 1)
                    rows[k][j:j + 2] = ["^" + rows[k][j], r.choice(["~", "~", "~" + self.tok()])]
        elif r.random() < 0.3:      # ragged rows
            for k in range(nr):
                if k != 0 and r.random() < 0.5:
                    rows[k] = rows[k][:r.randint(0, nc)]
        ncol = nc + (r.choice([0, 0, 0, 1, 2, 5, -1, -nc]) if lay != "header" and lay != "repeat" else 0)
        pick = lambda p, n: [r.choice(["", p, p + str(k)]) for k in range(n)]
        return {"a": "load", "rows": rows, "ri": pick("r", nr), "ci": pick("c", max(ncol, 0)), "lay": lay,
                "nm": r.choice(["T", "T", ""]),     # tables of texts need no name
                "ex": [x for x in BEFORE + MIDDLE + BEHIND if r.random() < 0.25] if r.random() < 0.5 else []}

    def next(self, s, last):
        r = self.rng
        if last is None:
            return self.start()
        nr = len(s.get("m") or [])
        if nr == 0:
            return None
        nc = len(s["m"][0])

        def idx(n):
            x = r.random()
            if x < 0.6:
                return r.randrange(n)
            if x < 0.9:
                return -r.randint(1, n)
            return r.choice([n, n + 1, -n - 1, n + 40])

        def cnt():
            return r.choice([1, 1, 1, 2, 2, 3, 4, 0, -1])
        ops = ["append_rows", "append_columns", "insert_rows", "insert_columns", "delete_rows", "delete_columns"] * 2 + \
            ["set_value"] * 5 + ["set_cell", "copy_cell"] * 3 + ["hold", "held_set", "row_style", "column_style"] * 2 + \
            ["get", "get_row", "get_column", "reload", "clear", "reset", "set_noncell", "bad_ref"]
        a = r.choice(ops)
        if a in ("append_rows", "insert_rows") and nr > 2 * self.max or a in ("append_columns", "insert_columns") and nc > 2 * self.max:
            a = "set_value"
        if a in ("clear", "reset") and r.random() < 0.7:
            a = "set_value"
        op = {"a": a}
        if a in ("append_rows", "append_columns"):
            op["n"] = cnt()
        elif a in ("insert_rows", "delete_rows"):
            op["i"], op["n"] = idx(nr), cnt()
        elif a in ("insert_columns", "delete_columns"):
            op["i"], op["n"] = idx(nc), cnt()
        elif a in ("set_value", "set_cell"):
            op["i"], op["j"], op["t"] = idx(nr), idx(nc), self.tok()
        elif a == "copy_cell":
            op["i"], op["j"], op["i2"], op["j2"] = idx(nr), idx(nc), idx(nr), idx(nc)
        elif a in ("hold", "get", "set_noncell"):
            op["i"], op["j"] = idx(nr), idx(nc)
        elif a == "held_set":
            op["t"] = self.tok()
        elif a == "get_row":
            op["i"] = idx(nr)
        elif a == "get_column":
            op["i"] = idx(nc)
        elif a == "row_style":
            op["i"], op["t"] = idx(nr), self.tok()
        elif a == "column_style":
            op["i"], op["t"] = idx(nc), self.tok()
        elif a == "reset":
            op["nr"], op["nc"] = r.choice([0, 1, 2, 5]), r.choice([0, 1, 3, 4])
        elif a == "bad_ref":
            op["w"] = r.choice(["A0", "", "1", "A", "A-1", "$A$1", " A1", "A1 ", "A 1", "A1\n", "A1B", "1A", "A1.5", "#none", "#float", "#list"])
        if self.cuts(op, s["m"]):
            return {"a": "get_row", "i": idx(nr)}
        return op

    def cuts(self, op, m):
        """edits which cut a span or replace a part of it"""
        a, nc = op["a"], len(m[0])
        marked = lambda i, j: -len(m) <= i < len(m) and -nc <= j < nc and split(m[i][j])[0] != ""
        if a == "set_cell":
            return marked(op["i"], op["j"])
        if a == "copy_cell":
            return marked(op["i"], op["j"]) or marked(op["i2"], op["j2"])
        if a in ("insert_columns", "delete_columns") and -nc <= op["i"] < nc:
            p = op["i"] % nc
            ends = [p] + ([p + op["n"]] if a == "delete_columns" else [])
            return any(x < nc and split(r[x])[0] == "~" for r in m for x in ends)
        return False
