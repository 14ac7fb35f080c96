"""Cell spans (C11, C10)."""
import common
from lxml import etree
from domains import table as T
if common.ezodf:
    from ezodf.xmlns import wrap
    from ezodf import Table
ALWAYS_FRESH = False
X = "{urn:x-app:ext}"


def put(cell, tok):
    cell.set_value(tok)
    cell.style_name = "S" + tok
    if tok.startswith("f"):
        cell.formula = "=" + tok
        cell.protected = True
        cell.content_validation_name = "V" + tok
    if not cell.covered and len(tok) % 2:
        for k in MATRIX:
            cell.xmlnode.set(k, "1")
        cell.xmlnode.set(X + "note", tok)


def token(c):
    v = c.value
    extra = [c.formula, c.protected, c.content_validation_name]
    if v is None:
        return "" if extra == [None, False, None] and c.style_name is None and c.value_type is None and len(c) == 0 else "?attrs"
    want = ["=" + v, True, "V" + v] if v.startswith("f") else [None, False, None]
    if extra != want or c.style_name != "S" + v or c.value_type != "string" or c.plaintext() != v:
        return "?%s %s" % (common.esc(v), extra)
    return common.esc(v)


SPANNED = [T.T + "number-%s-spanned" % n for n in ("rows", "columns")]
MATRIX = [T.T + "number-matrix-%s-spanned" % n for n in ("rows", "columns")]


def others(c):
    """all about a cell but its span, and what only an uncovered cell has"""
    drop = SPANNED + (MATRIX if c.covered else [])
    return dict((k, v) for k, v in c.xmlnode.attrib.items() if k not in drop), [etree.tostring(e) for e in c.xmlnode], c.xmlnode.text


class Adapter(common.Adapter):
    def __init__(self):
        self.t = None

    def cells(self):
        return [self.t.get_cell((i, j)) for i in range(self.t.nrows()) for j in range(self.t.ncols())]

    def kept(self, call):
        """the call changes nothing but spans"""
        before = [(c.covered, others(c)) for c in self.cells()]
        call()
        for (covered, other), c in zip(before, self.cells()):
            now = others(c)
            if c.covered and not covered:
                other = (dict((k, v) for k, v in other[0].items() if k not in MATRIX),) + other[1:]
            if now != other:
                raise RuntimeError("a cell changed from %r to %r" % (other, now))

    def fingerprint(self):
        return None if self.t is None else etree.tostring(self.t.xmlnode)

    def project(self):
        if self.t is None:
            return {"m": [], "sp": [], "cov": []}
        t = self.t
        R, C = range(t.nrows()), range(t.ncols())
        cells = [[t.get_cell((i, j)) for j in C] for i in R]
        return {"m": [[token(c) for c in r] for r in cells],
                "sp": [[list(c.span) for c in r] for r in cells],
                "cov": [["c" if c.covered else "" for c in r] for r in cells]}

    def op_new(self, op):
        self.t = Table("T", size=(op["nr"], op["nc"]))

    def op_load(self, op):
        x = T.xml_table(op["m"], [""] * len(op["m"]), [""] * len(op["m"][0]), "plain", cell=T.plain_cell)
        rows = T.xml_parts(x, "table-row")
        for i, r in enumerate(op["sp"]):
            for j, (h, w) in enumerate(r):
                if (h, w) != (1, 1):
                    rows[i][j].set(T.T + "number-rows-spanned", str(h))
                    rows[i][j].set(T.T + "number-columns-spanned", str(w))
                    for a in range(i, i + h):
                        for b in range(j, j + w):
                            if (a, b) != (i, j):
                                rows[a][b].tag = T.T + "covered-table-cell"
        for i, r in enumerate(op["m"]):
            for j, tok in enumerate(r):
                if tok.startswith("f"):
                    rows[i][j].set(T.T + "formula", "=" + tok)
                    rows[i][j].set(T.T + "protect", "true")
                    rows[i][j].set(T.T + "content-validation-name", "V" + tok)
                    rows[i][j].set(X + "note", tok)
                    if rows[i][j].tag != T.T + "covered-table-cell":
                        for k in MATRIX:
                            rows[i][j].set(k, "2")
        self.t = wrap(etree.fromstring(etree.tostring(x)))

    def pos(self, op):
        i, j = op["i"], op["j"]
        return T.addr(i, j) if i >= 0 and j >= 0 and (i + j) % 2 else (i, j)

    def op_set_span(self, op):
        self.kept(lambda: self.t.set_cell_span(self.pos(op), (op["h"], op["w"])))

    def op_remove_span(self, op):
        self.kept(lambda: self.t.remove_cell_span(self.pos(op)))

    def op_set_value(self, op):
        # keeps the other attributes of the cell: they follow the token
        c = self.t[op["i"], op["j"]]
        for k in ("formula", "protect", "content-validation-name"):
            c.xmlnode.attrib.pop(T.T + k, None)
        put(c, op["t"])

    def op_insert_rows(self, op):
        self.t.insert_rows(op["i"], op["n"])

    def op_insert_columns(self, op):
        self.t.insert_columns(op["i"], op["n"])

    def op_append_rows(self, op):
        self.t.append_rows(op["n"])

    def op_append_columns(self, op):
        self.t.append_columns(op["n"])

    def op_delete_rows(self, op):
        self.t.delete_rows(op["i"], op["n"])

    def op_delete_columns(self, op):
        self.t.delete_columns(op["i"], op["n"])

    def op_reset(self, op):
        self.t.reset((op["nr"], op["nc"]))

    def op_reload(self, op):
        self.t = wrap(etree.fromstring(etree.tostring(self.t.xmlnode)))

    def op_copy(self, op):
        self.t = self.t.copy()


class Driver(object):
    def __init__(self, rng, n, par):
        self.rng, self.k, self.max = rng, 0, par.get("max", 7)

    def next(self, s, last):
        r = self.rng
        if last is None:
            nr, nc = r.randint(1, self.max), r.randint(1, self.max)
            if r.random() < 0.4:
                return {"a": "new", "nr": nr, "nc": nc}
            m = [[r.choice(["", "a", "f%d.%d" % (i, j)]) for j in range(nc)] for i in range(nr)]
            sp = [[[1, 1] for _ in range(nc)] for _ in range(nr)]
            i, j = r.randrange(nr), r.randrange(nc)
            sp[i][j] = [r.randint(1, nr - i), r.randint(1, nc - j)]
            return {"a": "load", "m": m, "sp": sp}
        if not s.get("m"):
            return None
        nr, nc = len(s["m"]), len(s["m"][0])
        anchors = [(i, j, s["sp"][i][j]) for i in range(nr) for j in range(nc) if s["sp"][i][j] != [1, 1]]
        a = r.choice(["set_span"] * 6 + ["remove_span"] * 3 + ["set_value"] * 2 + ["insert_rows", "insert_columns", "append_rows",
                      "append_columns", "delete_rows", "delete_columns", "reload", "copy"])
        i, j = r.randrange(nr), r.randrange(nc)
        self.k += 1
        if a == "set_span":
            x = r.random()
            h, w = r.choice([1, 1, 2, 2, 3, nr - i]), r.choice([1, 2, 2, 3, nc - j])
            if x < 0.08:
                i, j = r.choice([(-1, 0), (0, -1), (nr, 0), (0, nc), (-1, -1)])
            elif x < 0.14:
                h, w = r.choice([(0, 1), (1, 0), (-1, 2), (nr + 1, 1), (1, nc + 1)])
            return {"a": a, "i": i, "j": j, "h": h, "w": w}
        if a == "remove_span":
            if anchors and r.random() < 0.6:
                i, j, _ = r.choice(anchors)
            elif r.random() < 0.15:
                i, j = r.choice([(nr, 0), (0, nc), (-nr - 1, 0)])
            return {"a": a, "i": i, "j": j}
        if a == "set_value":
            return {"a": a, "i": i, "j": j, "t": r.choice("fx") + str(self.k)}
        if a in ("append_rows", "append_columns"):
            if max(nr, nc) > 12:
                return {"a": "reload"}
            return {"a": a, "n": r.randint(1, 2)}
        d = 0 if a.endswith("rows") else 1
        lim = (nr, nc)[d]
        if a.startswith("insert"):
            ok = [p for p in range(lim) if not any(x[d] < p < x[d] + x[2][d] for x in anchors)]
            if lim > 12 or not ok:
                return {"a": "reload"}
            return {"a": a, "i": r.choice(ok), "n": r.randint(1, 2)}
        if a.startswith("delete"):
            ok = [(p, n) for p in range(lim) for n in (1, 2, 3) if n < lim and p + n <= lim and
                  all(x[d] + x[2][d] <= p or x[d] >= p + n or (x[d] >= p and x[d] + x[2][d] <= p + n) for x in anchors)]
            if not ok:
                return {"a": "copy"}
            p, n = r.choice(ok)
            return {"a": a, "i": p, "n": n}
        return {"a": a}
