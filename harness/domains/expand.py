"""Repetition attributes (C12)."""
import os, tempfile
import common
from lxml import etree
from domains import table as T
if common.ezodf:
    import ezodf
    from ezodf.xmlns import wrap
ALWAYS_FRESH = False
TT, O, X = T.T, T.O, T.X


def element(name, n, key):
    e = etree.Element(TT + name)
    if n != 1 or key:
        e.set(TT + ("number-rows-repeated" if name == "table-row" else "number-columns-repeated"), str(n))
    return e


def build(op):
    t = etree.Element(TT + "table", nsmap={"table": T.TNS, "office": T.ONS, "text": T.XNS})
    t.set(TT + "name", "T")
    lay = op["lay"]
    cols = []
    for c in op["cols"]:
        e = element("table-column", c["n"], lay == "explicit")
        if c["t"]:
            e.set(TT + "style-name", c["t"])
        cols.append(e)
    rows = []
    for r in op["rows"]:
        e = element("table-row", r["n"], lay == "explicit")
        if r["t"]:
            e.set(TT + "style-name", r["t"])
        for c in r["c"]:
            x = element("covered-table-cell" if c["v"] else "table-cell", c["n"], False)
            if c["t"]:
                x.set(TT + "style-name", "S" + c["t"])
                x.set(O + "value-type", "string")
                etree.SubElement(x, X + "p").text = c["t"]
            if lay == "nested" and c is r["c"][0] and r is op["rows"][0]:
                # a table inside a cell has its own rows and columns
                n = etree.SubElement(x, TT + "table")
                etree.SubElement(n, TT + "table-column").set(TT + "number-columns-repeated", "2")
                nr = etree.SubElement(n, TT + "table-row")
                nr.set(TT + "number-rows-repeated", "2")
                for _ in range(4):      # more columns than the table around it
                    etree.SubElement(nr, TT + "table-cell")
            e.append(x)
        rows.append(e)
    k = len(rows) // 2
    if lay == "header":
        if cols:
            etree.SubElement(t, TT + "table-header-columns").extend(cols[:1])
            t.extend(cols[1:])
        etree.SubElement(t, TT + "table-header-rows").extend(rows[:max(k, 1)])
        t.extend(rows[max(k, 1):])
    elif lay == "group":
        if cols:
            g = etree.SubElement(t, TT + "table-column-group")
            etree.SubElement(g, TT + "table-columns").extend(cols[:1])
            t.extend(cols[1:])
        t.extend(rows[:k])
        g = etree.SubElement(t, TT + "table-row-group")
        etree.SubElement(g, TT + "table-row-group").extend(rows[k:])
    else:
        t.extend(cols)
        t.extend(rows)
    return t


class Adapter(common.Adapter):
    def __init__(self):
        self.cfg = ["all_less_maxcount", 32, 32]
        self.t = None

    def project(self):
        s = {"cfg": list(self.cfg)}
        t = self.t
        if t is None:
            return dict(s, m=[], ri=[], ci=[], left=0)
        R, C = range(t.nrows()), range(t.ncols())
        m = [[[self.token(t[i, j]), "c" if t[i, j].covered else ""] for j in C] for i in R]
        left = 0
        for name in ("table-row", "table-column", "table-cell", "covered-table-cell"):
            for e in t.xmlnode.iter(TT + name):
                if T.is_own(e, t.xmlnode, TT + "table"):
                    for k in ("rows", "columns"):
                        left += int(e.get(TT + "number-%s-repeated" % k, "1")) > 1
        ci = []
        for j in range(10 ** 4):
            try:
                ci.append(t.column_info(j).style_name or "")
            except IndexError:
                break
        return dict(s, m=m, ri=[t.row_info(i).style_name or "" for i in R], ci=ci, left=left)

    def token(self, c):
        kids = [k for k in c.xmlnode if k.tag == TT + "table"]
        if kids:
            v = c.value
            return "" if v is None and c.style_name is None else common.esc(str(v)) if c.style_name == "S%s" % v else "?"
        return T.plain_token(c)

    def op_strategy(self, op):
        ezodf.config.set_table_expand_strategy(op["st"], (op["mr"], op["mc"]))
        self.cfg = [op["st"], op["mr"], op["mc"]]

    def op_strategy_only(self, op):
        ezodf.config.set_table_expand_strategy(op["st"])
        self.cfg = [op["st"], 32, 32]

    def op_reset(self, op):
        ezodf.config.reset_table_expand_strategy()
        self.cfg = ["all_less_maxcount", 32, 32]

    def op_load(self, op):
        x = etree.fromstring(etree.tostring(build(op)))
        if op.get("doc"):
            doc = ezodf.newdoc("ods")
            doc.body.xmlnode.append(x)
            doc = ezodf.opendoc(doc.tobytes())
            self.t = doc.sheets["T"]
            self.doc = doc
        else:
            self.t = wrap(x)

    def op_write(self, op):
        c = self.t[op["i"], op["j"]]
        T.plain_put(c, op["t"])

    def op_row_style(self, op):
        self.t.row_info(op["i"]).style_name = op["t"]

    def op_column_style(self, op):
        self.t.column_info(op["i"]).style_name = op["t"]


class Driver(object):
    def __init__(self, rng, n, par):
        self.rng, self.k = rng, 0

    def load(self):
        r = self.rng
        rep = lambda: r.choice([1, 1, 1, 2, 3, 4, 5, 31, 32, 33] if r.random() < 0.15 else [1, 1, 2, 3, 4, 6])
        rows = []
        for i in range(r.randint(1, 4)):
            cells = [{"n": rep(), "t": r.choice(["", "a", "b%d" % k]), "v": r.choice(["", "", "", "c"])} for k in range(r.randint(0 if i else 1, 4))]
            rows.append({"n": rep(), "t": r.choice(["", "r%d" % i]), "c": cells})
        cols = [{"n": rep(), "t": r.choice(["", "k%d" % k])} for k in range(r.randint(0, 4))]
        wide = max(sum(c["n"] for c in x["c"]) for x in rows)
        if wide * sum(x["n"] for x in rows) > 150:
            return self.load()
        return {"a": "load", "rows": rows, "cols": cols, "lay": r.choice(["plain", "header", "group", "nested", "explicit"]), "doc": r.random() < 0.15}

    def next(self, s, last):
        r = self.rng
        self.k += 1
        a = r.choice(["strategy", "strategy_only", "reset"] + ["load"] * 5 + ["write"] * 3 + ["row_style", "column_style"])
        m = s.get("m") or []
        if a in ("write", "row_style", "column_style") and (not m or not m[0]):
            a = "load"
        if a == "strategy":
            return {"a": a, "st": r.choice(["all", "all_but_last", "all_less_maxcount", "all_less_maxcount"]), "mr": r.choice([1, 2, 3, 4, 32]), "mc": r.choice([1, 2, 3, 5, 32])}
        if a == "strategy_only":
            return {"a": a, "st": r.choice(["all", "all_but_last", "all_less_maxcount"])}
        if a == "load":
            return self.load()
        if a == "write":
            return {"a": a, "i": r.randrange(len(m)), "j": r.randrange(len(m[0])), "t": "w%d" % self.k}
        if a == "row_style":
            return {"a": a, "i": r.randrange(len(m)), "t": "w%d" % self.k}
        if a == "column_style":
            return {"a": a, "i": r.randrange(len(s["ci"])), "t": "w%d" % self.k}
        return {"a": "reset"}
