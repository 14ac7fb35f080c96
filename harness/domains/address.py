"""Addresses (C14)."""
import common
from lxml import etree
from domains import table as T
if common.ezodf:
    from ezodf import Table, Cell
    from ezodf.tableutils import address_to_index
ALWAYS_FRESH = False


class Adapter(common.Adapter):
    def __init__(self):
        self.t = None

    def fingerprint(self):
        return None if self.t is None else etree.tostring(self.t.xmlnode)

    def op_table(self, op):
        self.t = Table("T", size=(op["nr"], op["nc"]))
        for i in range(op["nr"]):
            for j in range(op["nc"]):
                self.t[i, j].set_value("%d.%d" % (i, j))
        self.base = [["%d.%d" % (i, j) for j in range(op["nc"])] for i in range(op["nr"])]
        self.w, self.rs, self.cs = [], [], []

    def changes(self):
        t = self.t
        now = [[t[i, j].value for j in range(t.ncols())] for i in range(t.nrows())]
        out = [[str(i), str(j), str(v)] for i, r in enumerate(now) for j, v in enumerate(r) if v != self.base[i][j]]
        return now, out

    def project(self):
        t = self.t
        if t is None:
            return {}
        self.base, new = self.changes()
        self.w += new
        for name, log, n, f in (("rs", self.rs, t.nrows(), t.row_info), ("cs", self.cs, t.ncols(), t.column_info)):
            cur = dict((x, y) for x, y in log)
            for k in range(n):
                s = f(k).style_name or ""
                if s != cur.get(str(k), ""):
                    log.append([str(k), s])
        return {"nr": t.nrows(), "nc": t.ncols(), "w": list(self.w), "rs": list(self.rs), "cs": list(self.cs)}

    def op_parse(self, op):
        r, c = address_to_index("".join(op["w"]))
        return "ok", [int(r), int(c)]

    def op_get(self, op):
        return "ok", [str(self.t["".join(op["w"])].value)]

    def op_set(self, op):
        self.t["".join(op["w"])] = Cell(op["t"])

    def op_row(self, op):
        return "ok", [str(c.value) for c in self.t.row("".join(op["w"]))]

    def op_column(self, op):
        return "ok", [str(c.value) for c in self.t.column("".join(op["w"]))]

    def op_row_info(self, op):
        self.t.row_info("".join(op["w"])).style_name = op["t"]

    def op_column_info(self, op):
        self.t.column_info("".join(op["w"])).style_name = op["t"]

    def op_span(self, op):
        w = "".join(op["w"])
        t = self.t
        t.set_cell_span(w, (1, 2))
        where = [[i, j] for i in range(t.nrows()) for j in range(t.ncols()) if t[i, j].span != (1, 1)]
        t.remove_cell_span(w)
        if any(t[i, j].span != (1, 1) or t[i, j].covered for i, j in where) or len(where) != 1:
            return "ok", ["?"]
        return "ok", [str(where[0][0]), str(where[0][1])]


class Driver(object):
    def __init__(self, rng, n, par):
        self.rng, self.k = rng, 0

    def word(self, s):
        r = self.rng
        x = r.random()
        if x < 0.35:       # inside the table
            i, j = r.randrange(s["nr"]), r.randrange(s["nc"])
            w = T.colname(j) + "0" * r.choice([0, 0, 0, 1, 3]) + str(i + 1)
        elif x < 0.6:      # far away
            w = T.colname(r.choice([25, 26, 51, 52, 701, 702, 703, 18277, 18278, r.randrange(10 ** 5), r.randrange(10 ** 7)])) + str(r.choice([1, 9, 10, 99, 100, r.randrange(1, 10 ** 9)]))
        elif x < 0.8:      # near misses
            w = T.colname(r.randrange(60)) + str(r.randrange(40))
            k = r.randrange(len(w) + 1)
            w = w[:k] + r.choice(["", " ", "-", "+", "$", ".", "\n", "\t", "0", "_", ":", "²", "٣", "Ä", "ß", "é"]) + w[k + r.choice([0, 0, 1]):]
        else:
            w = "".join(r.choice("AZaz019 $.-:\n") for _ in range(r.randint(0, 6)))
        if r.random() < 0.5:
            w = "".join(c.lower() if r.random() < 0.5 else c for c in w)
        w = list(w)
        # keep the numbers of the specification below 2**31
        if len([c for c in w if c.isalpha()]) > 6 or len([c for c in w if c.isdigit()]) > 9:
            return ["A", "1"]
        return w

    def next(self, s, last):
        r = self.rng
        if last is None:
            return {"a": "table", "nr": r.choice([1, 2, 5, 12]), "nc": r.choice([1, 3, 27, 30, 60])}
        if not s:
            return None
        a = r.choice(["parse"] * 4 + ["get", "set", "row", "column", "row_info", "column_info", "span"])
        self.k += 1
        return {"a": a, "w": self.word(s), "t": "t%d" % self.k}
