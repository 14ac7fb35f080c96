"""Copied tables (C15)."""
import common
from lxml import etree
from domains import table as T
if common.ezodf:
    import ezodf
    from ezodf.xmlns import wrap
    from ezodf import Table
ALWAYS_FRESH = False


class Adapter(common.Adapter):
    def __init__(self):
        self.ts = []
        self.doc = None
        self.sub = T.Adapter()

    def fingerprint(self):
        return [etree.tostring(t.xmlnode) for t in self.ts]

    def project(self):
        out = []
        for t in self.ts:
            m, ri, ci = T.table_state(t)
            m = [[T.split(x)[1] for x in r] for r in m]     # spans are told by "sp"
            R, C = range(t.nrows()), range(t.ncols())
            xml = etree.fromstring(etree.tostring(t.xmlnode))
            rows = T.xml_parts(xml, "table-row")
            infos = [T.info_xml_token(c) for c in T.xml_parts(xml, "table-column")]
            if [[T.split(T.xml_token(self.plain(c)))[1] for c in r] for r in rows] != m:
                m = [["?xml differs"]]
            if [T.info_xml_token(c) for c in rows] != ri:
                ri = ["?xml differs"]
            if infos[:len(ci)] != ci:
                ci = ["?xml differs"]
            out.append({"nm": t.name or "", "x": self.own(t, xml), "m": m, "ri": ri, "ci": ci, "cx": infos[len(ci):], "ex": T.extras(xml),
                        "sp": [[list(t[i, j].span) for j in C] for i in R]})
        keys = [o["x"][3] for o in out]
        for o in out:
            if o["x"][3] != "0":
                o["x"][3] = str(keys.index(o["x"][3]) + 1)
        return {"tabs": out}

    OWN = ("name", "style-name", "print", "protected", "protection-key")

    def own(self, t, xml):
        """style name, print, protected and key of a table, "?" for what the element tells otherwise"""
        says = lambda n: xml.get(T.T + n)
        tf = lambda b: "true" if b else "false"
        out = [t.style_name or "", tf(t.print_), tf(t.protected), "k" + says("protection-key") if says("protection-key") else "0"]
        if set(xml.attrib) - set(T.T + n for n in self.OWN) or says("name") != t.name or not t.name and t.name is not None or (says("style-name") or "") != out[0] \
                or (says("print") or "false") != out[1] or (says("protected") or "false") != out[2]:
            out[0] = "?" + out[0]
        return out

    @staticmethod
    def plain(c):
        for k in ("number-rows-spanned", "number-columns-spanned"):
            c.attrib.pop(T.T + k, None)
        return c

    def op_new(self, op):
        self.ts.append(Table(op["nm"], size=(op["nr"], op["nc"])))

    def op_load(self, op):
        x = T.xml_table(op["rows"], op["ri"], op["ci"], op["lay"], op["nm"], ex=op["ex"])
        for n, w, none in zip(self.OWN[1:], op["x"], ("", "-", "false", "0")):
            if w != none:
                x.set(T.T + n, w)
        self.ts.append(wrap(etree.fromstring(etree.tostring(x))))

    def op_copy(self, op):
        t = self.ts[op["k"] - 1]
        self.ts.append(t.copy() if op["nm"] == "#none" else t.copy(op["nm"]))

    def op_on(self, op):
        self.sub.t = self.ts[op["k"] - 1]
        r = self.sub.apply(op["op"])
        return r if r is None else (r[0], [])

    def op_assign(self, op):
        self.ts[op["k"] - 1][op["i"], op["j"]] = self.ts[op["k2"] - 1][op["i2"], op["j2"]]

    def op_span(self, op):
        self.ts[op["k"] - 1].set_cell_span((op["i"], op["j"]), (op["h"], op["w"]))

    def op_unspan(self, op):
        self.ts[op["k"] - 1].remove_cell_span((op["i"], op["j"]))

    def op_rename(self, op):
        self.ts[op["k"] - 1].name = op["nm"]

    def op_style(self, op):
        self.ts[op["k"] - 1].style_name = op["t"]

    def op_print(self, op):
        self.ts[op["k"] - 1].print_ = op["t"] == "true"

    def op_protect(self, op):
        self.ts[op["k"] - 1].protected = op["t"] == "true"

    def op_attach(self, op):
        if self.doc is None:
            self.doc = ezodf.newdoc("ods")
        t = self.ts[op["k"] - 1]
        if not any(s.xmlnode is t.xmlnode for s in self.doc.sheets):
            self.doc.sheets.append(t)


class Driver(object):
    def __init__(self, rng, n, par):
        self.rng, self.k = rng, 0
        self.tab = T.Driver(rng, n, {"max": 4})

    def next(self, s, last):
        r = self.rng
        ts = s.get("tabs") or []
        self.k += 1
        if not ts:
            if last is not None:
                return None
            o = None
            while o is None or o["a"] != "load" or len(set(len(x) for x in o["rows"])) != 1 or \
                    any(T.split(x)[0] for row in o["rows"] for x in row):
                o = self.tab.start()
            p = r.random() < 0.4
            return dict(o, nm=r.choice(["A", "A", ""]), x=[r.choice(["", "o"]), r.choice(["true", "false"]), "true" if p else "false", "key" if p else "0"])
        if len(ts) < 4 and r.random() < 0.25:
            return {"a": "copy", "k": r.randint(1, len(ts)), "nm": r.choice(["#none", "C%d" % self.k])}
        k = r.randint(1, len(ts))
        t = ts[k - 1]
        nr, nc = len(t["m"]), len(t["m"][0])
        has = lambda x: any(c != [1, 1] for row in x["sp"] for c in row)
        a = r.choice(["on"] * 8 + ["assign", "span", "unspan", "rename", "style", "print", "protect", "attach"])
        if a == "on":
            for _ in range(50):
                o = self.tab.next({"m": t["m"]}, True)
                if o["a"] in ("hold", "held_set", "reload", "get", "get_row", "get_column", "bad_ref"):
                    continue
                if has(t) and o["a"] not in ("set_value", "row_style", "column_style", "set_noncell"):
                    continue
                return {"a": "on", "k": k, "op": o}
            a = "rename"
        if a == "assign":
            k2 = r.randint(1, len(ts))
            u = ts[k2 - 1]
            if has(t) or has(u):
                a = "rename"
            else:
                return {"a": a, "k": k, "i": r.randrange(nr), "j": r.randrange(nc), "k2": k2, "i2": r.randrange(len(u["m"])), "j2": r.randrange(len(u["m"][0]))}
        if a == "span":
            return {"a": a, "k": k, "i": r.randrange(nr), "j": r.randrange(nc), "h": r.randint(1, 3), "w": r.randint(1, 3)}
        if a == "unspan":
            return {"a": a, "k": k, "i": r.randrange(nr), "j": r.randrange(nc)}
        if a == "style":
            return {"a": a, "k": k, "t": "s%d" % self.k}
        if a in ("print", "protect"):
            return {"a": a, "k": k, "t": r.choice(["true", "false"])}
        if a == "attach":
            return {"a": a, "k": k}
        return {"a": "rename", "k": k, "nm": "R%d" % self.k}
