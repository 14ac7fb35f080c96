"""Prelude and epilogue blocks (C28)."""
import common
from lxml import etree
if common.ezodf:
    from ezodf.nodeorganizer import PreludeEpilogueOrganizer, PreludeTagBlock, EpilogueTagBlock
    from ezodf.nodestructurechecker import NodeStructureChecker
ALWAYS_FRESH = False


class Adapter(common.Adapter):
    def __init__(self):
        self.node = None

    def fingerprint(self):
        return None if self.node is None else etree.tostring(self.node)

    def project(self):
        if self.node is None:
            return {}
        return {"kids": [[e.tag, int(e.get("n"))] for e in self.node]}

    def elem(self, x):
        e = etree.Element(x[0])
        e.set("n", str(x[1]))
        return e

    def op_setup(self, op):
        self.node = etree.Element("node")
        for x in op["kids"]:
            self.node.append(self.elem(x))
        self.org = PreludeEpilogueOrganizer(op["pre"], op["epi"])
        self.blocks = {"p": PreludeTagBlock(self.node, op["pre"]), "e": EpilogueTagBlock(self.node, op["epi"])}
        self.checker = NodeStructureChecker(op["pre"], ["g", "h"], op["epi"])

    def op_reorder(self, op):
        self.org.reorder(self.node)

    def op_len(self, op):
        return "ok", [len(self.blocks[op["w"]])]

    def op_info(self, op):
        return "ok", list(self.blocks[op["w"]].tag_info(op["t"]))

    def ask(self, op):
        b = self.blocks[op["w"]]
        f = b.insert_position_before if op["side"] == "before" else b.insert_position_after
        return f(op["t"]) if op["t"] else f()

    def op_position(self, op):
        return "ok", [self.ask(op)]

    def op_put(self, op):
        p = self.ask(op)
        self.node.insert(p, self.elem(op["x"]))
        return "ok", [p]

    def op_drop(self, op):
        del self.node[op["i"]]

    def op_valid(self, op):
        return "ok", [self.checker.is_valid(self.node)]

    def op_block(self, op):
        (PreludeTagBlock if op["w"] == "p" else EpilogueTagBlock)(etree.Element("node"), op["tags"])


class Driver(object):
    def __init__(self, rng, n, par):
        self.rng, self.k = rng, 1000

    def next(self, s, last):
        r = self.rng
        if last is None:
            tags = list("abcdefghijuvwxyz")
            r.shuffle(tags)
            i, j = r.randint(1, 5), r.randint(1, 5)
            self.pre, self.epi = tags[:i], tags[i:i + j]
            pool = self.pre * 3 + self.epi * 3 + ["g", "h"] * 2
            ks = [r.choice(pool) for _ in range(r.randint(0, 12))]
            if r.random() < 0.5:       # ordered blocks
                ks = sorted([k for k in ks if k in self.pre], key=self.pre.index) + [k for k in ks if k not in self.pre + self.epi] + \
                    sorted([k for k in ks if k in self.epi], key=self.epi.index)
            return {"a": "setup", "kids": [[t, n] for n, t in enumerate(ks)], "pre": self.pre, "epi": self.epi}
        if "kids" not in s:
            return None
        a = r.choice(["reorder", "len", "info", "info", "position", "position", "position", "put", "put", "put", "drop", "valid", "block"])
        if a == "block":
            return {"a": a, "w": r.choice("pe"), "tags": [r.choice("abcd") for _ in range(r.randint(0, 4))]}
        if a == "drop":
            if not s["kids"]:
                a = "reorder"
            else:
                return {"a": a, "i": r.randrange(len(s["kids"]))}
        op = {"a": a}
        if a in ("len", "info", "position", "put"):
            op["w"] = r.choice("pe")
            own = self.pre if op["w"] == "p" else self.epi
        if a in ("info", "position", "put"):
            op["t"] = r.choice(own) if r.random() < 0.92 else r.choice("abcxyz")
        if a in ("position", "put"):
            op["side"] = r.choice(["before", "after"])
            if r.random() < 0.15:
                op["t"] = ""
                op["side"] = "after" if op["w"] == "p" else "before"
        if a == "put":
            self.k += 1
            op["x"] = [op["t"] or r.choice("gh"), self.k]
        return op
