"""Events and listeners (C23)."""
import gc
import common
from lxml import etree
if common.ezodf:
    from ezodf import observer
    from ezodf.base import GenericWrapper
ALWAYS_FRESH = False
EVENTS = ["e1", "e2", "e3"]


def make_class(bus, events, rooted):
    """a listener with handlers for the given events; rooted listeners are wrapped elements"""
    def handler(event):
        def on(self, msg):
            bus.called(self, event, msg)
        return on
    d = {"on_%s_handler" % bus.name(e): handler(e) for e in events}
    return type("Listener", (GenericWrapper,) if rooted else (object,), d)


BOOM = {1: AttributeError, 2: KeyError, 3: ValueError, 4: TypeError, 5: StopIteration}


class Adapter(common.Adapter):
    def __init__(self):
        self.ls, self.obj = [], {}
        self.o, self.log, self.probing = None, [], False
        self.suffix, self.sent, self.boom = "", 0, None

    def name(self, e):
        # one name can be the beginning or the end of another one
        return {"e1": "ev%s", "e2": "ev%s_more", "e3": "my_ev%s"}[e] % self.suffix

    def fingerprint(self):
        return None

    def message(self):
        """also such as are false, or none"""
        self.sent += 1
        return [object(), None, 0, "", [], False, {}, etree.Element("m")][self.sent % 8]

    def called(self, listener, event, msg):
        self.log.append((listener.number, event, msg is self.msg))
        if self.probing:
            return
        kind, t = self.ls[listener.number - 1]["react"]
        if kind == "boom":
            self.boom = BOOM[t]("from the handler of listener %d" % listener.number)
            raise self.boom
        if kind == "unsub":
            try:
                self.unsubscribe(self.name(event), self.obj[t])
            except KeyError:
                pass
        elif kind == "sub":
            self.subscribe(self.name(event), self.obj[t])
        elif kind == "kill" and t in self.obj:
            del self.obj[t]
            gc.collect()

    def project(self):
        if self.o is None:
            return {}
        subs = {}
        keep, self.log, self.probing = self.log, [], True
        try:
            for e in EVENTS:
                self.log = []
                self.msg = self.message()
                self.broadcast(self.name(e), msg=self.msg)
                subs[e] = sorted(n if ok and ev == e else -n for n, ev, ok in self.log)
        finally:
            self.log, self.probing = keep, False
        return {"subs": subs}

    def op_setup(self, op):
        import itertools
        if op["glob"]:
            self.suffix = "_%d" % next(COUNTER)
            self.o = observer
            self.subscribe, self.unsubscribe, self.broadcast = observer.subscribe, observer.unsubscripe, observer.broadcast
        else:
            self.o = observer.Observer()
            self.subscribe, self.unsubscribe, self.broadcast = self.o.subscribe, self.o.unsubscribe, self.o.broadcast
        self.ls = op["ls"]
        self.roots = {1: etree.Element("root"), 2: etree.Element("root"), 3: etree.Element("root")}
        for k in (1, 2):
            etree.SubElement(self.roots[k], "part")
        for n, l in enumerate(self.ls):
            self.build(n + 1, l)

    def build(self, n, l):
        cls = make_class(self, l["ev"], l["root"] > 0)
        if l["root"] > 0:
            root = self.roots[l["root"]]
            node = root if l["root"] == 3 else etree.SubElement(root if n % 2 else root[0], "node")
            obj = cls(xmlnode=node)
        else:
            obj = cls()
        obj.number = n
        self.obj[n] = obj

    def op_subscribe(self, op):
        self.subscribe(self.name(op["e"]), self.obj[op["x"]])

    def op_fill(self, op):
        for x in op["xs"]:
            self.subscribe(self.name(op["e"]), self.obj[x])

    def op_unsubscribe(self, op):
        self.unsubscribe(self.name(op["e"]), self.obj[op["x"]])

    def classify(self, op, e):
        if op["a"] == "subscribe":
            return "rej" if isinstance(e, AttributeError) else "crash:" + type(e).__name__
        boom, self.boom = self.boom, None        # its traceback would keep the listener
        if op["a"] == "broadcast" and e is boom:
            bad = [c for c in self.log if not c[2] or c[1] != op["e"]]
            return "crash:%r" % bad if bad or len(set(self.log)) < len(self.log) else "rej"
        return common.Adapter.classify(self, op, e)

    def op_destroy(self, op):
        del self.obj[op["x"]]
        self.boom = None
        gc.collect()

    def op_move(self, op):
        o = self.obj[op["x"]]
        if o.xmlnode is self.roots[3]:
            o.xmlnode = etree.Element("node")
        if op["root"] == 3:
            o.xmlnode = self.roots[3]
        else:
            self.roots[op["root"]].append(o.xmlnode)

    def op_broadcast(self, op):
        self.log, self.msg, self.boom = [], self.message(), None
        if op["root"]:
            self.broadcast(self.name(op["e"]), msg=self.msg, root=self.roots[op["root"]])
        else:
            self.broadcast(self.name(op["e"]), **({} if self.msg is None else {"msg": self.msg}))
        gc.collect()
        return "ok", sorted(n if ok and e == op["e"] else -n for n, e, ok in self.log)

    def close(self):
        self.obj.clear()


import itertools
COUNTER = itertools.count(1)


class Driver(object):
    def __init__(self, rng, n, par):
        self.rng = rng

    def next(self, s, last):
        r = self.rng
        if last is None:
            n = r.randint(1, 7)
            if r.random() < 0.25:
                n = r.choice([10, 18, 40])      # a crowd
            ls = []
            for k in range(n):
                ls.append({"ev": sorted(r.sample(EVENTS, r.randint(0, 3))) if r.random() < 0.3 else list(EVENTS), "root": r.choice([0, 1, 1, 2, 2, 3]), "alive": True, "react": ["none", 0]})
            react = r.random()
            if react < 0.2:          # handlers that fail
                for k in r.sample(range(n), r.randint(1, min(n, 3))):
                    ls[k]["react"] = ["boom", r.choice(sorted(BOOM))]
            elif react < 0.7:     # reactive listeners; their targets do nothing but listen
                ids = list(range(1, n + 1))
                r.shuffle(ids)
                ids = ids[:9]
                while ids:
                    x = ids.pop()
                    ls[x - 1]["ev"] = list(EVENTS)
                    k = r.choice(["none", "self", "unsub", "sub", "kill"])
                    if k == "self":
                        ls[x - 1]["react"] = ["unsub", x]
                    elif k != "none" and ids:
                        t = ids.pop()
                        ls[t - 1]["ev"] = list(EVENTS)
                        ls[x - 1]["react"] = [k, t]
            self.alive = set(range(1, n + 1))
            self.ls = ls
            self.dead = set()
            self.roots = [l["root"] for l in ls]
            return {"a": "setup", "ls": ls, "glob": r.random() < 0.5}
        if "subs" not in s:
            return None
        # listeners destroyed by handlers are not touched any more
        if last["o"]["a"] == "broadcast":
            for x in last["q"]:
                k, t = self.ls[abs(x) - 1]["react"]
                if k == "kill":
                    self.dead.add(t)
        targets = {l["react"][1] for i, l in enumerate(self.ls) if i + 1 not in self.dead}
        alive = [x for x in range(1, len(self.ls) + 1) if x not in self.dead]
        if len(self.ls) > 9 and r.random() < 0.2:
            e = r.choice(EVENTS)
            return {"a": "fill", "e": e, "xs": [x for x in alive if e in self.ls[x - 1]["ev"] and r.random() < 0.9]}
        a = r.choice(["subscribe"] * 6 + ["unsubscribe"] * 2 + ["broadcast"] * 5 + ["destroy", "move"])
        if not alive:
            a = "broadcast"
        if a == "destroy":
            free = [x for x in alive if x not in targets]
            if not free or r.random() < 0.5:
                a = "broadcast"
            else:
                x = r.choice(free)
                self.dead.add(x)
                return {"a": a, "x": x}
        if a == "broadcast":
            return {"a": a, "e": r.choice(EVENTS), "root": r.choice([0, 0, 1, 2, 3])}
        x = r.choice(alive)
        if a == "move":
            if self.roots[x - 1] == 0:
                return {"a": "broadcast", "e": r.choice(EVENTS), "root": r.choice([0, 1, 2, 3])}
            return {"a": a, "x": x, "root": r.choice([1, 2, 3])}
        if a == "unsubscribe" and r.random() < 0.7:
            both = [(e, x) for e in EVENTS for x in s["subs"][e] if x in alive]
            if both:
                e, x = r.choice(both)
                return {"a": a, "x": x, "e": e}
        return {"a": a, "x": x, "e": r.choice(EVENTS)}
