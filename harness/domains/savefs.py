"""Saving with faults at every file-system step (C05). All effects stay in a scratch directory."""
import codecs, errno, io, os, resource, shutil, sys, tempfile
import common
from domains import docstore as ds
if common.ezodf:
    import ezodf
    from ezodf import observer, Paragraph
    from ezodf.document import FlatXMLDocument
ALWAYS_FRESH = False

ACTIVE = []          # the adapter whose save is being watched
WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def hook(event, args):
    if not ACTIVE:
        return
    a = ACTIVE[0]
    if event == "open":
        path, mode, flags = args
        if isinstance(path, (str, bytes)) and a.inside(path):
            a.event("open" if (mode and set(mode) & set("wax+")) or (flags or 0) & WRITE else "read")
    elif event in ("os.rename", "os.remove", "os.link", "os.truncate"):
        if a.inside(args[0]):
            a.event({"os.rename": "rename", "os.link": "rename", "os.remove": "remove", "os.truncate": "remove"}[event])


sys.addaudithook(hook)
NAMES = {"write", "writelines", "close", "flush", "truncate", "open", "copy_file_range", "writestr", "__exit__"}


class Adapter(common.Adapter):
    def __init__(self):
        self.dir = tempfile.mkdtemp(dir=os.environ.get("VERIF_WORK", "."))
        self.cwd = os.getcwd()
        self.doc, self.cache, self.ins, self.order = None, {}, [], []
        self.name = "doc.odt"
        self.poison = False

    def close(self):
        ACTIVE[:] = []
        os.chdir(self.cwd)
        self.doc = None
        shutil.rmtree(self.dir, ignore_errors=True)

    def inside(self, path):
        p = os.fsdecode(path) if isinstance(path, bytes) else path
        return os.path.abspath(p).startswith(self.dir + os.sep)

    # -- what is in the directory
    def token(self, data):
        h = ds.hashlib.sha256(data).digest()
        if h not in self.cache:
            self.cache[h] = self.made.get(h) or self.classify_file(data)
        return self.cache[h]

    def classify_file(self, data):
        v = ds.read_file(data)
        if v["type"] not in ("pkg", "flat") or v.get("wf"):
            return "part"
        t = v["body"][-1] if v["body"] else "empty"
        if v["type"] != ("flat" if self.kind == "flat" else "pkg"):
            t += "?" + v["type"]
        if v["ext"] != self.ext or v["unk"] != self.unk or v["body"] != ["v%d" % i for i in range(len(v["body"]))]:
            t += "?incomplete"
        return t

    def snapshot(self, strays=True):
        d = {"f": "none", "b": "none", "t": [], "o": []}
        left, kept = {}, 0
        for n in sorted(os.listdir(self.dir)):
            p = os.path.join(self.dir, n)
            if n in self.siblings:
                kept += self.siblings[n] == self.ident(p)
                continue
            if os.path.isdir(p):
                if n != "sub":
                    d["o"].append("directory")
                    continue
                for m in sorted(os.listdir(p)):
                    if m == "src.odt":
                        with open(os.path.join(p, m), "rb") as f:
                            d["o"].append(self.token(f.read()))
                    elif strays:
                        d["o"].append("stray")
                continue
            try:
                with open(p, "rb") as f:
                    t = self.token(f.read())
            except FileNotFoundError:
                continue
            if n == self.name:
                d["f"] = t
            elif n == self.name + ".bak":
                d["b"] = t
            elif n in self.others:
                d["o"].append(t)
            else:
                if n not in self.order:
                    self.order.append(n)
                left[n] = t
        if kept < len(self.siblings):
            d["o"].append("!sibling")
        d["t"] = [left[n] for n in self.order if n in left]
        return d

    def signature(self):
        out = []
        for folder in (self.dir, os.path.join(self.dir, "sub")):
            if not os.path.isdir(folder):
                continue
            with os.scandir(folder) as it:
                for e in it:
                    try:
                        s = e.stat()
                        out.append((e.name, s.st_ino, s.st_size, s.st_mtime_ns))
                    except FileNotFoundError:
                        pass
        return sorted(out)

    def instant(self):
        """what a crash would leave behind now"""
        sys.setprofile(None)
        busy, ACTIVE[:] = list(ACTIVE), []
        try:
            sig = self.signature()
            if sig != self.sig:
                self.sig = sig
                d = self.snapshot(strays=False)
                if not self.ins or self.ins[-1] != d:
                    self.ins.append(d)
        finally:
            ACTIVE[:] = busy

    def event(self, kind):
        self.instant()
        sys.setprofile(self.profile)
        self.count[kind] = self.count.get(kind, 0) + 1
        f = self.fault
        if f["k"] == kind and self.count[kind] == f["n"]:
            self.hit = True
            raise OSError({"open": errno.ENOSPC, "read": errno.EIO, "rename": errno.EACCES, "remove": errno.EACCES}[kind], "injected")

    def profile(self, frame, what, arg):
        if what not in ("c_call", "c_return"):
            return
        name = getattr(arg, "__name__", "")
        if name not in NAMES and type(getattr(arg, "__self__", None)).__name__ != "module" or name == "setprofile":
            return
        m = getattr(getattr(arg, "__self__", None), "__name__", None)
        if name not in NAMES and m not in ("posix", "io", "_io", "shutil"):
            return
        self.instant()
        self.ticks += 1
        if self.fault["k"] == "interrupt" and self.ticks == self.fault["n"]:
            self.hit = True
            raise KeyboardInterrupt()
        sys.setprofile(self.profile)

    def project(self):
        if self.doc is None:
            return {}
        return {"dir": self.snapshot(), "ins": self.ins}

    def classify(self, op, e):
        return "crash:" + type(e).__name__

    # -- operations
    def fixture(self, version, kind):
        body = ["v%d" % i for i in range(int(version[1:]) + 1)] if version[0] == "v" else [version]
        flat = kind == "flat"
        c = {"type": "flat" if flat else "pkg", "kind": "odt", "cont": {"body": body, "sty": [], "title": "", "keys": [], "uf": "", "rich": []},
             "ext": [] if flat else self.ext, "unk": self.unk, "man": [], "wf": [], "meta": {"cyc": 3, "gen": "", "date": "", "born": ""}}
        if flat:
            c["cont"]["keys"] = ["k%d" % i for i in range(400)]
        data = ds.fixture(c, "std")
        self.made[ds.hashlib.sha256(data).digest()] = version
        return data

    def path(self, name):
        return os.path.join(self.dir, name)

    def ident(self, p):
        try:
            st = os.stat(p)
        except FileNotFoundError:
            return None
        return st.st_ino, st.st_size, st.st_mtime_ns

    def put(self, name, data):
        with open(self.path(name), "wb") as f:
            f.write(data)

    def op_init(self, op):
        c, d = op["cfg"], op["dir"]
        self.kind, self.made, self.others = c["kind"], {}, ["a-src.odt", "z-junk.bin"]
        self.name = codecs.decode(c.get("name", "doc.odt"), "unicode_escape")
        new = c["src"] == "new"
        self.ext = [] if self.kind == "flat" or new else sorted([["Pictures/a.png", "img"], ["Pictures/", "d"], ["big.bin", "big"], ["settings.xml", "set"]])
        self.unk = [] if new else ["attr", "content", "meta", "styles", "user"]
        self.made[ds.hashlib.sha256(b"junk").digest()] = "junk"
        self.put("z-junk.bin", b"junk")
        stem = os.path.splitext(self.name)[0]       # names a save must not take for its own
        names = {stem + ".tmp", stem + ".bak", "." + self.name + ".swp"} | {self.name + e for e in (".tmp", "~", ".new", ".old", ".bak.bak", ".part")}
        self.siblings = {}
        for n in names - {self.name, self.name + ".bak"}:
            self.put(n, b"junk")
            self.siblings[n] = self.ident(self.path(n))
        for n, v in ((self.name, d["f"]), (self.name + ".bak", d["b"])):
            if v == "none":
                continue
            if c.get("link"):       # the name stands for a file of another name, which does not belong to the document
                real = "z-linked" + n[len(self.name):]
                self.put(real, self.fixture(v, self.kind))
                self.siblings[real] = self.ident(self.path(real))
                os.symlink(real, self.path(n))
            else:
                self.put(n, self.fixture(v, self.kind))
        if c["src"] == "other":
            self.put("a-src.odt", self.fixture("v0", self.kind))
        elif c["src"] == "away":
            os.mkdir(self.path("sub"))
            self.put("sub/src.odt", self.fixture("v0", self.kind))
        if c.get("rel"):
            os.chdir(self.dir)
            self.target = self.name
        else:
            self.target = self.path(self.name)
        src = self.target if c["src"] == "self" else self.path("a-src.odt" if c["src"] == "other" else "sub/src.odt")
        if new:
            self.doc = FlatXMLDocument("odt", filename=self.target) if self.kind == "flat" else ezodf.newdoc("odt", self.target)
            self.doc.body.append(Paragraph("v0"))
        elif self.kind == "bytes":
            with open(src, "rb") as f:
                data = f.read()
            self.doc = ezodf.opendoc(data if c.get("how") != "stream" else io.BytesIO(data))
        else:
            self.doc = ezodf.opendoc(src)
        self.doc.backup = c["backup"]
        self.n = 0
        self.ins = [self.snapshot()]

    def op_edit(self, op):
        self.n += 1
        self.doc.body.append(Paragraph("v%d" % self.n))

    def op_backup(self, op):
        self.doc.backup = op["b"]

    def op_judge(self, op):
        return None

    def op_save(self, op):
        f = self.fault = op["fault"]
        self.count, self.ticks, self.hit, self.sig, self.ins = {}, 0, False, None, []
        doc, raiser = self.doc, None
        limit = None
        if f["k"] == "space":
            limit = len(doc.tobytes()) * f["n"] // 100
        elif f["k"] == "listen":
            raiser = Raiser(doc)
            observer.subscribe("prepare_saving", raiser)
        elif f["k"] == "poison":
            part = doc if self.kind == "flat" else (getattr(doc, ["meta", "styles", "content"][self.n % 3], None)) or doc.meta
            part.tobytes = self.poisoned
        r = "ok"
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        self.instant()
        try:
            if limit is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
            ACTIVE[:] = [self]
            sys.setprofile(self.profile)
            try:
                if doc.docname == self.target:
                    doc.save()
                else:
                    doc.saveas(self.target)
            finally:
                sys.setprofile(None)
                ACTIVE[:] = []
                resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        except (OSError, Poisoned, KeyboardInterrupt, ValueError) as e:
            if isinstance(e, ValueError) and not (f["k"] == "interrupt" and self.hit):      # raised by zipfile while it is unwound
                raise
            r = "err"
            self.hit = self.hit or f["k"] in ("space", "listen")
        finally:
            if raiser is not None:
                raiser.doc = None
                getattr(observer, "unsubscripe", None) and observer.unsubscripe("prepare_saving", raiser)
            if f["k"] == "poison":
                del part.tobytes
        self.sig = None
        self.instant()
        self.ins = self.ins[:60]
        return r, {"hit": self.hit}

    def poisoned(self, *args, **kwargs):
        self.hit = True
        raise Poisoned()


class Poisoned(Exception):
    pass


class Raiser(object):
    def __init__(self, doc):
        self.doc = doc

    def get_xmlroot(self):
        return self.doc.body.get_xmlroot()

    def on_prepare_saving_handler(self, msg):
        raise Poisoned()


class Driver(object):
    NAMES = ["doc.odt", "doc.odt", "d e.xml", "\\xe9\\u20ac.odt", "noext", ".hidden", "a.tmp"]

    def __init__(self, rng, n, par):
        self.rng, self.ended, self.saves = rng, False, 0

    def fault(self):
        r = self.rng
        k = r.choice(["none", "space", "space", "open", "read", "read", "rename", "rename", "remove", "poison", "listen", "interrupt", "interrupt"])
        n = {"space": r.randint(0, 102), "read": r.randint(1, 6), "interrupt": r.randint(1, 160)}.get(k, 1 if k in ("none", "open", "poison", "listen") else r.randint(1, 3))
        return {"k": k, "n": n}

    def next(self, s, last):
        r = self.rng
        if last is None:
            c = {"kind": r.choice(["pkg", "pkg", "bytes", "flat"]), "src": r.choice(["self", "other", "new", "away"]), "backup": r.random() < 0.5,
                 "name": r.choice(self.NAMES), "rel": r.random() < 0.3, "how": r.choice(["bytes", "stream"]), "link": r.random() < 0.2}
            if c["kind"] == "bytes" and c["src"] == "new":
                c["src"] = "self"
            return {"a": "init", "cfg": c, "dir": {"f": "v0" if c["src"] == "self" else r.choice(["none", "w"]), "b": r.choice(["none", "bak"]), "t": [],
                                                   "o": ["v0", "junk"] if c["src"] in ("other", "away") else ["junk"]}}
        if self.ended or "dir" not in s or last["r"].startswith("crash"):
            return None
        if last["o"]["a"] == "save":
            self.ended = last["o"]["fault"]["k"] == "interrupt" and last["q"]["hit"] or self.saves > 6
            return {"a": "judge", "ins": s["ins"]}
        k = r.random()
        if k < 0.3 and last["o"]["a"] != "edit":
            return {"a": "edit"}
        if k < 0.36:
            return {"a": "backup", "b": r.random() < 0.5}
        self.saves += 1
        return {"a": "save", "fault": self.fault() if r.random() < 0.7 else {"k": "none", "n": 0}}
