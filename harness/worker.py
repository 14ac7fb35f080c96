"""Worker: runs histories on the real ezodf from /repo. usage: worker.py DOMAIN JOBS RESULTS"""
import importlib, json, os, random, resource, signal, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
sys.setrecursionlimit(3000)
os.environ["TZ"] = "VRF-05:45"          # local time is not UTC
time.tzset()
LIMIT = float(os.environ.get("VERIF_OP_LIMIT", "20"))


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


signal.signal(signal.SIGALRM, _alarm)

import common


class Runner(object):
    """One history on the real code; nothing raised by the code under test escapes."""
    def __init__(self, dom):
        self.dom = dom
        self.dead, self.why = False, "dead"
        if common.ezodf is None:
            self.dead, self.why = True, "import:" + common.IMPORT_ERROR
            return
        common.reset_library()
        try:
            self.a = dom.Adapter()
        except Exception as e:
            self.dead, self.why = True, "init:" + type(e).__name__

    def step(self, op):
        if self.dead:
            return {"o": op, "r": "crash:" + self.why, "q": [], "s": {}}
        signal.setitimer(signal.ITIMER_REAL, LIMIT)
        try:
            r, q = self.guard(op)
            try:
                s = self.a.project()
            except Hang:
                r, s, self.dead = "crash:hang", {}, True
            except Exception as e:
                r, s = "crash:project:" + type(e).__name__ + ":" + common.esc(str(e))[:80], {}
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return {"o": op, "r": r, "q": q, "s": s}

    def guard(self, op):
        """r: ok | rej | crash:... ; operations refused by the library must not change it"""
        before = common.call(self.a.fingerprint)
        try:
            q = self.a.apply(op)
            return (q if isinstance(q, tuple) else ("ok", [] if q is None else q))
        except Hang:
            self.dead = True
            return "crash:hang", []
        except common.Unsupported:
            raise
        except MemoryError:
            return "crash:MemoryError", []
        except RecursionError:
            return "crash:RecursionError", []
        except Exception as e:
            r = self.a.classify(op, e)
            if not r.startswith("crash") and common.call(self.a.fingerprint) != before:
                r += "+changed"
            return r, []

    def close(self):
        try:
            self.a.close()
        except Exception:
            pass


def differs(step, out):
    f = []
    if step["r"] != out["r"]:
        f.append("r")
    if step["q"] != out["q"]:
        f.append("q")
    s, e = step["s"], out["s"]
    for k in s:
        if k in e and s[k] != e[k]:
            f.append(k)
    return f


def replay(dom, job, emit):
    """Replay all operations TLC explored behind one prefix."""
    n = skipped = 0
    run = None
    for op, outs in job["group"]:
        if run is None:
            run = Runner(dom)
            last = None
            for o in job["ops"]:
                last = run.step(o)
            if last is not None and any(k in job["p"] and job["p"][k] != v for k, v in last["s"].items()) or run.dead:
                # the code went another allowed way (or wrong: reported where it happened)
                run.close()
                return n, len(job["group"]) - n
        step = run.step(op)
        n += 1
        best = min(outs, key=lambda o: len(differs(step, o)))
        f = differs(step, best)
        if f:
            emit({"fail": {"ops": job["ops"] + [op], "got": step, "exp": best, "f": f}})
        if f or best["s"] != job["p"] or dom.ALWAYS_FRESH:
            run.close()
            run = None
    if run is not None:
        run.close()
    return n, skipped


def record(dom, job):
    rng = random.Random(job["seed"])
    drv = dom.Driver(rng, job["n"], job.get("par") or {})
    run = Runner(dom)
    steps = []
    s = {}
    while len(steps) < job["n"]:
        try:
            op = drv.next(s, steps[-1] if steps else None)
        except Exception:
            # a state no specification allows: the history up to here shows it
            run.close()
            return steps, traceback.format_exc()[-300:]
        if op is None:
            break
        st = run.step(op)
        steps.append(st)
        s = st["s"] or s
        if run.dead:
            break
    run.close()
    return steps, ""


def main():
    dom = importlib.import_module("domains." + sys.argv[1])
    done = set()
    if os.path.exists(sys.argv[3]):
        done = set(r["k"] for r in map(json.loads, open(sys.argv[3])) if "done" in r)
    out = open(sys.argv[3], "a", buffering=1)
    for line in open(sys.argv[2]):
        k, job = json.loads(line)
        if k in done:
            continue

        def emit(rec):
            rec["k"] = k
            out.write(json.dumps(rec) + "\n")
        emit({"start": 1})
        if job["kind"] == "replay":
            n, sk = replay(dom, job, emit)
            emit({"done": 1, "n": n, "skipped": sk})
        elif job["kind"] == "run":       # a given list of operations
            run = Runner(dom)
            steps = [run.step(o) for o in job["ops"]]
            run.close()
            emit({"done": 1, "steps": steps})
        else:
            steps, lost = record(dom, job)
            emit({"done": 1, "steps": steps, "driver": lost})


if __name__ == "__main__":
    try:
        main()
    except Exception:
        traceback.print_exc()
        sys.stdout.flush()
        os._exit(3)
    sys.stdout.flush()
    os._exit(0)
