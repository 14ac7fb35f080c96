"""Machinery shared by all checks: TLC runs, replay of TLC behaviours, recording and checking of traces."""
import copy, json, os, random, re, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
PY = "/opt/venv/bin/python"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 1)


class MachineryError(Exception):
    pass


class Scratch(object):
    """One scratch directory per check run, removed at the end."""
    def __init__(self):
        self.path = tempfile.mkdtemp(prefix="verif-")
        self.n = 0

    def sub(self, name="d"):
        self.n += 1
        p = os.path.join(self.path, "%s%d" % (name, self.n))
        os.makedirs(p)
        return p

    def close(self):
        shutil.rmtree(self.path, ignore_errors=True)


def make_cfg(base, consts, extra, dest):
    """Copy the committed cfg with some constants replaced."""
    text = open(os.path.join(SPEC, base)).read()
    for k, v in consts.items():
        text, n = re.subn(r"(?m)^(\s*%s\s*=).*$" % re.escape(k), lambda m: m.group(1) + " " + str(v), text)
        if n != 1:
            raise MachineryError("constant %s not in %s" % (k, base))
    text += "\n" + extra + "\n"
    with open(dest, "w") as f:
        f.write(text)


def run_tlc(module, cfgpath, scratch, env=None, workers=1, timeout=800, heap="6g", depth=None):
    meta = scratch.sub("tlc")
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + meta, "-cp", CP, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", cfgpath, os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    out = os.path.join(meta, "stdout")
    with open(out, "w") as f:
        try:
            rc = subprocess.call(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=meta, env=e, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timeout on %s" % module)
    lines, other, distinct, generated = [], [], 0, 0
    with open(out) as f:
        for line in f:
            if line.startswith('"{'):
                lines.append(json.loads(json.loads(line)))
            else:
                other.append(line)
                m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
                if m:
                    generated, distinct = int(m.group(1)), int(m.group(2))
    shutil.rmtree(meta, ignore_errors=True)
    return rc, lines, generated, distinct, "".join(other[-60:])


def canon(x):
    return json.dumps(x, sort_keys=True)


def group_transitions(lines):
    """-> list of jobs {ops, p, group: [[op, [outcome...]]...]} from emitted transitions."""
    jobs = {}
    for t in lines:
        h = t["h"]
        last = h[-1]
        key = canon([[e["o"], e["r"], e["q"]] for e in h[:-1]])
        job = jobs.get(key)
        if job is None:
            job = jobs[key] = {"ops": [e["o"] for e in h[:-1]], "p": t["p"], "g": {}}
        job["g"].setdefault(canon(last["o"]), []).append({"r": last["r"], "q": last["q"], "s": t["s"]})
    out = []
    for j in jobs.values():
        g = [[json.loads(k), outs] for k, outs in j["g"].items()]
        for lo in range(0, len(g), 400):
            out.append({"kind": "replay", "ops": j["ops"], "p": j["p"], "group": g[lo:lo + 400]})
    return out


def run_workers(domain, jobs, scratch, timeout=700):
    """Distribute jobs over worker processes running the real code; returns result records."""
    d = scratch.sub("work")
    n = max(1, min(NPROC, len(jobs)))
    procs = []
    for i in range(n):
        jf, rf, ef = (os.path.join(d, "%s%d" % (x, i)) for x in ("jobs", "res", "err"))
        with open(jf, "w") as f:
            for k in range(i, len(jobs), n):
                f.write(json.dumps([k, jobs[k]]) + "\n")
        procs.append((spawn(domain, jf, rf, ef, d, i), jf, rf, ef, i))
    results, deadline = [], time.time() + timeout
    for proc, jf, rf, ef, i in procs:
        skip = set()
        for attempt in range(200):
            try:
                rc = proc.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                proc.kill()
                proc.wait()
                rc = "timeout"
            recs = [json.loads(x) for x in open(rf)] if os.path.exists(rf) else []
            done = set(r["k"] for r in recs if "done" in r)
            started = [r["k"] for r in recs if "start" in r]
            if rc == 0:
                break
            if rc == 3:
                raise MachineryError("worker: " + open(ef).read()[-3000:])
            if rc == "timeout" and time.time() >= deadline:
                if started and started[-1] not in done:
                    recs.append({"k": started[-1], "died": "timeout"})
                break
            if not started:
                raise MachineryError("worker did not start: " + open(ef).read()[-3000:])
            # the code under test killed the interpreter: report, go on behind that job
            with open(rf, "a") as f:
                f.write(json.dumps({"k": started[-1], "died": str(rc)}) + "\n")
                f.write(json.dumps({"k": started[-1], "done": 1}) + "\n")
            proc = spawn(domain, jf, rf, ef, d, i)
        results.extend([json.loads(x) for x in open(rf)] if os.path.exists(rf) else [])
        if rc == "timeout":
            results.extend(r for r in recs if r.get("died") == "timeout")
    shutil.rmtree(d, ignore_errors=True)
    return results


def spawn(domain, jf, rf, ef, d, i):
    work = os.path.join(d, "cwd%d" % i)
    os.makedirs(work, exist_ok=True)
    env = dict(os.environ)
    env.update({"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "VERIF_WORK": work, "TMPDIR": work})
    return subprocess.Popen([PY, "-W", "ignore", os.path.join(VERIF, "harness", "worker.py"), domain, jf, rf],
                            stdout=open(ef, "a"), stderr=subprocess.STDOUT, cwd=work, env=env)


# ---------------------------------------------------------------- trace checking
class Undecidable(Exception):
    pass


def run_traces(module, cfg, traces, scratch, env, heap, stop):
    d = scratch.sub("tr")
    path = os.path.join(d, "traces.ndjson")
    with open(path, "w") as f:
        for steps in traces:
            f.write(json.dumps({"steps": steps}) + "\n")
    e = {"TRACES": path, "STOP": "1" if stop else "0"}
    e.update(env or {})
    rc, lines, gen, distinct, tail = run_tlc(module, os.path.join(SPEC, cfg), scratch, env=e, workers=NPROC, heap=heap)
    shutil.rmtree(d, ignore_errors=True)
    bad = {}
    for x in lines:
        t, l = x["bad"]
        bad.setdefault(t - 1, []).append((l - 1, sorted(x["f"]), x["e"]))
    for v in bad.values():
        v.sort(key=lambda y: y[0])
    if stop:
        want = sum(len(s) + 1 if k not in bad else bad[k][0][0] + 2 for k, s in enumerate(traces))
    else:
        want = sum(len(s) + 1 for s in traces)
    if rc != 0 and (not tail.count("Error") or "Parsing or semantic analysis failed" in tail or "ConfigFile" in tail):
        raise MachineryError("TLC: " + tail)
    if rc != 0:
        raise Undecidable(tail[-600:])
    if distinct != want:
        raise MachineryError("trace check explored %d of %d states" % (distinct, want))
    return bad, distinct, gen


def check_traces(module, cfg, traces, scratch, env=None, heap="6g", budget=90):
    """traces: list of step lists. Returns (bad: {index: [(step, fields, closest)]}, distinct, generated).

    What is observed after a deviation may be nothing the specification can evaluate. Then every
    history is only followed up to its first deviation, and a history which still cannot be
    evaluated is "undecidable": a deviation of its own."""
    if not traces:
        return {}, 0, 0
    try:
        return run_traces(module, cfg, traces, scratch, env, heap, False)
    except Undecidable:
        pass
    end = time.time() + budget
    bad, dist, gent, todo = {}, 0, 0, [(0, traces)]
    while todo:
        lo, part = todo.pop(0)
        if bad and time.time() > end:
            break                   # what has been found stands; the rest is not looked at
        try:
            b, di, ge = run_traces(module, cfg, part, scratch, env, heap, True)
            bad.update((lo + k, v) for k, v in b.items())
            dist, gent = dist + di, gent + ge
        except Undecidable as e:
            if len(part) == 1:
                bad[lo] = [(0, ["undecidable"], str(e))]
                continue
            half = len(part) // 2
            todo[:0] = [(lo, part[:half]), (lo + half, part[half:])]
    return bad, dist, gent


def leaves(x, path=()):
    if isinstance(x, dict):
        for k in sorted(x):
            for y in leaves(x[k], path + (k,)):
                yield y
    elif isinstance(x, list):
        for k, v in enumerate(x):
            for y in leaves(v, path + (k,)):
                yield y
    else:
        yield path


def corrupt(steps, rng, unchecked=()):
    """A copy of a trace with one observation changed: the checker has to reject it."""
    steps = copy.deepcopy(steps)
    i = rng.randrange(len(steps))
    ls = [p for p in leaves(steps[i]["s"]) if p[0] not in unchecked]
    if ls and rng.random() < 0.7:
        path = rng.choice(ls)
        o = steps[i]["s"]
        for k in path[:-1]:
            o = o[k]
        v = o[path[-1]]
        o[path[-1]] = (not v) if isinstance(v, bool) else v + 1 if isinstance(v, int) else v + "~"
    else:
        steps[i]["r"] = steps[i]["r"] + "~"
    return steps[:i + 1]
