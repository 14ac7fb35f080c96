"""Entry of every check:  check.py PROPERTY.   Exit 0 held, 1 violation, 2 machinery failure."""
import json, os, random, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "domains"))
import core
import specs

VERIF = core.VERIF
OUT = os.environ.get("VERIF_OUT", VERIF) # development runs against patched copies write elsewhere
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))


def known_findings(prop):
    """lines `finding: {json}` of the committed file; `fixed:` lines suppress nothing"""
    out = []
    for line in open(os.path.join(VERIF, "known-findings.txt")):
        if line.startswith("finding: "):
            k = json.loads(line[len("finding: "):])
            if k["property"] == prop:
                out.append(k)
    return out


class Check(object):
    def __init__(self, prop):
        self.prop = prop
        self.known = known_findings(prop)
        self.seen = {}
        self.bad = []          # (domain, record)
        self.other = {}
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "spec_transitions": 0,
                    "replayed_transitions": 0, "replayed_prefixes": 0, "recorded_steps": 0, "negative_controls_rejected": 0,
                    "replay_skipped_after_divergence": 0, "samples": [], "domains": {}}
        self.ops = set()

    def report(self, name, dom, ops, got, exp, f, how):
        e = exp if isinstance(exp, dict) and "r" in exp else {"r": "ok", "q": [], "s": {}}
        # an observation the specification cannot evaluate breaks whatever is being checked
        blamed = {self.prop} if "undecidable" in f else dom["blame"](ops[-1] if ops else {}, e, got, f)
        rec = {"domain": name, "how": how, "ops": ops, "got": got, "expected": exp, "fields": f}
        if self.prop not in blamed:
            for b in blamed:
                self.other[b] = self.other.get(b, 0) + 1
            return
        for k in self.known:
            if k["domain"] == name and k["op"] == ops[-1] and k["r"] == got["r"]:
                self.seen[k["what"]] = self.seen.get(k["what"], 0) + 1
                return
        self.bad.append(rec)

    # -- one domain
    def domain(self, name, scratch):
        dom = specs.DOMAINS[name]
        conf = dom["thorough" if TIER == "thorough" else "quick"]
        dc = {"configs": [], "op_kinds": {}}
        t0 = time.time()
        for mod, consts, holds in dom.get("models", []):
            cfg = os.path.join(scratch.sub("cfg"), "m.cfg")
            core.make_cfg(mod + ".cfg", consts, "", cfg)
            rc, lines, gen, distinct, tail = core.run_tlc(mod, cfg, scratch)
            if (rc == 0) != holds or not distinct:
                raise core.MachineryError("TLC on %s %s: %s" % (mod, consts, tail))
            self.cov["states"] += distinct
            dc["configs"].append({"module": mod, "constants": consts, "distinct_states": distinct, "transitions": gen,
                                  "result": "holds" if holds else "refuted, as it has to be"})
        for consts in conf.get("mc", []):
            cfg = os.path.join(scratch.sub("cfg"), "m.cfg")
            consts = dict(consts)
            mod = consts.pop("module", dom["mc"])
            core.make_cfg(mod + ".cfg", dict(consts, EmitOn="TRUE"), "ACTION_CONSTRAINTS Emit", cfg)
            rc, lines, gen, distinct, tail = core.run_tlc(mod, cfg, scratch, timeout=1500 if TIER == "thorough" else 400)
            if rc != 0:
                raise core.MachineryError("TLC on %s: %s" % (mod, tail))
            jobs = core.group_transitions(lines)
            nlines = len(lines)
            del lines
            res = core.run_workers(name, jobs, scratch, timeout=5000 if TIER == "thorough" else 600)
            n = sk = 0
            for r in res:
                if "fail" in r:
                    x = r["fail"]
                    self.report(name, dom, x["ops"], x["got"], x["exp"], x["f"], "replay of a TLC behaviour")
                elif "died" in r:
                    j = jobs[r["k"]]
                    self.report(name, dom, j["ops"] + [j["group"][0][0]], {"o": {}, "r": "crash:died " + r["died"], "q": [], "s": {}},
                                j["group"][0][1][0], ["r"], "replay: interpreter died")
                elif "done" in r:
                    n += r.get("n", 0)
                    sk += r.get("skipped", 0)
            if n == 0:
                raise core.MachineryError("nothing replayed for %s" % name)
            for j in jobs:
                for op, outs in j["group"]:
                    dc["op_kinds"][op["a"]] = dc["op_kinds"].get(op["a"], 0) + 1
            self.cov["states"] += distinct
            self.cov["spec_transitions"] += nlines
            self.cov["replayed_transitions"] += n
            self.cov["replayed_prefixes"] += len(jobs)
            self.cov["replay_skipped_after_divergence"] += sk
            dc["configs"].append({"module": mod, "constants": consts, "distinct_states": distinct, "transitions": nlines})
            k = random.Random(SEED).choice(jobs)
            self.cov["samples"].append({"domain": name, "replayed": k["ops"] + [k["group"][0][0]], "outcomes": k["group"][0][1][:1]})
        if conf.get("n"):
            self.traces(name, dom, conf, dc, scratch)
        dc["wall_s"] = round(time.time() - t0, 2)
        self.cov["domains"][name] = dc

    def traces(self, name, dom, conf, dc, scratch):
        jobs = [{"kind": "record", "seed": SEED * 1000003 + k, "n": conf["len"], "par": conf.get("par", {})} for k in range(conf["n"])]
        jobs += [{"kind": "run", "ops": ops} for ops in dom.get("scripts", [])]
        res = core.run_workers(name, jobs, scratch, timeout=5000 if TIER == "thorough" else 600)
        traces, died, lost = {}, {}, None
        for r in res:
            if "steps" in r:
                traces[r["k"]] = r["steps"]
                if r.get("driver"):
                    lost = r["driver"]
            elif "died" in r:
                died[r["k"]] = r["died"]
        for k, why in died.items():
            self.report(name, dom, [jobs[k].get("ops", [{"a": "random", "seed": jobs[k].get("seed")}])[-1]],
                        {"o": {}, "r": "crash:died " + why, "q": [], "s": {}}, None, ["r"], "recorded history: interpreter died")
        keys = [k for k in sorted(traces) if traces[k]]
        good = [traces[k] for k in keys]
        if len(good) + len(died) < len(jobs) * 0.9:
            raise core.MachineryError("only %d of %d traces recorded for %s" % (len(good), len(jobs), name))
        rng = random.Random(SEED + 7)
        controls = [core.corrupt(rng.choice(good), rng, dom.get("unchecked", ())) for _ in range(min(20, len(good)))]
        size = conf.get("batch", 600)
        bad, distinct, gen = {}, 0, 0
        everything = good + controls
        for lo in range(0, len(everything), size):
            b, di, ge = core.check_traces(dom["trace"], dom["trace"] + ".cfg", everything[lo:lo + size], scratch)
            bad.update((lo + k, v) for k, v in b.items())
            distinct, gen = distinct + di, gen + ge
        missed = [k for k in range(len(good), len(everything)) if k not in bad]
        for k, fails in bad.items():
            if k >= len(good):
                continue
            for l, f, exp in fails[:3]:
                if "undecidable" in f:
                    l = len(good[k]) - 1
                st = good[k][l]
                self.report(name, dom, [x["o"] for x in good[k][:l + 1]], st, exp, f, "recorded history rejected by the specification")
        if missed and not self.bad and not self.other:
            raise core.MachineryError("corrupted trace accepted by %s: %s" % (dom["trace"], json.dumps(everything[missed[0]][-1])[:800]))
        if lost and not self.bad and not self.other:
            raise core.MachineryError("no next operation found for %s: %s" % (name, lost))
        for tr in good:
            for st in tr:
                dc["op_kinds"][st["o"]["a"]] = dc["op_kinds"].get(st["o"]["a"], 0) + 1
        self.cov["states"] += distinct
        self.cov["recorded_steps"] += sum(len(x) for x in good)
        self.cov["traces_validated_against_impl"] += len(good)
        self.cov["negative_controls_rejected"] += len(controls)
        x = good[0]
        self.cov["samples"].append({"domain": name, "recorded": [[s["o"], s["r"]] for s in x[:8]]})

    def run(self):
        t0 = time.time()
        scratch = core.Scratch()
        try:
            for name in specs.PROPERTIES[self.prop]:
                try:
                    self.domain(name, scratch)
                except Exception as e:
                    if not self.bad:
                        raise
                    # what has been found stands
                    print("MACHINERY FAILURE behind violations: %s" % str(e)[-300:])
                    break
        finally:
            scratch.close()
        c = self.cov
        c["transitions"] = c["replayed_transitions"] + c["recorded_steps"]
        c["traces_validated_against_impl"] += c["replayed_prefixes"]
        for k in self.known:
            if k["what"] in self.seen:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": "model_checking", "coverage": c,
              "assumptions": ["bounded exploration of the specification (constants above), random histories beyond",
                              "observations are made through the public API and lxml/zipfile"],
              "wall_s": round(time.time() - t0, 2), "violations": len(self.bad)}
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        with open(os.path.join(OUT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if self.other:
            print("note: deviations attributed to other properties: %s" % self.other)
        print("%s: %d spec states, %d transitions replayed, %d histories recorded, %d steps, %.1fs" % (
            self.prop, c["states"], c["replayed_transitions"], c["traces_validated_against_impl"] - c["replayed_prefixes"],
            c["recorded_steps"], time.time() - t0))
        if not self.bad:
            return 0
        out = os.path.join(OUT, "out")
        os.makedirs(out, exist_ok=True)
        self.bad.sort(key=lambda r: len(r["ops"]))
        if os.environ.get("VERIF_DEBUG"):
            import collections
            kinds = collections.Counter(json.dumps([r["ops"][-1], r["got"]["r"], r["fields"]])[:160] for r in self.bad)
            for x, c in kinds.most_common(25):
                print("   ", c, x)
        for k, rec in enumerate(self.bad[:3]):
            path = os.path.join(out, "%s-%d.json" % (self.prop, k))
            with open(path, "w") as f:
                json.dump(rec, f, indent=1)
            print("  %s: %s -> got %s, fields %s" % (rec["how"], json.dumps(rec["ops"])[:300], rec["got"]["r"], rec["fields"]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        print("%d deviating steps in total" % len(self.bad))
        return 1


if __name__ == "__main__":
    try:
        rc = Check(sys.argv[1]).run()
    except core.MachineryError as e:
        print("MACHINERY FAILURE: %s" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
