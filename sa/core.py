"""Shared frame of the checks: verdicts, known findings, evidence, parallel map."""
import json, os, sys, time, traceback, multiprocessing

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known_findings.jsonl")


class Report:
    """What one check found and what it looked at."""

    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.viol = {}        # key -> text
        self.counts = {}      # measured coverage
        self.samples = []
        self.obl = 0
        self.done = 0
        self.notes = []
        self.level = "other"
        self.rule = ""
        self.assumptions = []

    def violation(self, key, text):
        """key: stable identification without line numbers; text: for the reader."""
        self.viol.setdefault(key, text)

    def ob(self, key, ok, text="", sample=None):
        """One obligation; returns ok."""
        self.obl += 1
        if ok:
            self.done += 1
            if sample is not None and len(self.samples) < 12:
                self.samples.append(sample)
        else:
            self.violation(key, text or key)
        return ok

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, minimum):
        """Fail closed when less was analysed than was confirmed by hand."""
        n = self.counts.get(name, 0)
        if n < minimum:
            self.violation("floor:" + name, "analysed only %d %s, at least %d expected: an anchor of the rule is gone" % (n, name, minimum))

    def merge(self, part):
        self.obl += part.obl
        self.done += part.done
        for k, t in part.viol.items():
            self.viol.setdefault(k, t)
        for k, n in part.counts.items():
            self.counts[k] = self.counts.get(k, 0) + n
        for s in part.samples:
            if len(self.samples) < 12:
                self.samples.append(s)


def known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            r = json.loads(line)
            if r.get("status") == "known" and r["property"] == pid:
                out[r["key"]] = r["what"]
    return out


def finish(rep):
    kf = known(rep.pid)
    new = {k: t for k, t in rep.viol.items() if k not in kf}
    old = {k: t for k, t in rep.viol.items() if k in kf}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    cov = {"obligations": rep.obl, "discharged": rep.done, "rule": rep.rule, "samples": rep.samples, "analysed": rep.counts,
           "explanation": rep.rule, "checker_cmd": "bash check.sh %s %s" % (rep.pid, rep.tier),
           "trusted_base": rep.assumptions or ["rustc's MIR for the crate as built", "the std models in sa/models.py"],
           "known_findings": sorted(old), "violations_found": sorted(new)}
    if rep.notes:
        cov["notes"] = rep.notes
    ev = {"property": rep.pid, "tier": rep.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": rep.level,
          "coverage": cov, "wall_s": round(time.time() - rep.t0, 2), "violations": len(new), "assumptions": rep.assumptions}
    with open(os.path.join(HERE, "evidence", rep.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    print("%s: %d obligations, %d discharged; %s" % (rep.pid, rep.obl, rep.done, ", ".join("%s=%s" % x for x in sorted(rep.counts.items()))))
    print("rule: " + rep.rule)
    for k, t in sorted(old.items()):
        print("KNOWN-FINDING: property=%s %s" % (rep.pid, kf[k]))
    if new:
        rp = os.path.join(HERE, "evidence", rep.pid + ".violations.txt")
        with open(rp, "w") as f:
            for k, t in sorted(new.items()):
                f.write("%s\n    %s\n" % (k, t))
        for k, t in sorted(new.items())[:40]:
            print("  %s: %s" % (k, t))
        print("VIOLATION property=%s replay=%s" % (rep.pid, os.path.relpath(rp, HERE)))
        return 1
    return 0


def _worker(a):
    f, x = a
    try:
        return ("ok", f(x))
    except Exception:
        return ("err", (repr(x)[:200], traceback.format_exc()))


def pmap(f, items, procs=8):
    """f over items in forked workers, results in order.  f must be a module-level function."""
    items = list(items)
    if not items:
        return []
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(min(procs, len(items)), initializer=_init) as p:
        out = p.map(_worker, [(f, x) for x in items], chunksize=1)
    res = []
    for s, r in out:
        if s == "err":
            raise RuntimeError("analysing %s failed:\n%s" % r)
        res.append(r)
    return res


def _init():
    sys.setrecursionlimit(40000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
