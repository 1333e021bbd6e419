"""Common runner: evidence, known findings, exit codes."""
import json, os, sys, time, traceback
from facts import VERIF, REPO, AnalysisError, load


class Report:
    def __init__(self, pid, F):
        self.pid, self.F = pid, F
        self.viol = []          # (key, message, where)
        self.lacking = []
        self.cov = {}
        self.samples = []
        self.notes = []
        self.assume = []

    def violation(self, key, where, msg, rule=""):
        """key identifies the construct (no line numbers) so that known findings survive unrelated edits."""
        for v in self.viol:
            if v["key"] == key:
                return
        self.viol.append(dict(key=key, where=where, msg=msg, rule=rule))

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def need(self, name, minimum):
        """Anti-vacuity: the rule must have had at least this many instances."""
        if self.cov.get(name, 0) < minimum:
            self.lacking.append("%s: only %d instances of '%s' analysed, expected at least %d" % (self.pid, self.cov.get(name, 0), name, minimum))


def known(pid):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                k, _, d = rest.partition(" :: ")
                out[k.strip()] = d.strip()
    return out


def run(pid, fn, rule, explanation):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    try:
        F = load()
        R = Report(pid, F)
        fn(F, R)
    except AnalysisError as e:
        print("ANALYSIS-ERROR property=%s %s" % (pid, e))
        sys.exit(3)
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-ERROR property=%s internal error" % pid)
        sys.exit(4)
    kn = known(pid)
    new = []
    for v in R.viol:
        if v["key"] in kn:
            print("KNOWN-FINDING: property=%s %s (%s) %s" % (pid, v["key"], v["where"], kn[v["key"]]))
        else:
            new.append(v)
    if R.lacking and not new:
        print("ANALYSIS-ERROR property=%s %s" % (pid, R.lacking[0]))
        sys.exit(3)
    cov = dict(R.cov)
    cov["explanation"] = explanation
    cov["rule"] = rule
    cov["samples"] = R.samples
    cov["translation_units"] = len(F.tus)
    cov["functions_in_fact_base"] = len(F.funcs)
    ev = dict(property=pid, tier=tier, seed=seed, level="other", coverage=cov, wall_s=round(time.time() - t0, 2), violations=len(new),
              assumptions=R.assume)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if new:
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        rp = os.path.join(VERIF, "replay", pid + ".txt")
        with open(rp, "w") as f:
            for v in new:
                f.write("%s: [%s] %s\n    construct: %s\n" % (v["where"], v["rule"] or rule, v["msg"], v["key"]))
        for v in new:
            print("%s: %s  {%s}" % (v["where"], v["msg"], v["key"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    print("OK property=%s %s" % (pid, {k: v for k, v in R.cov.items()}))
    sys.exit(0)
