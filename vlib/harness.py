"""Runs one property's analysis, compares with known findings, writes evidence."""
import os, sys, json, time, traceback
from .build import AnalysisError, VERIF, REPO, lib_units
from .pvn import Unsupported


class Report:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.obligations = []     # (rule, instance, where)
        self.violations = []      # dict(key, rule, where, text)
        self.undecided = []       # (instance, why)
        self.notes = {}
        self.lost = []            # rules that lost their subject: no answer
        self.assumptions = []
        self.trusted = []
        self.analysed = {}

    def ok(self, rule, instance, where=""):
        self.obligations.append((rule, instance, where, True))

    def violate(self, rule, instance, where, text):
        self.obligations.append((rule, instance, where, False))
        self.violations.append(dict(key="%s|%s" % (rule, instance), rule=rule, instance=instance, where=where, text=text))

    def check(self, cond, rule, instance, where, text):
        if cond:
            self.ok(rule, instance, where)
        else:
            self.violate(rule, instance, where, text)
        return cond

    def undecide(self, instance, why):
        if type(why).__name__ == "Crash":
            return self.violate("memory", instance, why.args[1], why.args[0])
        self.undecided.append((instance, str(why)))

    def count(self, rule=None):
        return sum(1 for o in self.obligations if rule is None or o[0] == rule)

    def need(self, rule, n):
        """instance floor: fewer instances than confirmed by hand means the analysis lost its subject"""
        c = self.count(rule)
        if c < n:
            self.lost.append("rule %s matched %d instances, at least %d are expected (counted by hand on the original tree)" % (rule, c, n))


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    return {f["key"]: f for f in json.load(open(p))["known"] if f["property"] == pid}


def main(pid, run, level, tier=None):
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    rep = Report(pid, tier, seed)
    err = None
    try:
        run(rep)
    except AnalysisError as e:
        err = "%s: %s" % (type(e).__name__, e)
    except Unsupported as e:
        rep.undecide("rest of the analysis", e)
    except Exception:
        rep.undecide("rest of the analysis", traceback.format_exc())
    kf = known_findings(pid)
    known = [v for v in rep.violations if v["key"] in kf]
    new = [v for v in rep.violations if v["key"] not in kf]
    wall = time.time() - t0
    evd = os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    rules = {}
    for r, inst, w, okk in rep.obligations:
        d = rules.setdefault(r, {"instances": 0, "held": 0})
        d["instances"] += 1
        d["held"] += 1 if okk else 0
    cov = dict(obligations=len(rep.obligations), discharged=sum(1 for o in rep.obligations if o[3]),
               checker_cmd="python3 /verif/check.py %s" % pid,
               trusted_base=["clang/LLVM 18 front end and IR normalisation passes", "vlib analyses"] + rep.trusted,
               explanation="static analysis of /repo's current source (no execution): each obligation is one rule instance (call site, path, function, table row or algebraic identity); rules: " + "; ".join("%s (%d)" % (k, v["instances"]) for k, v in sorted(rules.items())),
               rules=rules, analysed=rep.analysed,
               samples=[dict(rule=o[0], instance=o[1], where=o[2]) for o in rep.obligations[:8]],
               undecided=[dict(instance=a, why=b) for a, b in rep.undecided],
               known_findings=[v["key"] for v in known])
    cov.update(rep.notes)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=rep.assumptions, wall_s=round(wall, 2), violations=len(new))
    if err:
        cov["error"] = err
    json.dump(ev, open(os.path.join(evd, pid + ".json"), "w"), indent=1)
    print("%s: %d obligations, %d discharged, %d undecided, %d known findings, %.1fs" %
          (pid, cov["obligations"], cov["discharged"], len(rep.undecided), len(known), wall))
    for v in known:
        print("KNOWN-FINDING: property=%s %s at %s: %s" % (pid, v["instance"], v["where"], v["text"]))
    if new:
        rp = os.path.join(evd, pid + ".violation.txt")
        with open(rp, "w") as f:
            for v in new:
                f.write("rule: %(rule)s\ninstance: %(instance)s\nwhere: %(where)s\n%(text)s\nkey: %(key)s\n\n" % v)
        for v in new[:20]:
            print("  [%s] %s at %s: %s" % (v["rule"], v["instance"], v["where"], v["text"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    for a, b in rep.undecided:
        print("  undecided: %s: %s" % (a, b))
    if err:
        print("ANALYSIS ERROR:", err)
        return 2
    for l in rep.lost:
        print("  lost: " + l)
    # a floor missed because instances were left undecided (reported above) is not a loss of the subject
    if (rep.lost and not rep.undecided) or not rep.obligations:
        print("ANALYSIS INCOMPLETE")
        return 2
    return 0
