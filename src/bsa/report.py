"""Obligations, violations, evidence."""
import json, os, sys, time
from .prog import AnalysisError, VERIF
EVID = os.environ.get("BSA_EVIDENCE") or os.path.join(VERIF, "evidence")


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.obs = []        # (rule, instance key, where, ok, detail)
        self.notes = []
        self.functions = set()
        self.assumptions = []
        self.steps = 0

    def ob(self, rule, key, where, ok, detail=""):
        """one obligation; key identifies the instance independent of line numbers"""
        self.obs.append((rule, key, where, bool(ok), detail))
        return ok

    def eng(self, e):
        self.functions |= e.visited_fns
        self.steps += e.steps

    def require(self, rule, n):
        """a rule that matches fewer instances than were confirmed by hand is broken"""
        k = len({o[1] for o in self.obs if o[0] == rule})
        if k < n and not new_violations(self):
            raise AnalysisError("rule %s matched %d instance(s), expected at least %d: anchor vanished" % (rule, k, n))

    def violations(self):
        seen, out = set(), []
        for o in self.obs:
            if not o[3] and (o[0], o[1]) not in seen:
                seen.add((o[0], o[1]))
                out.append(o)
        return out


def new_violations(rep):
    known = {(k["property"], k["rule"], k["key"]) for k in known_findings() if k.get("status") == "open"}
    return [v for v in rep.violations() if (rep.prop, v[0], v[1]) not in known]


def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return json.load(open(path))["findings"]


def finish(rep, tier, seed, t0, explanation, level="other"):
    viol = rep.violations()
    known = {(k["property"], k["rule"], k["key"]): k for k in known_findings() if k.get("status") == "open"}
    new, old = [], []
    for v in viol:
        k = known.get((rep.prop, v[0], v[1]))
        (old if k else new).append((v, k))
    for v, k in old:
        print("KNOWN-FINDING: property=%s %s" % (rep.prop, k["what"]))
    rules = {}
    for r, key, where, ok, d in rep.obs:
        x = rules.setdefault(r, dict(instances=set(), obligations=0, failed=0))
        x["instances"].add(key)
        x["obligations"] += 1
        x["failed"] += 0 if ok else 1
    cov = dict(
        explanation=explanation,
        rules={r: dict(instances=len(x["instances"]), obligations=x["obligations"], failed=x["failed"]) for r, x in rules.items()},
        obligations=len(rep.obs), discharged=sum(1 for o in rep.obs if o[3]),
        functions_analysed=sorted(rep.functions)[:400] and len(rep.functions),
        interpreter_steps=rep.steps,
        samples=[dict(rule=o[0], instance=o[1], where=o[2], ok=o[3], detail=str(o[4])[:300]) for o in rep.obs[:40]],
        notes=rep.notes)
    ev = dict(property=rep.prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=rep.assumptions, wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, rep.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if new:
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, rep.prop + ".txt")
        with open(path, "w") as f:
            for v, _ in new:
                f.write("property %s\nrule %s\ninstance %s\nat %s\n%s\n\n" % (rep.prop, v[0], v[1], v[2], v[4]))
        for v, _ in new:
            print("%s: [%s] %s: %s" % (v[2], v[0], v[1], v[4]))
        print("VIOLATION property=%s replay=%s" % (rep.prop, os.path.relpath(path, VERIF)))
        return 1
    print("OK property=%s rules=%d obligations=%d functions=%d" % (rep.prop, len(rules), len(rep.obs), len(rep.functions)))
    return 0
