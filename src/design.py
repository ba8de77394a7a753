#!/usr/bin/env python3
"""Writes DESIGN.md from src/design_head.md, the rules, the findings, the planted bugs, and src/design_tail.md."""
import importlib, json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import properties

COST = {"C05": 25, "C06": 80, "C07": 90, "C08": 6, "C09": 7, "C10": 3, "C12": 19, "C20": 5, "C21": 4, "C25": 3, "C26": 10, "C28": 4, "C30": 3}


def main():
    out = [open(os.path.join(HERE, "design_head.md")).read()]
    kf = json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]
    out.append("| property | commit | what failed |\n|---|---|---|")
    for k in kf:
        if k["status"] == "fixed":
            m = re.match(r"fixed: property=(\S+) (\S+) (.*)", k["what"])
            out.append("| %s | %s | %s |" % m.groups())
    out.append("\nOpen (printed as KNOWN-FINDING on every run):\n")
    for k in kf:
        if k["status"] == "open": out.append("* **%s** `%s` `%s`: %s. Not repaired: %s." % (k["property"], k["rule"], k["key"], k["what"], k["why"]))
    seeded = {}
    d = os.path.join(ROOT, "seeded")
    for n in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, n, "meta.json")))
        seeded.setdefault(m["property"], []).append((n, m))
    out.append("\n## 4. The properties\n\nCost is the time of the check with a warm exporter cache on this sandbox; about 1 s of each is loading the program, and a cold cache adds about 20 s once (done by setup_cmd).\n")
    for p in properties.P:
        i = p["id"]
        f = os.path.join(HERE, "rules", i.lower() + ".py")
        if not os.path.exists(f): continue
        m = importlib.import_module("rules." + i.lower())
        if not getattr(m, "CLAIMED", True): continue
        src = open(f).read()
        rules = sorted(set(re.findall(r'rep\.require\("([^"]+)"', src)) | set(re.findall(r'rep\.ob\("([^"]+)"', src)))
        mut = os.path.join(ROOT, "dev", "mutants", i.lower() + ".txt")
        out.append("### %s %s\n" % (i, p["title"]))
        out.append("*Statement.* %s\n" % p["statement"])
        out.append("*Technique.* %s.\n" % m.TECHNIQUE)
        out.append("*What is analysed and required.* %s\n" % m.EXPLANATION)
        out.append("*Limits.* %s\n" % m.NOTE)
        if rules: out.append("*Obligation kinds.* %s. *Cost.* %s.\n" % (", ".join("`%s`" % r for r in rules), "about %d s" % COST[i] if i in COST else "1–3 s"))
        s = seeded.get(i)
        if s: out.append("*Planted bugs* (caught by this check): " + "; ".join("`%s` (%s)" % (n, m2["what_it_breaks"]) for n, m2 in s) + ".\n")
    out.append("## 5. Which check catches which planted bug\n\nEvery planted bug below is caught by the check of the property it was written for (`dev/plant.py`, all ok).\n")
    out.append("| planted bug | property | needs |\n|---|---|---|")
    for i in sorted(seeded):
        for n, m in seeded[i]: out.append("| %s | %s | %s |" % (n, i, m["needs"]))
    out.append("")
    out.append(open(os.path.join(HERE, "design_tail.md")).read())
    open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))


if __name__ == "__main__":
    main()
