#!/usr/bin/env python3
"""Writes MANIFEST.json and properties.jsonl from src/properties.py and src/rules/ (run after adding a rule)."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import properties

NA = {
 "N01": "Equality of trees after print and re-parse quantifies over the values of all strings and nestings; no static argument short of executing printer and parser decides it (the structural part, that printing reaches every child, is C04).",
 "N02": "Agreement with Bazel's own matcher is a value-level equivalence with code outside this repository.",
 "N03": "Denotation of labels is string arithmetic on run-time values; equality of meaning before and after is not decidable by dataflow over the source.",
 "N04": "A fixed point over repeated runs on edited file contents; depends on run-time project content and on the user's shell and buildozer.",
 "N05": "The parser is recursive by design with no depth limit; stack use depends on the run-time nesting depth and frame sizes, which no static argument in reach bounds (termination is C05).",
 "N06": "Equality of computed values with Bazel's evaluation is functional correctness over run-time strings and lists.",
}
PENDING = "No sound static rule for this property has been built in /verif yet, so nothing is claimed for it."

def main():
    ids = [p["id"] for p in properties.P]
    checks, na = [], []
    for i in ids:
        f = os.path.join(HERE, "rules", i.lower() + ".py")
        if os.path.exists(f):
            m = importlib.import_module("rules." + i.lower())
            if getattr(m, "CLAIMED", True):
                checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py " + i,
                                   evidence_file="evidence/%s.json" % i, technique=m.TECHNIQUE, level="other", level_note=m.NOTE))
                continue
        na.append(dict(property=i, reason=NA.get(i, getattr(properties, "WHY_NOT", {}).get(i, PENDING))))
    man = dict(version=1, setup_cmd="bash src/exporter/build.sh && python3 src/prefill.py", checks=checks, not_applicable=na,
               notes="All checks are static: a Clang LibTooling exporter (src/exporter) dumps the type-checked program of /repo's current sources, "
                     "Python analyses (src/bsa, src/rules) decide each property on it. No hooks in /repo.")
    root = os.path.join(HERE, "..")
    with open(os.path.join(root, "MANIFEST.json"), "w") as o:
        json.dump(man, o, indent=1, ensure_ascii=False); o.write("\n")
    with open(os.path.join(root, "properties.jsonl"), "w") as o:
        for p in properties.P:
            o.write(json.dumps(p, ensure_ascii=False) + "\n")
    print("claimed", [c["property"] for c in checks], "| not", len(na))

if __name__ == "__main__":
    main()
