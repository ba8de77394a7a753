#!/usr/bin/env python3
"""Development aid: applies small edits to a scratch copy of /repo and reports which checks react.
usage: mut.py [-c] [filter...]      (filter: property id or substring of the label)"""
import concurrent.futures as cf, os, shutil, subprocess, sys, tempfile, glob
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

def load():
    ms = []
    for f in sorted(glob.glob(os.path.join(HERE, "mutants", "*.txt"))):
        prop = os.path.basename(f)[:-4].upper()
        cur = None
        for line in open(f):
            line = line.rstrip("\n")
            if line.startswith("=== "):
                kind, label = line[4:].split(None, 1)
                cur = dict(prop=prop, kind=kind, label=label, edits=[]); ms.append(cur); sec = None
            elif line.startswith("--- "):
                cur["edits"].append([line[4:].strip(), [], []]); sec = 1
            elif line == "->":
                sec = 2
            elif cur and cur["edits"]:
                cur["edits"][-1][sec].append(line)
    return ms

def run(m, props=None):
    d = tempfile.mkdtemp(prefix="mut")
    try:
        os.makedirs(d + "/repo")
        for x in ("bant", "scripts"):
            shutil.copytree(os.environ.get("MUT_REPO", "/repo") + "/" + x, d + "/repo/" + x)
        for f, old, new in m["edits"]:
            while old and not old[-1].strip(): old.pop()
            while new and not new[-1].strip(): new.pop()
            p = d + "/repo/" + f
            s = open(p).read()
            o, n = "\n".join(old), "\n".join(new)
            if s.count(o) != 1:
                return m, "BADEDIT(%d)" % s.count(o), ""
            open(p, "w").write(s.replace(o, n))
        env = dict(os.environ, BSA_REPO=d + "/repo", BSA_EVIDENCE=d + "/ev", BSA_NOPICKLE="1")
        r = subprocess.run([sys.executable, VERIF + "/check.py"] + (props or [m["prop"]]), capture_output=True, text=True, env=env)
        return m, r.returncode, r.stdout + r.stderr[-1500:]
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    args = sys.argv[1:]
    verbose = "-v" in args
    args = [a for a in args if a != "-v"]
    allp = None
    if "-a" in args:
        args.remove("-a")
        allp = sorted(os.path.basename(x)[:-3].upper() for x in glob.glob(VERIF + "/src/rules/c*.py"))
    ms = [m for m in load() if not args or any(a.upper() == m["prop"] or a in m["label"] for a in args)]
    bad = 0
    with cf.ThreadPoolExecutor(max_workers=6) as ex:
        for m, rc, out in ex.map(lambda m: run(m, allp), ms):
            want = {"bug": 1, "ok": 0}[m["kind"]]
            good = rc == want
            bad += not good
            print("%-4s %s %-4s %s rc=%s" % ("ok" if good else "BAD", m["prop"], m["kind"], m["label"], rc))
            if not good or verbose:
                print("      " + "\n      ".join(out.strip().split("\n")[-8:]))
    print("%d mutants, %d unexpected" % (len(ms), bad))
