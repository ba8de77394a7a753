#!/usr/bin/env python3
"""Development aid: turns dev/plants/<id>.txt into seeded/<id>/{patch.diff,meta.json} (demo.sh and other files
are written by hand or copied from dev/demo/) and confirms the planted bug: applies, builds, passes the stable
test, demonstration passes without and fails with it, which checks notice.
usage: plant.py [-n] [id...]    (-n: only regenerate patches)"""
import glob, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)

def parse(f):
    meta, edits, sec = {}, [], None
    for line in open(f):
        line = line.rstrip("\n")
        if line.startswith("--- "):
            edits.append([line[4:].strip(), [], []]); sec = 1
        elif line == "->" and edits:
            sec = 2
        elif edits:
            edits[-1][sec].append(line)
        elif ":" in line:
            k, v = line.split(":", 1); meta[k.strip()] = v.strip()
    return meta, edits

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def gen(i):
    meta, edits = parse(os.path.join(HERE, "plants", i + ".txt"))
    d = os.path.join(VERIF, "seeded", i)
    os.makedirs(d, exist_ok=True)
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo not clean"
    try:
        for f, old, new in edits:
            while old and not old[-1].strip(): old.pop()
            while new and not new[-1].strip(): new.pop()
            s = open("/repo/" + f).read()
            o, n = "\n".join(old), "\n".join(new)
            assert s.count(o) == 1, (i, f, s.count(o), o)
            open("/repo/" + f, "w").write(s.replace(o, n))
        patch = sh("git -C /repo diff").stdout
    finally:
        sh("git -C /repo checkout -- .")
    open(d + "/patch.diff", "w").write(patch)
    json.dump({"property": meta["property"], "needs": meta["needs"], "what_it_breaks": meta["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    for x in meta.get("copy", "").split():
        src = os.path.join(HERE, "demo", x)
        if os.path.isdir(src): shutil.copytree(src, d, dirs_exist_ok=True)
        else: shutil.copy(src, d)
    return meta

ALL = False
def demo(d):
    return sh("timeout 300 bash %s/demo.sh" % d, cwd="/repo")

def confirm(i, meta):
    d = os.path.join(VERIF, "seeded", i)
    t = "/tmp/plantdemo_" + i
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(d, t, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    r0 = sh("bash /opt/vp/build.sh"); a = demo(t)
    try:
        ap = sh("git -C /repo apply " + d + "/patch.diff")
        assert ap.returncode == 0, ap.stderr
        b = sh("bash /opt/vp/test.sh /tmp/plant_out.json")
        res = json.load(open("/tmp/plant_out.json"))
        ok = res["passed"] and not res["failed"] and b.returncode == 0
        c = demo(t)
        chk = {}
        for m in json.load(open(VERIF + "/MANIFEST.json"))["checks"]:
            if not ALL and m["property"] != meta["property"]: continue
            r = sh(m["quick_cmd"], cwd=VERIF, env=dict(os.environ, BSA_EVIDENCE="/tmp/plant_ev"))
            if r.returncode: chk[m["property"]] = r.returncode
    finally:
        sh("git -C /repo checkout -- .")
    sh("bash /opt/vp/build.sh")
    shutil.rmtree(t, ignore_errors=True)
    good = ok and a.returncode == 0 and c.returncode != 0
    print("%-4s %-22s %s build+tests=%s demo %d -> %d  checks %s%s" % ("ok" if good else "BAD", i, meta["property"], bool(ok), a.returncode, c.returncode, chk,
          "" if chk.get(meta["property"]) == 1 else "   NOT CAUGHT"), flush=True)
    if not good:
        print((b.stdout + b.stderr)[-600:], "| clean:", (a.stdout + a.stderr)[-900:], "| bug:", (c.stdout + c.stderr)[-600:])
    return good

if __name__ == "__main__":
    a = sys.argv[1:]
    n = "-n" in a
    ALL = "-a" in a
    a = [x for x in a if x != "-a"]
    ids = [x for x in a if x != "-n"] or sorted(os.path.basename(x)[:-4] for x in glob.glob(HERE + "/plants/*.txt"))
    for i in ids:
        m = gen(i)
        if not n: confirm(i, m)
