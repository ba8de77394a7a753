"""Loads the resolved program: runs the exporter over all translation units of
/repo's current working tree and merges the results."""
import concurrent.futures as cf
import hashlib, json, os, pickle, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.abspath(os.path.join(HERE, "..", ".."))
REPO = os.environ.get("BSA_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EXPORTER = os.path.join(BUILD, "exporter")


class AnalysisError(Exception):
    """The analysis itself could not be carried out (not a verdict)."""


def ensure_exporter():
    src = os.path.join(VERIF, "src/exporter/exporter.cc")
    if os.path.exists(EXPORTER) and os.path.getmtime(EXPORTER) >= os.path.getmtime(src):
        return
    if os.path.exists(EXPORTER) and os.path.exists(EXPORTER + ".sha"):
        if open(EXPORTER + ".sha").read() == hashlib.sha256(open(src, "rb").read()).hexdigest():
            return
    r = subprocess.run(["bash", os.path.join(VERIF, "src/exporter/build.sh")],
                       capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("building exporter failed:\n" + r.stderr[-3000:])
    open(EXPORTER + ".sha", "w").write(hashlib.sha256(open(src, "rb").read()).hexdigest())


def strip_targs(s):
    out, depth, i = [], 0, 0
    n = len(s)
    while i < n:
        c = s[i]
        if s.startswith("operator", i):
            m = re.match(r"operator(<=>|<<=|>>=|<<|>>|<=|>=|<|>|->\*|->)", s[i:])
            if m and depth == 0:
                out.append(m.group(0)); i += len(m.group(0)); continue
        if c == "<":
            depth += 1
        elif c == ">" and depth > 0 and s[i-1] != "-":
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return "".join(out)


_nn = {}
def norm_name(s):
    """std::__cxx11::basic_string<char>::empty -> std::basic_string::empty"""
    if s is None:
        return None
    r = _nn.get(s)
    if r is None:
        r = strip_targs(s)
        r = re.sub(r"::(__cxx11|__1|lts_\d+|debian\d+|_V2|__detail)(?=::)", "", r)
        r = re.sub(r"\(anonymous namespace\)::", "", r)
        r = re.sub(r"\(anonymous class\)::", "", r)
        _nn[s] = r
    return r


def units():
    res = []
    for root, dirs, files in os.walk(os.path.join(REPO, "bant")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".cc") and not f.endswith("_test.cc"):
                res.append((os.path.join(root, f), "c++23"))
    t = os.path.join(REPO, "scripts/run-clang-tidy-cached.cc")
    if os.path.exists(t):
        res.append((t, "c++17"))
    w = os.path.join(VERIF, "src/witness")
    for f in sorted(os.listdir(w)):
        if f.startswith("inst_") and f.endswith(".cc"):
            res.append((os.path.join(w, f), "c++23"))
    return res


def tree_hash(us):
    h = hashlib.sha256()
    h.update(open(os.path.join(VERIF, "src/exporter/exporter.cc"), "rb").read())
    fs = [u for u, _ in us]
    for base in (os.path.join(REPO, "bant"), os.path.join(VERIF, "shim")):
        for root, dirs, files in os.walk(base):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".h", ".cc", ".inc", ".hpp")):
                    fs.append(os.path.join(root, f))
    for f in sorted(set(fs)):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:24]


def header_hash():
    h = hashlib.sha256()
    h.update(open(os.path.join(VERIF, "src/exporter/exporter.cc"), "rb").read())
    for base in (REPO, os.path.join(VERIF, "shim")):
        for root, dirs, files in os.walk(base):
            dirs[:] = sorted(d for d in dirs if not d.startswith((".", "_build", "bazel-", "build")))
            for f in sorted(files):
                if f.endswith((".h", ".inc", ".hpp")):
                    h.update((os.path.relpath(os.path.join(root, f), base)).encode())
                    h.update(open(os.path.join(root, f), "rb").read())
    return h.hexdigest()


def _export(args):
    src, std, out, hh = args
    # results are reused only for byte-identical sources and headers
    key = hashlib.sha256((hh + std + os.path.relpath(src, REPO)).encode() + open(src, "rb").read()).hexdigest()[:24]
    cached = os.path.join(BUILD, "cache", "u-" + key + ".json")
    if os.path.exists(cached) and not os.environ.get("BSA_NOCACHE"):
        try:
            shutil.copyfile(cached, out)
            return src, 0, ""
        except OSError:
            pass
    r = _export1(src, std, out)
    if r[1] == 0 and os.path.exists(out):
        try:
            os.makedirs(os.path.dirname(cached), exist_ok=True)
            shutil.copyfile(out, cached + ".%d" % os.getpid())
            os.replace(cached + ".%d" % os.getpid(), cached)
        except OSError:
            pass
    return r


def _export1(src, std, out):
    cmd = [EXPORTER, REPO, out, src, "--", "-std=" + std, "-w",
           "-I" + os.path.join(VERIF, "shim"), "-I" + REPO]
    r = subprocess.run(cmd, capture_output=True, text=True)
    return src, r.returncode, r.stderr


class Program:
    def __init__(self):
        self.functions = {}    # id -> dict
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.units = []
        self.failed = {}       # unit -> error text

    # ---- queries
    def type(self, fn, tid):
        return fn["_types"][tid] if tid is not None and tid >= 0 else {"k": "other", "s": "?"}

    def fns(self, pred=None, file=None, q=None, name=None, rec=None):
        for f in self.functions.values():
            if file and f["file"] != file: continue
            if q and norm_name(f["q"]) != q: continue
            if name and f["name"] != name: continue
            if rec and norm_name(f.get("rec") or "") != rec: continue
            if pred and not pred(f): continue
            yield f

    def fn1(self, **kw):
        r = list(self.fns(**kw))
        if len(r) != 1:
            raise AnalysisError("anchor %r matches %d functions" % (kw, len(r)))
        return r[0]

    def rec1(self, q):
        r = [x for x in self.records.values() if norm_name(x["q"]) == q]
        if not r:
            raise AnalysisError("record %s not found" % q)
        return r[0]


def load(need=None):
    """Returns Program; need = optional list of repo-relative files that must parse."""
    ensure_exporter()
    us = units()
    key = tree_hash(us)
    cache = os.path.join(BUILD, "cache", key + ".pickle")
    if os.path.exists(cache) and not os.environ.get("BSA_NOCACHE"):
        try:
            with open(cache, "rb") as f:
                p = pickle.load(f)
            finish(p)
            return p
        except Exception:
            pass
    tmp = tempfile.mkdtemp(prefix="bsa")
    p = Program()
    try:
        hh = header_hash()
        jobs = [(u, s, os.path.join(tmp, "%d.json" % i), hh) for i, (u, s) in enumerate(us)]
        with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            for (src, rc, err), (_, _, out, _) in zip(ex.map(_export, jobs), jobs):
                rel = os.path.relpath(src, REPO) if src.startswith(REPO + "/") else src
                if rc or not os.path.exists(out):
                    p.failed[rel] = err[-2000:]
                    continue
                p.units.append(rel)
                merge(p, json.load(open(out)), rel)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if not p.failed and not os.environ.get("BSA_NOPICKLE"):
        try:
            os.makedirs(os.path.dirname(cache), exist_ok=True)
            t = cache + ".%d" % os.getpid()
            sys.setrecursionlimit(20000)
            with open(t, "wb") as f:
                pickle.dump(p, f, protocol=4)
            os.replace(t, cache)
        except Exception:
            pass
    finish(p)
    return p


def merge(p, d, unit):
    types = d["types"]
    for f in d["functions"]:
        if f["id"] in p.functions:
            continue
        f["_types"] = types
        f["unit"] = unit
        p.functions[f["id"]] = f
    for r in d["records"]:
        if r["id"] not in p.records:
            r["_types"] = types
            r["unit"] = unit
            p.records[r["id"]] = r
    for e in d["enums"]:
        p.enums.setdefault(e["id"], e)
    for g in d["globals"]:
        if g["id"] not in p.globals:
            g["_types"] = types
            p.globals[g["id"]] = g


def children(n):
    """All dict nodes directly inside n."""
    for k, v in n.items():
        if k == "_types": continue
        if isinstance(v, dict):
            yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    yield x


def walk(n):
    stack = [n]
    while stack:
        x = stack.pop()
        yield x
        stack.extend(reversed(list(children(x))))


def finish(p):
    """Derived tables: call graph, overriders, node numbering."""
    nid = 0
    p.calls = {}       # fid -> [(callee id, node)]
    p.overriders = {}  # fid -> set of overriding fids
    p.field_types = {}
    for r in p.records.values():
        for f in r["fields"]:
            p.field_types[f["id"]] = (r, f)
    def number(n):
        nonlocal nid
        for x in walk(n):
            x["_id"] = nid
            nid += 1
    for f in p.functions.values():
        number(f["body"]) if f.get("body") else None
        for i in f.get("inits", ()):
            number(i["e"]) if i.get("e") else None
        for o in f.get("overrides", ()):
            p.overriders.setdefault(o, set()).add(f["id"])
    for g in p.globals.values():
        if g.get("init"): number(g["init"])
    for r in p.records.values():
        for fl in r["fields"]:
            if fl.get("init"): number(fl["init"])
    for f in p.functions.values():
        cs = []
        for x in fn_nodes(f):
            if x.get("k") in ("call", "ctor") and x.get("f"):
                cs.append((x["f"], x))
            elif x.get("k") == "lambda":
                cs.append((x["f"], x))
            elif x.get("k") == "fn" and x.get("f"):
                cs.append((x["f"], x))
        p.calls[f["id"]] = cs


def fn_nodes(f):
    if f.get("body"):
        yield from walk(f["body"])
    for i in f.get("inits", ()):
        if i.get("e"):
            yield from walk(i["e"])
