"""C13: every opened file, directory and pipe is closed on every path."""
from bsa.engine import Engine, Rule, St, Frame, c, show, eq0, ge0, C0, neg
from bsa.prog import AnalysisError, norm_name, fn_nodes, walk

TECHNIQUE = "typestate analysis of handles over all paths of the resolved AST (abstract interpretation, calls interpreted in place)"
NOTE = ("Every path through each routine that opens something is followed, with the opening failing and succeeding; loops by fixpoint. Scope-exit objects run the function they were given. "
        "Handles stored in objects count as closed if the object's class closes them in its destructor. Assumes the closing calls themselves release the handle.")
EXPLANATION = ("For every call that opens a file descriptor, stream, directory, pipe or glob result: on every path where it succeeded the handle is closed exactly once with the matching call, returned to the caller (whose paths "
               "are then followed), or given to an owner that closes it; no call uses it after it was closed or on a path where opening failed.")
UNITS = ["bant/util/file-utils.cc", "bant/util/filesystem-prewarm-cache.cc", "scripts/run-clang-tidy-cached.cc"]

# opener: (kind, value if it failed)
OPEN = {"open": ("fd", -1), "openat": ("fd", -1), "creat": ("fd", -1), "dup": ("fd", -1), "mkstemp": ("fd", -1), "memfd_create": ("fd", -1), "socket": ("fd", -1),
        "fopen": ("FILE", 0), "fdopen": ("FILE", 0), "tmpfile": ("FILE", 0), "freopen": ("FILE", 0), "fopen64": ("FILE", 0), "fmemopen": ("FILE", 0),
        "opendir": ("DIR", 0), "fdopendir": ("DIR", 0), "popen": ("pipe", 0), "mmap": ("map", -1), "open64": ("fd", -1)}
CLOSE = {"close": "fd", "fclose": "FILE", "pclose": "pipe", "closedir": "DIR", "munmap": "map"}
NAME = {"fd": "file descriptor", "FILE": "stream", "DIR": "directory handle", "pipe": "pipe", "map": "mapping", "glob": "glob result"}
CLOSER = {v: k for k, v in CLOSE.items()}
CLOSER["glob"] = "globfree"
FDUSE = {"read", "write", "fstat", "lseek", "pread", "pwrite", "fcntl", "ftruncate", "fsync", "dup", "fdopen", "fdopendir", "readv", "posix_fadvise", "fstatat", "openat"}
OWNERS = ("std::unique_ptr", "std::shared_ptr")


def base(nm):
    nm = norm_name(nm or "")
    return nm[5:] if nm.startswith("std::") and "::" not in nm[5:] else nm


class Res(Rule):
    def __init__(self, p, rep, file):
        self.p, self.rep, self.file = p, rep, file
        self.owner_ok = {}
        self.returned = False
        self.opened = 0
        self.flagged = set()

    def inline(self, eng, fn, fr):
        return fn["file"] == self.file or fn["file"].startswith("bant/util/file-utils")

    def ob(self, rule, key, where, ok, d=""):
        self.rep.ob(rule, key, where, ok, d)

    # ------------------------------------------------------------ handles on the path
    def rs(self, st): return dict(st.props.get("res", ()))
    def put(self, st, d): st.props["res"] = tuple(sorted(d.items(), key=repr))

    def open(self, eng, st, call, h, kind):
        d = self.rs(st)
        if d.get(h, ("closed",))[0] == "open":
            self.leak(h, d[h], "is opened again without being closed", call.where())
        d[h] = ("open", kind, call.where(), call.fr.fn["q"])
        self.put(st, d)
        self.opened += 1

    def leak(self, h, r, why, where):
        self.flagged.add(r[2])
        self.ob("closed-on-every-path", "%s opened in %s" % (NAME[r[1]], r[3]), r[2], False, "%s %s (%s)" % (NAME[r[1]], why, where))

    def handle(self, st, v):
        d = self.rs(st)
        if v in d: return v
        # a handle wrapped in an expression
        return None

    def pre_call(self, eng, st, call):
        n, nm = call.node, base(call.name)
        if call.node["k"] == "ctor" and norm_name(n.get("rq") or "").startswith("absl::Cleanup"):
            return None
        if call.obj is None and (n.get("ext") or call.fid not in self.p.functions) and nm in OPEN:
            kind, bad = OPEN[nm]
            s2 = st.copy()
            h = eng.fresh("h:" + kind, n, call.fr)
            if bad == -1: eng.assume(st, ge0(h), True)
            else: eng.assume(st, eq0(h), False)
            if nm in ("fdopen", "fdopendir"):
                x = eng.rval(st, call.args[0], n["a"][0])
                d = self.rs(st)
                if x in d and d[x][0] == "open":       # the new handle owns the old one
                    d[x] = ("given",) + d[x][1:]
                    self.put(st, d)
            if nm == "freopen":
                return None
            self.open(eng, st, call, h, kind)
            return [(st, h), (s2, c(bad))]
        if nm == "glob" and len(call.args) == 4:
            s2 = st.copy()
            self.open(eng, st, call, ("glob", call.args[3]), "glob")
            eng.havoc_addr(st, call.args[3], eng.fresh("globres", n, call.fr))
            r = eng.fresh("globerr", n, call.fr)
            eng.assume(s2, eq0(r), False)
            return [(st, C0), (s2, r)]
        if nm == "globfree" and call.args:
            self.close(eng, st, call, ("glob", call.args[0]), "glob", nm)
            return [(st, C0)]
        if nm in CLOSE and call.args and call.obj is None:
            v = eng.rval(st, call.args[0], n["a"][0])
            self.close(eng, st, call, v, CLOSE[nm], nm)
            return [(st, eng.fresh("closed", n, call.fr))]
        # other uses
        if call.obj is None and (n.get("ext")):
            std = call.name or ""
            for i, (a, an) in enumerate(zip(call.args, n.get("a", []))):
                if n["k"] == "ctor": break
                v = eng.rval(st, a, an)
                t = eng.typ(call.fr, an.get("t"))
                ts = t.get("s", "")
                d = self.rs(st)
                if v in d and d[v][0] != "open" and d[v][0] != "given" and nm not in ("printf", "snprintf", "fprintf") + OWNERS:
                    self.ob("not-used-after-close", "%s in %s" % (nm, call.fr.fn["q"]), call.where(), False, "uses the %s after it was closed" % NAME[d[v][1]])
                elif v in d:
                    self.ob("not-used-after-close", "%s in %s" % (nm, call.fr.fn["q"]), call.where(), True)
                    self.ob("checked-before-use", "%s in %s" % (nm, call.fr.fn["q"]), call.where(), True)
                isfile = t.get("k") == "ptr" and eng.typ(call.fr, t["to"]).get("k") == "rec" and any(x in ts for x in ("FILE", "DIR", "dirstream"))
                if v == C0 and isfile and nm not in ("fflush", "freopen"):
                    self.ob("checked-before-use", "%s in %s" % (nm, call.fr.fn["q"]), call.where(), False, "is reached although opening failed")
                if v == c(-1) and i == 0 and nm in FDUSE:
                    self.ob("checked-before-use", "%s in %s" % (nm, call.fr.fn["q"]), call.where(), False, "is reached although opening failed")
        # owners with a closing function
        if n["k"] == "ctor" and norm_name(n.get("rq") or "") in OWNERS and len(call.args) >= 1 and not n.get("cm_ctor"):
            v = eng.rval(st, call.args[0], n["a"][0])
            d = self.rs(st)
            if v in d and d[v][0] == "open":
                ts = eng.typ(call.fr, n.get("t")).get("s", "")
                fns = [a if a[0] == "&fn" else eng.rval(st, a, an) for a, an in zip(call.args[1:], n["a"][1:])]
                names = {base(f[1]) for f in fns if f[0] == "&fn"} | {k for k in CLOSE if k in ts.replace("(", " ").replace("&", " ").split()}
                r = next((q for q in self.p.records.values() if "<" in ts and norm_name(q["q"]).split("::")[-1] in ts.partition("<")[2]), None)
                ok = CLOSER[d[v][1]] in names
                for rec in self.p.records.values():
                    if not ok and norm_name(rec["q"]).split("::")[-1] in ts.partition(",")[2]:
                        ok = any(base(x.get("n")) == CLOSER[d[v][1]] for f in self.p.functions.values() if f.get("rec") == rec["id"] for x in fn_nodes(f) if x.get("k") == "call")
                for f in fns:
                    if not ok and f[0] == "lam" and f[1] in self.p.functions:
                        ok = any(base(x.get("n")) == CLOSER[d[v][1]] for x in fn_nodes(self.p.functions[f[1]]) if x.get("k") == "call")
                self.ob("matching-close", "%s opened in %s" % (NAME[d[v][1]], d[v][3]), call.where(), ok, "its owner does not close it with %s" % CLOSER[d[v][1]])
                d[v] = ("given",) + d[v][1:]
                self.put(st, d)
        if call.obj is not None and norm_name(n.get("rq") or "") == "absl::Cleanup" and base(call.name).rpartition("::")[2] == "Cancel":
            st.props[("off", call.obj)] = True
        return None

    def close(self, eng, st, call, v, kind, nm):
        d = self.rs(st)
        key = "%s in %s" % (nm, call.fr.fn["q"])
        if v not in d:
            if v == (C0 if kind != "fd" else c(-1)):
                self.ob("checked-before-use", key, call.where(), False, "closes what was never opened (opening failed)")
            return
        s, k, where, q = d[v]
        if s == "open":
            self.ob("matching-close", "%s opened in %s" % (NAME[k], q), where, k == kind, "%s is closed with %s instead of %s" % (NAME[k], nm, CLOSER[k]))
        else:
            self.ob("closed-once", "%s opened in %s" % (NAME[k], q), where, False, "%s is closed again at %s" % (NAME[k], call.where()))
        d[v] = ("closed", k, where, q)
        self.put(st, d)

    def on_dtor(self, eng, st, addr, typ, node, fr):
        q = norm_name(typ.get("q") or "")
        if q == "absl::Cleanup" or (q.startswith("absl::") and "Cleanup" in q):
            if st.props.get(("off", addr)): return None
            v = eng.load(st, addr)
            for _ in range(4):
                if v[0] == "ctor" and v[2]: v = v[2][0]
                elif v[0] in ("&v", "&t", "&f"): v = eng.load(st, v)
            if v[0] == "lam":
                r = eng.call_lambda(v, st, [], fr, node)
                if r is not None: return [s for s, _ in r]
            return None
        # objects of the program: run their destructor
        rid = typ.get("rec")
        for f in self.p.functions.values():
            if f.get("dtor") and f.get("rec") == rid and f.get("body") and f["file"] == self.file and eng.can_inline(f, fr):
                return [s for s, _ in eng.inline(f, st, addr, [], fr, dict(node, _id=(node.get("_id"), "dtor")))]
        return None

    def on_store(self, eng, st, addr, val, node, fr):
        d = self.rs(st)
        if val in d and d[val][0] == "open":
            a = addr
            while a[0] == "&f":
                # a member of an object: its class has to close it
                rec, fl = self.p.field_types.get(a[2], (None, None))
                if rec is not None and a[1][0] not in ("&v", "&t"):
                    ok = any(base(x.get("n")) == CLOSER[d[val][1]] for f in self.p.functions.values() if f.get("dtor") and f.get("rec") == rec["id"] for x in fn_nodes(f) if x.get("k") == "call")
                    self.ob("matching-close", "%s opened in %s" % (NAME[d[val][1]], d[val][3]), fr.where(node), ok, "is kept in %s, which does not close it" % rec["q"])
                    d[val] = ("given",) + d[val][1:]
                    self.put(st, d)
                    return
                a = a[1]


def contains(t, h):
    return t == h or (isinstance(t, tuple) and any(contains(x, h) for x in t if isinstance(x, tuple)))


def check(p, rep, tier):
    skip = lambda f: f["file"].endswith("_test.cc") or f["file"].startswith(("/", "..")) or not f.get("body")
    todo = [f for f in p.functions.values() if not skip(f) and any(x.get("k") in ("call", "fn") and base(x.get("n")) in set(OPEN) | {"glob"} and x.get("ext") for x in fn_nodes(f))]
    todo = [f for f in todo if any(x.get("k") == "call" and base(x.get("n")) in set(OPEN) | {"glob"} and x.get("ext") for x in fn_nodes(f))]
    done = set()
    n = 0
    while todo:
        f = todo.pop(0)
        if f["id"] in done: continue
        done.add(f["id"])
        rule = Res(p, rep, f["file"])
        e = Engine(p, rule, max_steps=300000)
        st = St()
        up = False
        res = e.run(f, st)
        for s, v in res:
            for h, r in dict(s.props.get("res", ())).items():
                if r[0] != "open": continue
                if v is not None and contains(v, h):
                    up = True
                    continue
                if any(contains(x, h) for a, x in s.store.items() if a[0] in ("&f", "&g", "ld", "param")):
                    up = True; continue
                rule.leak(h, r, "is still open when %s returns" % f["name"], "%s:%s" % (f["file"], f["line"]))
        n += rule.opened
        for h, r in {(h, r) for s, v in res for h, r in dict(s.props.get("res", ())).items()}:
            if r[2] not in rule.flagged:
                rep.ob("closed-on-every-path", "%s opened in %s" % (NAME[r[1]], r[3]), r[2], True)
        rep.eng(e)
        if up:
            todo += [g for g in p.functions.values() if not skip(g) and any(cid == f["id"] for cid, _ in p.calls.get(g["id"], ()))]
    if not n:
        raise AnalysisError("no opening call found")
    rep.require("closed-on-every-path", 3)
