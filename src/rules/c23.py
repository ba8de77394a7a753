"""C23: cached file-system answers are only ever answers to the same question."""
from bsa.engine import Engine, Rule, St, c, eq0, C0, C1, show
from bsa.prog import AnalysisError, norm_name, fn_nodes
from bsa.worker import subterms, occurs

TECHNIQUE = "abstract interpretation of every question method over a finite abstract file system: fixpoint over the reachable memo contents"
NOTE = ("The file system is abstracted, per path, to the kind of the name itself, the kind of what it leads to and the access rights; it is taken as unchanging between two questions. All combinations are enumerated, with every d_type "
        "readdir may report for them. Only the abstract domain is enumerated: no code of the repository is executed.")
EXPLANATION = ("For every class that remembers facts about its path in mutable members: starting from every constructor (directory entries of every reported kind included), every order of questions is followed to a fixpoint over the memo contents; "
               "each question must ask the file system about this object's own path and must give, remembered or not, the answer that question has in the abstract file system. Operations that change the path are followed by all questions again.")
UNITS = ["bant/util/file-utils.cc"]

KIND = {"REG": 0o100000, "DIR": 0o40000, "LNK": 0o120000, "OTHER": 0o20000}
DT = {"REG": 8, "DIR": 4, "LNK": 10, "OTHER": 2}
FT = {"FAIL": -1, "REG": 1, "DIR": 2, "LNK": 3, "OTHER": 5}


def worlds():
    out = []
    for l in ("FAIL", "REG", "DIR", "OTHER", "LNK"):
        for s in (("FAIL", "REG", "DIR", "OTHER") if l == "LNK" else (l,)):
            rights = [(0, 0, 0)] if s == "FAIL" else [(r, w, x) for r in (0, 1) for w in (0, 1) for x in (0, 1)] if s in ("REG", "DIR") else [(0, 0, 0), (1, 1, 1)]
            for r in rights:
                for bits in ((0o777, 0) if s != "FAIL" else (0o777,)):    # what a user may do does not follow from the permission bits alone
                    out.append(dict(L=l, S=s, R=r[0], W=r[1], X=r[2], P=bits))
    return out


SPEC = {"is_directory": lambda w: w["S"] == "DIR", "is_dir": lambda w: w["S"] == "DIR", "IsDirectory": lambda w: w["S"] == "DIR",
        "is_symlink": lambda w: w["L"] == "LNK", "is_link": lambda w: w["L"] == "LNK", "IsSymlink": lambda w: w["L"] == "LNK",
        "can_read": lambda w: bool(w["R"]), "can_write": lambda w: bool(w["W"]), "can_execute": lambda w: bool(w["X"]),
        "exists": lambda w: w["S"] != "FAIL", "is_regular_file": lambda w: w["S"] == "REG", "is_file": lambda w: w["S"] == "REG"}


def access_ok(w, mode):
    if w["S"] == "FAIL": return False
    return (not mode & 4 or w["R"]) and (not mode & 2 or w["W"]) and (not mode & 1 or w["X"])


class Ask(Rule):
    def __init__(self, p, cls):
        self.p, self.cls = p, cls
        self.world = None
        self.asked = []

    def inline(self, eng, fn, fr): return fn["file"].startswith("bant/")

    def val(self, eng, st, call, i): return eng.rval(st, call.args[i], call.node["a"][i])

    def path(self, eng, st, v):
        for _ in range(8):
            if v[0] in ("&v", "&t", "&f"): 
                if self.member(v): return ("mine", v)
                v = eng.load(st, v)
            elif v[0] == "ld" and self.member(v[1]): return ("mine", v[1])
            elif v[0] == "ctor" and len(v[2]) == 1 and v[1].startswith("std::"): v = v[2][0]
            elif v[0] == "ctor" and v[2] and v[1].endswith("filesystem::path"): v = v[2][0]
            elif v[0] == "data": v = v[1]
            elif v[0] == "call" and v[1].rpartition("::")[2] in ("c_str", "data", "path", "operator basic_string_view", "string", "native") and len(v[2]) == 1: v = v[2][0]
            else: break
        return ("mine", v) if v == ("thepath",) else v

    def member(self, a): return isinstance(a, tuple) and len(a) == 3 and a[0] == "&f" and a[2] in self.pathfields and a[1] in (("this", self.cls), ("self",))

    def ask(self, eng, st, call, i, what):
        v = self.path(eng, st, self.val(eng, st, call, i))
        self.asked.append((call.where(), what, v[0] == "mine", show(v)))

    def pre_call(self, eng, st, call):
        n, nm = call.node, norm_name(call.name or "")
        w = self.world
        plain = nm[5:] if nm.startswith("std::") and "::" not in nm[5:] else nm
        if w is None: return None
        if plain in ("stat", "lstat", "stat64", "lstat64", "fstatat", "fstat") and len(call.args) >= 2:
            if plain == "fstat":
                l = False; bi = 1
            elif plain == "fstatat":
                self.ask(eng, st, call, 1, plain); bi = 2
                fl = self.val(eng, st, call, 3)
                if fl[0] != "c": raise AnalysisError("flags of fstatat not known")
                l = bool(fl[1] & 0x100)
            else:
                self.ask(eng, st, call, 0, plain); bi = 1
                l = plain.startswith("l")
            k = w["L"] if l else w["S"]
            if k == "FAIL": return [(st, c(-1))]
            eng.write(st, ("&f", call.args[bi], "stat::st_mode"), c(KIND[k] | w["P"]))
            return [(st, C0)]
        if plain in ("access", "faccessat", "eaccess", "euidaccess"):
            i = 1 if plain == "faccessat" else 0
            self.ask(eng, st, call, i, plain)
            m = self.val(eng, st, call, i + 1)
            if m[0] != "c": raise AnalysisError("mode of access not known")
            return [(st, C0 if access_ok(w, m[1]) else c(-1))]
        if plain in ("open", "open64"):
            self.ask(eng, st, call, 0, plain)
            return [(st, c(3) if access_ok(w, 4) else c(-1))]
        if plain in ("opendir",):
            self.ask(eng, st, call, 0, plain)
            return [(st, c(4096) if w["S"] == "DIR" and w["R"] else C0)]
        if plain in ("readlink",):
            self.ask(eng, st, call, 0, plain)
            return [(st, c(1) if w["L"] == "LNK" else c(-1))]
        if plain in ("close", "closedir"): return [(st, C0)]
        if nm.startswith("std::filesystem::"):
            short = nm.rpartition("::")[2]
            if short in ("is_directory", "is_symlink", "exists", "is_regular_file", "is_other") and call.args:
                a = self.val(eng, st, call, 0)
                a2 = eng.load(st, a) if a[0] in ("&v", "&t") else a
                if a2[0] == "fstype":
                    k = a2[1]
                else:
                    self.ask(eng, st, call, 0, short)
                    k = w["L"] if short == "is_symlink" else w["S"]
                return [(st, c(int({"is_directory": k == "DIR", "is_symlink": k == "LNK", "exists": k != "FAIL", "is_regular_file": k == "REG", "is_other": k == "OTHER"}[short])))]
            if short in ("status", "symlink_status"):
                self.ask(eng, st, call, 0, short)
                return [(st, ("fstype", w["S"] if short == "status" else w["L"]))]
            if nm.endswith("file_status::type") and call.obj is not None:
                a = call.obj
                a = eng.load(st, a) if a[0] in ("&v", "&t") else a
                if a[0] == "fstype": return [(st, c(FT[a[1]]))]
        return None


def memo_classes(p):
    """records with members that const methods change, whose methods ask the file system"""
    out = {}
    for f in p.functions.values():
        if f["file"].startswith("bant/") and not f["file"].endswith("_test.cc") and f.get("body") and f.get("const") and f.get("rec"): out.setdefault(f["rec"], []).append(f)
    return out


def tq(f, t):
    x = f["_types"][t] if t is not None and t >= 0 else {}
    return norm_name(x.get("q") or x.get("s") or "")


PLAIN_ASK = {"stat", "lstat", "stat64", "lstat64", "fstatat", "access", "faccessat", "eaccess", "open", "opendir", "readlink"}


def asks(p, f, seen=None, hops=4):
    seen = set() if seen is None else seen
    if f["id"] in seen or hops < 0: return False
    seen.add(f["id"])
    for x in fn_nodes(f):
        if x.get("k") != "call": continue
        nm = norm_name(x.get("n") or "")
        if nm in PLAIN_ASK or (nm.startswith("std::filesystem::") and nm.rpartition("::")[2] in ("is_directory", "is_symlink", "exists", "is_regular_file", "status", "symlink_status")): return True
        g = p.functions.get(x.get("callee") or "")
        if g is not None and g.get("body") and g["file"].startswith("bant/") and asks(p, g, seen, hops - 1): return True
    for cid, _ in p.calls.get(f["id"], ()):
        g = p.functions.get(cid)
        if g is not None and cid.startswith("lambda@") and asks(p, g, seen, hops - 1): return True
    return False


def root_of(a):
    while isinstance(a, tuple) and a and a[0] in ("&f", "&i", "&b", "&o") and len(a) > 1: a = a[1]
    return a


def check(p, rep, tier):
    classes = {}
    for f in p.functions.values():
        if f["file"].startswith("bant/") and not f["file"].endswith("_test.cc") and f.get("body") and f.get("const") and f.get("rec") in p.records:
            if asks(p, f): classes.setdefault(f["rec"], []).append(f)
    done = 0
    for rid in sorted(classes):
        rec = p.records[rid]
        if not any(x.get("mutable") or "*" in (x.get("q") or "") for x in rec["fields"]): continue
        if one(p, rep, rec): done += 1
    if not done: raise AnalysisError("no class that remembers facts about a path found")
    for r in ("same-answer", "own-path"): rep.require(r, 3)


def one(p, rep, rec):
    rid = rec["id"]
    methods = [f for f in p.functions.values() if f.get("rec") == rid and f.get("body") and not f["id"].startswith("lambda@")]
    questions = [f for f in methods if f.get("const") and not f["params"] and not f.get("implicit") and f["_types"][f["ret"]].get("k") == "bool" and f.get("access") == 0]
    if not questions: return False
    rule = Ask(p, rid)
    e = Engine(p, rule)
    anyf = methods[0]
    rule.pathfields = {x["id"] for x in rec["fields"] if fieldtype(p, rec, x) in ("std::basic_string", "std::string", "std::filesystem::path")}
    if not rule.pathfields: raise AnalysisError("path of %s not recognised" % rec["q"])
    this = ("this", rid)
    name = rec["q"].rpartition("::")[2]

    def memo(st):
        return tuple(sorted(((a, v) for a, v in st.store.items() if root_of(a) == this and a != this and not any(f in rule.pathfields for f in chain(a))), key=repr))

    def chain(a):
        out = []
        while isinstance(a, tuple) and a and a[0] in ("&f", "&i", "&b", "&o") and len(a) > 1:
            if len(a) > 2: out.append(a[2])
            a = a[1]
        return out

    def state(m):
        st = St()
        for pf in rule.pathfields: e.write(st, ("&f", this, pf), ("thepath",))
        for a, v in m: st.store[a] = v
        return st

    def step(f, m, w, args=None, pre=None):
        rule.world, rule.asked = w, []
        st = state(m)
        if pre: pre(st)
        return e.run(f, st, this=this, args=args)

    cache = {}
    def ask(q, m, w):
        k = (q["id"], m, wk(w))
        if k not in cache:
            out = []
            for st, v in step(q, m, w):
                v = e.load(st, v) if v[0] in ("&v", "&t") else v
                t = e.truth(st, v) if v[0] != "c" else bool(v[1])
                out.append((t, memo(st), show(v)))
            cache[k] = (out, list(rule.asked))
        return cache[k]

    def wk(w): return tuple(sorted(w.items()))

    ctors = [f for f in methods if f.get("ctor") and f.get("access") == 0 and not (f.get("implicit") and f["params"])]
    starts = {}       # (world key) -> memo -> from
    W = worlds()
    plain = None
    for f in ctors:
        if any(tq(f, q["t"]) == rec["q"] or rec["q"] in f["_types"][q["t"]].get("s", "") for q in f["params"]): continue
        ds = [q for q in f["params"] if "dirent" in f["_types"][q["t"]].get("s", "")]
        dents = [q for q in f["params"] if "directory_entry" in f["_types"][q["t"]].get("s", "")]
        for w in W:
            kinds = [None]
            if ds:
                if w["L"] == "FAIL": continue
                kinds = [DT[w["L"]], 0]
            for k in kinds:
                def pre(st):
                    for q in ds: e.write(st, ("&f", ("param", f["id"], q["id"]), "dirent::d_type"), c(k))
                rule.world, rule.asked = w, []
                st = St(); pre(st)
                for s2, _ in e.run(f, st, this=this):
                    m = memo(s2)
                    starts.setdefault(wk(w), {}).setdefault(m, (f, k))
                    if not ds and not dents and plain is None: plain = m
    if plain is None: raise AnalysisError("no way to construct a %s without knowledge found" % name)
    where = lambda f: "%s:%s" % (f["file"], f["line"])

    # the answer a question has when nothing is remembered
    answer, seenq = {}, set()
    for q in questions:
        for w in W:
            outs, asked = ask(q, plain, w)
            vs = {t for t, _, _ in outs}
            if asked: seenq.add(q["id"])
            if q["id"] not in seenq and q["name"] not in SPEC: continue
            if vs - {True, False}:
                raise AnalysisError("answer of %s::%s not determined: %s" % (name, q["name"], [x[2] for x in outs][:2]))
            answer[q["id"], wk(w)] = vs
            if q["name"] in SPEC:
                want = SPEC[q["name"]](w)
                rep.ob("same-answer", "%s: first answer" % q["name"], where(q), vs == {want}, "asking for the first time gives %s for %s" % (sorted(vs), text(w)))
                answer[q["id"], wk(w)] = {want}
            elif len(vs) != 1: raise AnalysisError("answer of %s::%s depends on more than the abstract file system" % (name, q["name"]))
    qs = [q for q in questions if (q["id"], wk(W[0])) in answer]
    if not qs: return False
    # other const methods may change what is remembered
    changing = [f for f in methods if not f.get("ctor") and not f.get("dtor") and not f.get("implicit") and f not in qs and f.get("access") == 0]
    edits = []
    for f in changing:
        if f.get("const"): continue
        edits.append(f)
    nstates = 0
    for w in W:
        k = wk(w)
        todo = [(m, ()) for m in starts.get(k, {})]
        origin = dict(starts.get(k, {}))
        seen = set(origin)
        while todo:
            m, hist = todo.pop(0)
            nstates += 1
            if nstates > 20000: raise AnalysisError("too many memo states of %s" % name)
            for q in qs:
                outs, asked = ask(q, m, w)
                for wh, what, mine, sh in asked:
                    rep.ob("own-path", "%s: %s" % (q["name"], what), wh, mine, "asks the file system about another path (%s)" % sh)
                for t, m2, sh in outs:
                    ok = t is not None and {t} == answer[q["id"], k]
                    if t is None: raise AnalysisError("answer of %s::%s not determined: %s" % (name, q["name"], sh))
                    rep.ob("same-answer", "%s" % q["name"], where(q), ok, "answers %s for %s%s" % (t, text(w), told(origin[m], hist)))
                    if m2 not in seen:
                        seen.add(m2); origin[m2] = origin[m]
                        todo.append((m2, hist + (q["name"],)))
            for f in edits:
                for st, v in edit(e, rule, f, state(m), this, w):
                    if not any(e.load(st, ("&f", this, pf)) != ("thepath",) for pf in rule.pathfields): continue
                    m2 = memo(st)
                    for w2 in W:
                        for q in qs:
                            outs, _ = ask(q, m2, w2)
                            for t, _, sh in outs:
                                rep.ob("same-answer", "%s after %s" % (q["name"], f["name"]), where(f), t is not None and {t} == answer[q["id"], wk(w2)], "after the path was changed, the answer for the former path is given")
    for q in qs:
        for w in W:
            outs, asked = ask(q, plain, w)
            for wh, what, mine, sh in asked:
                rep.ob("own-path", "%s: %s" % (q["name"], what), wh, mine, "asks the file system about another path (%s)" % sh)
    rep.eng(e)
    rep.notes.append("%s: %d questions, %d constructors, %d worlds, %d memo states" % (name, len(qs), len(ctors), len(W), nstates))
    return True


def edit(e, rule, f, st, this, w):
    rule.world, rule.asked = w, []
    return e.run(f, st, this=this)


def fieldtype(p, rec, x):
    t = rec["_types"][x["type"]]
    return norm_name(t.get("q") or t.get("s") or "")


def text(w):
    def kind(k): return {"FAIL": "missing", "REG": "a file", "DIR": "a directory", "OTHER": "something else"}[k]
    s = "a name that is %s" % kind(w["S"]) if w["L"] != "LNK" else "a link to %s" % (kind(w["S"]) if w["S"] != "FAIL" else "nothing")
    return s + (", readable" if w["R"] else "")


def told(o, hist):
    f, k = o
    s = ""
    if k is not None: s = ", made from a directory entry of kind %s" % {0: "unknown", 8: "file", 4: "directory", 10: "link", 2: "other"}[k]
    return s + (" after asking %s" % ", ".join(hist) if hist else "")
