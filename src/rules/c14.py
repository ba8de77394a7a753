"""C14: directory walks visit each directory once and honour the filters."""
from bsa import lin
from bsa.engine import Engine, Rule, St, c, eq0, neg, C0, C1, subst, show, NONMUT
from bsa.prog import AnalysisError, norm_name, fn_nodes, walk
from bsa.worker import subterms, occurs
from bsa.pathcond import refuted, refuted_eval

TECHNIQUE = "path-sensitive dataflow over the resolved AST (abstract interpretation): guard obligations at every place a directory is scheduled or a file returned"
NOTE = ("Every path through one round of the walk is followed. Termination follows because each scheduling needs a newly inserted inode of a finite tree. Inode numbers the file system does not provide "
        "(0 or all ones) are exempt, as the code documents. Assumes readdir and stat report what the file system holds; inode numbers are compared without the device.")
EXPLANATION = ("For every routine that reads directories and schedules further ones: on each path that schedules a directory, the entry's name is known not to be '.' or '..', the directory filter accepted this very path, and the directory's own inode "
               "(for links that of the target) was inserted just now into a set that is local to the walk and checked for newness; the start directory is in that set too; on each path that returns a file, the file filter accepted "
               "this very path and it is known not to be a directory.")
UNITS = ["bant/util/file-utils.cc"]

SETS = ("set", "hash_set", "unordered_set", "map", "hash_map", "btree_set")
CONT = ("std::deque", "std::vector", "std::list", "std::queue", "std::stack")
PUSH = {"push_back", "emplace_back", "push", "emplace", "push_front", "emplace_front", "insert"}
DT_DIR, DT_UNKNOWN, DT_LNK = 4, 0, 10


class Walk(Rule):
    def __init__(self, p, rep, root):
        self.p, self.rep, self.root = p, rep, root
        self.pushes = []     # (container, state, value, where)
        self.works = set()
        self.opens = []
        self.outer = []
        self.nread = 0
        self.forgets = []

    def inline(self, eng, fn, fr):
        return fn["file"] == self.root["file"] and (not fn.get("rec") or fn["id"].startswith("lambda@")) and fn["id"] != self.root["id"]

    def val(self, eng, st, call, i): return eng.rval(st, call.args[i], call.node["a"][i])

    def strval(self, eng, st, call, i):
        """identity of a string argument"""
        v = self.val(eng, st, call, i)
        return self.canon(eng, st, v)

    def canon(self, eng, st, v):
        for _ in range(6):
            if v[0] in ("&v", "&t"): v = eng.load(st, v)
            elif v[0] == "ctor" and len(v[2]) == 1 and v[1].startswith("std::"): v = v[2][0]
            elif v[0] in ("data",): v = v[1]
            elif v[0] == "call" and v[1].rpartition("::")[2] in ("c_str", "data", "path", "operator basic_string_view", "string", "native", "operator->") and len(v[2]) == 1: v = v[2][0]
            else: break
        return v

    def pre_call(self, eng, st, call):
        n, nm, fr = call.node, norm_name(call.name or ""), call.fr
        cls, _, short = nm.rpartition("::")
        plain = nm[5:] if nm.startswith("std::") and "::" not in nm[5:] else nm
        f = self.p.functions.get(call.fid)
        if call.fid == self.root["id"]:
            # recursion schedules a directory
            i = self.dirarg(call)
            self.pushes.append((("rec",), st.copy(), self.strval(eng, st, call, i), call.where()))
            return [(st, eng.fresh("rec", n, fr))]
        if plain in ("opendir", "fdopendir"):
            h = eng.fresh("DIR", n, fr)
            s2 = st.copy()
            eng.assume(st, eq0(h), False)
            v = self.strval(eng, st, call, 0)
            st.props["dir"] = v
            self.opens.append((st.copy(), v, call.where()))
            return [(st, h), (s2, C0)]
        if plain in ("readdir", "readdir64"):
            self.nread += 1
            e = eng.fresh("entry", n, fr)
            s2 = st.copy()
            eng.assume(st, eq0(e), False)
            st.props["entry"] = e
            for k in ("wants",): st.props.pop(k, None)
            st.props["ins"] = tuple(x for x in st.props.get("ins", ()) if x[3])
            return [(st, e), (s2, C0)]
        if plain in ("stat", "lstat", "stat64", "lstat64", "fstatat") and len(call.args) >= 2:
            pi, bi = (0, 1) if plain != "fstatat" else (1, 2)
            kind = "lstat" if plain.startswith("lstat") or (plain == "fstatat" and self.val(eng, st, call, 3) != C0) else "stat"
            path = self.strval(eng, st, call, pi)
            buf = call.args[bi]
            s2 = st.copy()
            for fld_ in ("st_ino", "st_mode", "st_dev"):
                rec = next((fid for fid in eng_fields(self.p, fr, n, bi, fld_)), None)
                if rec: eng.write(st, ("&f", buf, rec), (fld_, kind, path))
            s2.props["nostat"] = s2.props.get("nostat", ()) + ((path, "entry" not in s2.props and not s2.props.get("in")),)
            return [(st, C0), (s2, c(-1))]
        if nm == "std::function::operator()" or (n.get("callee") is not None and not n.get("ext")):
            who = call.obj
            if who is not None:
                while who[0] in ("ld",): who = who[1]
                a = self.canon(eng, st, self.val(eng, st, call, 0)) if call.args else None
                r = eng.fresh("wanted", n, fr)
                eng.boolv.add(r)
                st.props["wants"] = st.props.get("wants", ()) + ((who, a, r),)
                return [(st, r)]
        if call.obj is not None and n["k"] != "ctor" and any(cls.endswith(s) for s in SETS) and "path::" not in cls:
            if short in ("insert", "emplace") and call.args:
                v = self.canon(eng, st, self.val(eng, st, call, 0))
                r = eng.fresh("inserted", n, fr)
                eng.havoc_addr(st, call.obj, eng.fresh("set", n, fr))
                st.props["ins"] = st.props.get("ins", ()) + ((call.obj, v, r, not st.props.get("in")),)
                return [(st, r)]
            if short in ("clear", "erase", "swap", "operator=", "extract", "reset", "merge") and st.props.get("in"):
                self.forgets.append((call.obj, call.where()))
            if short in ("contains", "count", "find"):
                v = self.canon(eng, st, self.val(eng, st, call, 0))
                t = ("inset" if short != "find" else "found", call.obj, v)
                if short == "contains": eng.boolv.add(t)
                return [(st, t)]
            if short in ("end", "cend"):
                return [(st, ("end", call.obj))]
        if call.obj is not None and n["k"] != "ctor" and cls in CONT:
            if short in ("front", "back", "top", "operator[]", "at"):
                self.works.add(call.obj)
                v = eng.fresh("next", n, fr)
                return [(st, v)]
            if short in ("pop", "pop_front", "pop_back"):
                self.works.add(call.obj)
            if short in PUSH and call.args:
                vals = [self.canon(eng, st, self.val(eng, st, call, i)) for i in range(len(call.args))]
                v = vals[-1] if short == "insert" else vals[0] if len(vals) == 1 else ("ctor", "elem", tuple(vals))
                self.pushes.append((call.obj, st.copy(), v, call.where()))
                eng.havoc_addr(st, call.obj, eng.fresh("grown", n, fr))
        if f is not None and f.get("rec") and not f["id"].startswith("lambda@"):
            # objects of the program are values made of their arguments
            if n["k"] == "ctor":
                if n.get("cm_ctor") and len(call.args) == 1: return None
                return [(st, ("ctor", nm, tuple(self.ident(eng, st, call, i) for i in range(len(call.args)))))]
            if call.obj is not None and f.get("const"):
                return [(st, ("call", nm, (self.canon(eng, st, call.obj),) + tuple(self.ident(eng, st, call, i) for i in range(len(call.args)))))]
        if nm == "std::move" and call.args:
            return None
        return None

    def ident(self, eng, st, call, i):
        a = call.args[i]
        if a[0] in ("&v", "&t"): return self.canon(eng, st, a)
        return a

    def dirarg(self, call):
        for i, q in enumerate(self.root["params"]):
            t = self.root["_types"][q["t"]]
            if "function" not in t.get("s", ""): return i
        return 0

    def on_loop_entry(self, eng, entries, node, fr):
        names = {norm_name(x.get("n") or "") for x in walk(node) if x.get("k") == "call"}
        if fr.fn["id"] == self.root["id"] and ({"opendir", "fdopendir"} & names):
            self.outer += [s.copy() for s in entries]
            for s in entries: s.props["in"] = True

    def on_loop_back(self, eng, head, st, node, fr):
        if not st.props.get("in"): return
        for k in ("wants", "entry", "dir"): st.props.pop(k, None)
        for k, i in (("ins", 3), ("nostat", 1)):
            if k in st.props: st.props[k] = tuple(x for x in st.props[k] if x[i])


def eng_fields(p, fr, n, bi, name):
    t = fr.fn["_types"][n["pt"][bi]] if bi < len(n.get("pt") or ()) and n["pt"][bi] >= 0 else {}
    yield "stat::" + name


# ---------------------------------------------------------------- what a path knows
def entry_terms(st, e):
    for t in list(st.facts) + list(st.lin):
        for x in subterms(t):
            if isinstance(x, tuple) and x and isinstance(x[0], str): yield x


def text_of(x):
    return x[1] if x[0] == "str" else None


def about_name(x, e):
    """x is the entry's name (array, address or string made of it)"""
    if not isinstance(x, tuple): return False
    if x[0] == "&f" and x[1] == e and str(x[2]).endswith("d_name"): return True
    if x[0] == "ld" or (x[0] == "&i" and len(x) == 2): return about_name(x[1], e)
    if x[0] == "data": return about_name(x[1], e)
    if x[0] == "ctor" and x[2] and str(x[1]).startswith("std::"): return about_name(x[2][0], e)
    if x[0] == "call" and x[1].rpartition("::")[2] in ("data", "c_str", "begin", "operator basic_string_view") and x[2]: return about_name(x[2][0], e)
    if x[0] in ("&i", "&e", "idx") and len(x) > 2 and x[2] == C0: return about_name(x[1], e)
    return False


def name_value(x, e, s):
    """value of term x if the entry is named s"""
    at = None
    if x[0] == "ld" and x[1][0] == "&i" and about_name(x[1][1], e): at = 0
    if x[0] == "ld" and x[1][0] == "lin" and len(x[1][2]) == 1 and x[1][2][0][1] == 1 and about_name(x[1][2][0][0], e): at = x[1][1]
    if at is not None:
        i = at
        return c(ord(s[i]) if i < len(s) else 0) if i <= len(s) else None
    if x[0] == "call" and x[1].rpartition("::")[2] in ("strcmp", "compare") and len(x[2]) == 2:
        for a, b in (x[2], x[2][::-1]):
            if about_name(a, e) and text_of(b) is not None: return C0 if text_of(b) == s else C1
    if x[0] == "call" and x[1].rpartition("::")[2] == "strncmp" and len(x[2]) == 3 and x[2][2][0] == "c":
        k = x[2][2][1]
        for a, b in ((x[2][0], x[2][1]), (x[2][1], x[2][0])):
            if about_name(a, e) and text_of(b) is not None: return C0 if text_of(b)[:k] == s[:k] else C1
    if x[0] in ("eq",):
        for a, b in ((x[1], x[2]), (x[2], x[1])):
            if about_name(a, e) and text_of(b) is not None: return C1 if text_of(b) == s else C0
    if x[0] == "call" and x[1].rpartition("::")[2] in ("operator==",) and len(x[2]) == 2:
        for a, b in (x[2], x[2][::-1]):
            if about_name(a, e) and text_of(b) is not None: return C1 if text_of(b) == s else C0
    if x[0] == "size" and about_name(x[1], e): return c(len(s))
    if x[0] == "call" and x[1].rpartition("::")[2] == "strlen" and x[2] and about_name(x[2][0], e): return c(len(s))
    return None


def mentions(st, pred):
    return any(pred(x) for t in list(st.facts) + list(st.lin) for x in subterms(t) if isinstance(x, tuple) and x and isinstance(x[0], str))


def fld2(eng, st, v):
    """the 'newly inserted' half of an insertion result is known true"""
    for t, truth in st.facts.items():
        x, tr = t, truth
        while x[0] == "not": x, tr = x[1], not tr
        if x[0] == "eq0": x, tr = x[1], not tr
        if x[0] in ("fld", "ld") and occurs(x, v) and "second" in repr(x[-1] if x[0] == "fld" else x[1]) and tr: return True
    return False


def is_new(eng, st, ins):
    s, v, r, _ = ins
    if fld2(eng, st, r): return True
    t = ("inset", s, v)
    if eng.truth(st, t) is False or eng.truth(st, eq0(t)) is True: return True
    for a, b in ((("found", s, v), ("end", s)), (("end", s), ("found", s, v))):
        for tt, tr in st.facts.items():
            if tt[0] == "eq" and set(tt[1:3]) == {a, b} and tr: return True
    return False


def dtype(x, e):
    return x[0] == "ld" and x[1][0] == "&f" and x[1][1] == e and str(x[1][2]).endswith("d_type")


def dino(x, e):
    return x[0] == "ld" and x[1][0] == "&f" and x[1][1] == e and str(x[1][2]).endswith("d_ino")


def placeholder(eng, st, pred):
    """the path only exists for inode numbers that are 0 or have all low bits set"""
    # a valuation with an ordinary inode must contradict the path
    for val in (1, 2, 77, 4096, 2**31, 2**32, 2**32 + 5, 2**33 - 2, 2**40 + 1, 2**63 + 3, 0xfffffffe, 0xffff, 0xffffff):
        def f(x, val=val):
            if pred(x): return c(val)
            return None
        if not refuted_eval(st, f): return False
    return True


def check(p, rep, tier):
    def reads(f): return any(x.get("k") == "call" and norm_name(x.get("n") or "") in ("readdir", "readdir64") and x.get("ext") for x in fn_nodes(f))
    readers = [f for f in p.functions.values() if f["file"].startswith("bant/") and not f["file"].endswith("_test.cc") and f.get("body") and reads(f)]
    # a lambda or helper reading one directory belongs to the routine that loops over directories
    roots = []
    for f in readers:
        g, hops = f, 0
        while hops < 3 and not has_worklist(p, g):
            up = [h for h in p.functions.values() if h["id"] != g["id"] and h.get("body") and any(cid == g["id"] for cid, _ in p.calls.get(h["id"], ())) and h["file"] == g["file"]]
            if len(up) != 1: g = None; break
            g, hops = up[0], hops + 1
        if g is not None and has_worklist(p, g) and g not in roots: roots.append(g)
    for f in p.functions.values():
        if f["file"].startswith("bant/") and not f["file"].endswith("_test.cc") and f.get("body"):
            for x in fn_nodes(f):
                if x.get("k") == "ctor" and norm_name(x.get("n") or "").endswith("recursive_directory_iterator::recursive_directory_iterator") and "follow" in repr(x.get("a")):
                    rep.ob("newly-seen", f["q"], "%s:%s" % (f["file"], x.get("l")), False, "follows links without remembering where it was")
    if not roots:
        raise AnalysisError("no directory walk found")
    for root in roots:
        one(p, rep, root)
    for r in ("not-self-or-parent", "filter-directory", "newly-seen", "filter-file", "start-remembered"):
        rep.require(r, 1)


def has_worklist(p, f):
    if any(cid == f["id"] for cid, _ in p.calls.get(f["id"], ())): return True
    fronts = any(x.get("k") == "call" and norm_name(x.get("n") or "").rpartition("::")[0] in CONT and norm_name(x["n"]).rpartition("::")[2] in ("front", "back", "top", "operator[]", "at", "pop", "pop_front", "pop_back") for x in fn_nodes(f))
    fns = {norm_name(x.get("n") or "") for x in fn_nodes(f) if x.get("k") == "call"}
    return fronts and any("std::function::operator()" == y for y in fns) or (fronts and "opendir" in fns)


def one(p, rep, root):
    rule = Walk(p, rep, root)
    e = Engine(p, rule)
    res = e.run(root, St())
    rep.eng(e)
    name = root["name"]
    T = root["_types"]
    fps = [q for q in root["params"] if "function" in T[q["t"]].get("s", "")]
    if len(fps) != 2: raise AnalysisError("filters of %s not recognised" % name)
    isdir = [q for q in fps if "dir" in (q.get("n") or "").lower()]
    dirp = isdir[0] if len(isdir) == 1 else fps[0]
    filep = next(q for q in fps if q is not dirp)
    start = next((q for q in root["params"] if q not in fps), None)

    def accepted(st, prm, v):
        for who, a, r in st.props.get("wants", ()):
            w = who
            while isinstance(w, tuple) and w[0] in ("ld", "&v"): w = w[1] if w[0] == "ld" else w[2]
            ok = (w == ("param", root["id"], prm["id"])) or w == prm["id"] or occurs(who, ("param", root["id"], prm["id"]))
            if ok and (occurs(v, a) or a == v) and e.truth(st, r) is True: return True
        return False

    work = {cn for cn in rule.works} | {("rec",)}
    dirs = [x for x in rule.pushes if x[0] in work]
    files = [x for x in rule.pushes if x[0] not in work and "entry" in x[1].props]
    inner = [x for x in dirs if "entry" in x[1].props]
    if not inner: raise AnalysisError("scheduling of directories in %s not recognised" % name)
    # entered only if newly seen: at the opening or at the scheduling
    def seen_ok(st, cand, entry, path):
        """some insertion of the directory's inode on this path was new"""
        why = "it is not known to be new"
        for ins in cand:
            v = ins[1]
            if not is_new(e, st, ins): continue
            if ins[0][0] == "&g" or ins[0] in e.statics.values():
                why = "directories are remembered across walks"; continue
            if v[0] == "st_ino":
                if v[1] == "lstat": why = "the inode looked at is that of the link"; continue
                if not (v[2] == path or occurs(path, v[2]) or occurs(v[2], path)): why = "the inode looked at belongs to another path"; continue
                return True, ""
            if entry is not None and dino(v, entry):
                f = lambda k: (lambda x: c(k) if dtype(x, entry) else None)
                if refuted(st, f(DT_LNK)) and refuted(st, f(DT_UNKNOWN)): return True, ""
                why = "for a link, the inode looked at is that of the link"; continue
            why = "what is remembered is not its inode"
        return False, why
    at_open = bool(rule.opens) and all(seen_ok(s, [i for i in s.props.get("ins", ())], None, v)[0] or placeholder(e, s, lambda x: x[0] == "st_ino") for s, v, w in rule.opens)
    for cont, st, v, where in inner:
        en = st.props["entry"]
        for nm in (".", ".."):
            rep.ob("not-self-or-parent", "%s: %s" % (name, nm), where, refuted(st, lambda x: name_value(x, en, nm)), "the entry '%s' may be entered" % nm)
        rep.ob("filter-directory", name, where, accepted(st, dirp, v), "a directory is scheduled without the directory filter having accepted it")
        made = occurs(v, en) or mentions_entry(v, en)
        rep.ob("filter-directory", name + ": path", where, made, "what is scheduled is not the entry that was tested")
        if not at_open:
            mine = [i for i in st.props.get("ins", ()) if not i[3]]
            ok, why = seen_ok(st, mine, en, v)
            if not ok and not mine:
                ok = placeholder(e, st, lambda x: x[0] == "st_ino" or dino(x, en))
            rep.ob("newly-seen", name, where, ok, "a directory is scheduled although %s" % why)
    if at_open:
        rep.ob("newly-seen", name, rule.opens[0][2], True)
        rep.ob("start-remembered", name, rule.opens[0][2], True)
    else:
        if not rule.outer and ("rec",) not in {x[0] for x in inner}: raise AnalysisError("loop over directories in %s not recognised" % name)
        for st in rule.outer:
            ok = False
            isstart = lambda x: start is not None and occurs(x, ("param", root["id"], start["id"])) 
            for i in st.props.get("ins", ()):
                if i[1][0] == "st_ino" and i[1][1] == "stat" and isstart(i[1][2]): ok = True
            ok = ok or any(isstart(x) for x, _ in st.props.get("nostat", ()))
            ok = ok or refuted_eval(st, lambda x: c(0o40755) if x[0] == "st_mode" and isstart(x[2]) else None)     # not a directory
            ok = ok or placeholder(e, st, lambda x: x[0] == "st_ino")
            rep.ob("start-remembered", name, "%s:%s" % (root["file"], root["line"]), ok, "the start directory is not remembered: a link back to it gets it walked twice")
    used = {i[0] for cont, st, v, where in inner for i in st.props.get("ins", ())} | {i[0] for s, v, w in rule.opens for i in s.props.get("ins", ())}
    for obj, where in rule.forgets:
        rep.ob("newly-seen", name + ": forgotten", where, obj not in used, "directories seen before are forgotten during the walk")
    for cont, st, v, where in files:
        en = st.props["entry"]
        if not (occurs(v, en) or mentions_entry(v, en)): continue
        rep.ob("filter-file", name, where, accepted(st, filep, v), "a file is returned without the file filter having accepted it")
        f = lambda k: (lambda x: c(k) if dtype(x, en) else None)
        rep.ob("files-only", name, where, refuted(st, f(DT_DIR)), "a directory may be returned as a file")
        for k, nm in ((DT_LNK, "link"), (DT_UNKNOWN, "entry of unknown kind")):
            known = refuted(st, f(k)) or any(occurs(x, en) for x, _ in st.props.get("nostat", ())) or mentions(st, lambda x: x[0] == "st_mode" and x[1] == "stat")
            rep.ob("files-only", "%s: %s" % (name, nm), where, known, "a %s to a directory may be returned as a file" % nm if k else "a directory may be returned as a file")
        for nm in (".", ".."):
            rep.ob("not-self-or-parent", "%s: returned %s" % (name, nm), where, refuted(st, lambda x: name_value(x, en, nm)) or refuted(st, f(DT_DIR)), "the entry '%s' may be returned" % nm)


def mentions_entry(v, en):
    return occurs(v, en)
