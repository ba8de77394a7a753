"""Analysis of cache keys and report of scripts/run-clang-tidy-cached.cc (C18, C29): the flow through main, the
routine that builds the work list, the one that writes the report, and what the worker makes the tool depend on."""
import re
from . import lin
from .engine import Engine, St, c, show, eq0, ge0, fld, C0, C1, neg, size_of, subst, simp
from .outputs import norm, pieces, shows
from .prog import AnalysisError, norm_name, fn_nodes, walk
from .report import Report
from .scriptrule import ScriptRule, script_fns, reach, names_called, UNIT, FS, FILESTREAMS
from .worker import Worker, analyse, occurs, possible
from .worker import subterms as all_subterms

PATHQ = "std::filesystem::path"
MAPS = ("std::map", "std::unordered_map", "std::multimap")
SEQ = ("std::vector", "std::list", "std::deque", "std::__cxx11::list")
HEADER_EXT = {".h", ".hpp", ".hxx", ".inl"}
SRC_EXT = {".cc", ".cpp", ".cxx"}
INCLUDES = ['#include "bant/util/a.h"', '#include"a.hpp"', '  #  include   "b-c+d_e.inl"', '#\tinclude\t"../x/y.hxx"', '#include "sp ace.h"',
            '#include "a.b/c.h"', '# include "A1@(2).h"']
CHECKS = ["bugprone-use-after-move", "cppcoreguidelines-pro-type-vararg", "clang-analyzer-core.NullDereference", "clang-diagnostic-error", "modernize-use-c++20-x",
          "google-readability-casting,-warnings-as-errors", "readability-identifier-length", "abseil-string-find-str_contains", "cert-err34-c", "clang-diagnostic-#warnings",
          "hicpp-use-auto,modernize-use-auto"]


def subterms(t):
    for x in all_subterms(t):
        if x and isinstance(x[0], str) and len(x) > 1:
            yield x


def bfacts(st):
    """(term, truth) of what is known to hold on the path"""
    for f, v in st.facts.items():
        if f[0] == "eq0" and f[1][0] == "call":
            yield f[1], not v
        else:
            yield f, v


def py_re(rx):
    """the pattern, if Python's engine reads it the same way as the ECMAScript grammar"""
    try:
        return re.compile(rx)
    except re.error:
        return None


class Flow(ScriptRule):
    def __init__(self, p, r18, r29):
        super().__init__(p)
        self.r18, self.r29 = r18, r29
        self.backs = []           # (loop id, node, where, dict of events, facts state, head)
        self.regexes = []         # literal patterns in construction order
        self.rx = {}              # regex object -> its pattern
        self.mtime = {}           # symbol -> path whose modification time it is
        self.slot = {}            # address symbol -> (map value, key)
        self.mapaddr = {}         # address symbol -> map address
        self.roots = {}
        self.main = None          # set while main is run: list of events
        self.entries = {}         # loop id -> entry states
        self.reached = set()
        self.loopnode = {}

    # ------------------------------------------------------------ roles
    def markers(self, fid):
        m = self.__dict__.setdefault("_mk", {})
        if fid not in m:
            r = set()
            for g in reach(self.p, fid):
                f = self.p.functions[g]
                ns = names_called(f)
                if ns & {"system", "std::system"}:
                    r.add("run")
                for x in fn_nodes(f):
                    q = norm_name(x.get("rq") or "") if x.get("k") == "ctor" else ""
                    if q.endswith("directory_iterator"):
                        r.add("gather")
                    if "regex_iterator" in q and any("map" in norm_name(y.get("n") or "") for y in fn_nodes(f) if y.get("k") == "call"):
                        if not any("stdout" in str(y.get("n")) for y in fn_nodes(f) if y.get("k") in ("var", "ld")) and "gather" in r:
                            pass
                    if q == "std::basic_ofstream" or (x.get("k") == "call" and norm_name(x.get("n") or "") == FS + "create_symlink"):
                        r.add("report")
            m[fid] = r - {"report"} or r        # writing files is part of the others, too
        return m[fid]

    def pure(self, f):
        r = super().pure(f)
        if r and f.get("rec") and not f.get("static"):
            return False
        if r:
            T = f["_types"]
            for q in f["params"]:
                t = T[q["t"]]
                while t.get("k") in ("ref", "rref", "ptr"):
                    t = T[t["to"]]
                if t.get("k") == "rec" and norm_name(t.get("q") or "") not in ("std::basic_string", "std::basic_string_view", PATHQ):
                    return False
        return r

    def is_hash(self, t):
        return t[0] == "call" and (t[1].startswith("fn:") and t[1] in self.hashfns() or t[1].startswith("std::") and "hash" in t[1])

    def hashfns(self):
        if "_hf" not in self.__dict__:
            self._hf = {"fn:" + f["q"] for f in script_fns(self.p) if any("hash" in n and n.startswith("std::") for n in names_called(f)) and self.pure(f)}
        return self._hf

    def readfns(self):
        if "_rf" not in self.__dict__:
            self._rf = set()
            for f in script_fns(self.p):
                names = set()
                for g in reach(self.p, f["id"]):
                    names |= names_called(self.p.functions[g])
                if self.pure(f) and names & {"fread", "fgets", "getline"} and len(f["params"]) == 1 and "popen" not in names:
                    self._rf.add("fn:" + f["q"])
        return self._rf

    def cmdfns(self):
        if "_cf" not in self.__dict__:
            self._cf = set()
            for f in script_fns(self.p):
                names = set()
                for g in reach(self.p, f["id"]):
                    names |= names_called(self.p.functions[g])
                if self.pure(f) and "popen" in names:
                    self._cf.add("fn:" + f["q"])
        return self._cf

    def readof(self, t):
        """path whose whole content t is, or None"""
        if isinstance(t, tuple) and t and t[0] == "call" and t[1] in self.readfns() and t[2]:
            v = t[2][-1]
            return v
        return None

    def reads(self, text):
        """paths of files whose whole content is part of text"""
        return [self.readof(strip(v)) for k, v in norm(pieces(text, {"k": "rec"})) if k == "s" and self.readof(strip(v)) is not None]

    def hash_of_content(self, path):
        def pred(t):
            return self.is_hash(t) and any(self.same_path(p_, path) for a in t[2] for p_ in self.reads(a))
        return pred

    @staticmethod
    def same_path(a, b):
        if a is None:
            return False
        return norm(pieces(a, {"k": "rec"})) == norm(pieces(b, {"k": "rec"}))

    def is_cmd(self, t):
        return isinstance(t, tuple) and bool(t) and t[0] == "call" and t[1] in self.cmdfns()

    @staticmethod
    def same_prefix(v, d):
        """v is (the beginning of) the location of results"""
        a, b = norm(pieces(v, {"k": "rec"})), norm(pieces(d, {"k": "rec"}))
        return len(a) > 2 and a[:3] == b[:3]

    # ------------------------------------------------------------ events
    KEYS = ("read", "look", "mapset", "mapput", "append", "hst", "printed", "emit", "in", "refresh")

    def add(self, st, key, *v):
        old = st.props.get(key, ())
        if v not in old[-30:] or key not in ("hst", "look", "in"):
            st.props[key] = old + (v,)

    def emit(self, st, stream, ps):
        if self.main is not None:
            return
        self.add(st, "emit", stream, tuple(ps))

    def special(self, eng, st, call, nm, cls, short):
        n = call.node
        f = self.p.functions.get(call.fid)
        if f is not None and f["file"] == UNIT and self.main is not None and not self.pure(f):
            mk = self.markers(f["id"])
            if len(mk) == 1:
                role = next(iter(mk))
                args = tuple(call.args)
                vals = tuple(self.val(eng, st, call, i) for i in range(len(call.args)))
                rv = eng.fresh(role + "-result", n, call.fr)
                if role == "report":
                    eng.nonneg.add(rv)
                rt = f["_types"][f["ret"]] if f.get("ret") is not None and f["ret"] >= 0 else {}
                self.roots.setdefault(role, f)
                if self.roots[role] is not f:
                    raise AnalysisError("several routines for role %s" % role)
                self.main.append((role, call, st.copy(), args, vals, rv))
                st.props["called"] = st.props.get("called", ()) + ((role, rv, vals),)
                eng.clobber_args(n, st, [a for i, a in enumerate(call.args) if f["_types"][f["params"][i]["t"]]["k"] in ("ptr", "ref")], call.fr)
                return [(st, rv)]
        if nm == FS + "last_write_time" and len(call.args) == 2 and self.main is not None:
            v = eng.fresh("mtime", n, call.fr)
            self.mtime[v] = norm(self.text(eng, st, call, 0))
            eng.clobber_args(n, st, call.args, call.fr)
            return [(st, v)]
        if nm == FS + "last_write_time" and len(call.args) == 1 and self.main is not None:
            v = eng.fresh("mtime", n, call.fr)
            self.mtime[v] = norm(self.text(eng, st, call, 0))
            return [(st, v)]
        if f is not None and "fn:" + f["q"] in self.readfns() and call.args:
            self.add(st, "read", self.val(eng, st, call, len(call.args) - 1), call.where())
        if nm in ("exit", "std::exit", "_exit", "abort"):
            self.r29.ob("setup-failure", "exit at setup", call.where(), nm == "abort" or eng.truth(st, eq0(call.args[0])) is False,
                        "the process reports success although the run could not be set up")
            return None
        if cls == "std::basic_regex" and n["k"] == "ctor" and call.args and not n.get("cm_ctor"):
            v = self.val(eng, st, call, 0)
            if call.obj is not None:
                self.rx[call.obj] = v
            if v[0] == "str" and (v[1], call.where()) not in self.regexes:
                self.regexes.append((v[1], call.where()))
            return None
        if cls in MAPS and call.obj is not None and n["k"] != "ctor":
            M = eng.load(st, call.obj)
            if short in ("operator[]", "at") and call.args:
                key = self.val(eng, st, call, 0)
                a = eng.fresh("slot", n, call.fr)
                self.slot[a] = (M, key)
                self.mapaddr[a] = call.obj
                self.add(st, "look", key, a, call.where())
                if not n.get("cm") and short == "operator[]":      # inserts if missing
                    nm_ = eng.fresh("map", n, call.fr)
                    eng.havoc_addr(st, call.obj, nm_)
                    eng.assume(st, eq0(size_of(eng.load(st, call.obj))), False)
                return [(st, a)]
            if short == "find" and call.args:
                key = self.val(eng, st, call, 0)
                it = ("call", "std::map::find", (M, key))
                self.slot[("deref", it)] = (M, key)
                self.mapaddr[("deref", it)] = call.obj
                self.add(st, "look", key, it, call.where())
                return [(st, it)]
            if short in ("insert", "emplace", "try_emplace", "insert_or_assign"):
                args = [self.val(eng, st, call, i) for i in range(len(call.args))]
                if len(args) == 1 and args[0][0] in ("ctor", "upd"):
                    args = list(args[0][2]) if args[0][0] == "ctor" else [x for _, x in args[0][2]]
                if len(args) == 2:
                    self.add(st, "mapput", args[0], args[1], short, call.where(), call.obj)
                    it = eng.fresh("slot", n, call.fr)
                    self.slot[("deref", it)] = (M, args[0])
                    self.mapaddr[("deref", it)] = call.obj
                    eng.havoc_addr(st, call.obj, eng.fresh("map", n, call.fr))
                    eng.assume(st, eq0(size_of(eng.load(st, call.obj))), False)
                    return [(st, ("ctor", "std::pair", (it, eng.fresh("inserted", n, call.fr))))]
                return None
        if cls in SEQ and short in ("emplace_back", "push_back", "emplace_front", "push_front", "push") and "pair<" in (n.get("n") or "") and "filesystem" in (n.get("n") or ""):
            v = tuple(self.val(eng, st, call, i) for i in range(len(call.args)))
            self.add(st, "append", call.obj, tuple(call.args), v, call.where())
            return None
        if cls in FILESTREAMS and (n["k"] == "ctor" or short == "open") and len(n.get("a") or ()) > 1 and self.main is None:
            names = {(x.get("n") or "").split("::")[-1] for x in walk(n["a"][1])}
            self.r29.ob("report-replaced", "report file", call.where(), "app" not in names, "the report is added to the one of an earlier run")
        if cls in SEQ and short in ("resize", "erase", "pop_back", "pop_front", "clear") and self.main is None and "pair<" in (n.get("n") or "") and "filesystem" not in (n.get("n") or ""):
            self.r29.ob("counts-printed", "list of counts", call.where(), False, "kinds of findings are taken off the list before it is printed")
        if nm == "fprintf" and call.args:
            s = n["a"][0]
            if "stdout" in repr(s.get("n", "")) + repr(s.get("e", {}).get("n", "") if isinstance(s.get("e"), dict) else ""):
                self.add(st, "printed", call.where())
            return None
        if nm == "printf":
            self.add(st, "printed", call.where())
            return None
        return None

    def on_store(self, eng, st, addr, val, node, fr):
        w = fr.where(node)
        base = addr
        while base[0] == "&f" and base not in self.slot:
            base = base[1]
        if base in self.slot or addr in self.slot:
            self.add(st, "mapset", base, self.slot[base][1], val, w)
        if addr[0] == "&f" and str(addr[2]).endswith("second") and base not in self.slot:
            self.add(st, "hst", addr[1], addr[2][:-6], eng.load(st, ("&f", addr[1], addr[2][:-6] + "first")), val)

    # ------------------------------------------------------------ loops
    def on_loop_entry(self, eng, entries, node, fr):
        lid = (node.get("_id"), fr.ctx)
        self.entries.setdefault(lid, [])
        self.entries[lid] += [s.copy() for s in entries]
        self.loopnode[lid] = (node, fr)
        for s in entries:
            self.add(s, "in", lid)

    def on_loop_back(self, eng, head, st, node, fr):
        lid = (node.get("_id"), fr.ctx)
        ev = {}
        for k in self.KEYS:
            h = head.props.get(k, ())
            v = st.props.get(k, ())
            if v[:len(h)] == h and len(v) > len(h):
                ev[k] = v[len(h):]
            if h:
                st.props[k] = h
            else:
                st.props.pop(k, None)
        its = [it for key, it, where in ev.get("look", ())]
        hot = its and any(occurs(v, it) for it in its for a, v in st.store.items() if a[0] != "&t" and head.store.get(a) != v and elem_of(v, it))
        ev["added"] = set(st.props.get("added", ())) - set(head.props.get("added", ()))
        st.props["added"] = tuple(sorted(set(head.props.get("added", ())) | ({lid} if hot else set()), key=repr))
        ev["turned"] = set(st.props.get("turned", ())) - set(head.props.get("turned", ()))
        st.props["ever"] = tuple(sorted(set(st.props.get("ever", ())) | {lid}, key=repr))
        st.props["turned"] = tuple(sorted(set(head.props.get("turned", ())) | {lid}, key=repr))
        self.backs.append((lid, node, fr, ev, st.copy(), head.copy(), eng))


def elem_of(v, it):
    return any(t[0] in ("ld", "fld") and occurs(t, it) for t in subterms(v))


def new_facts(st, head):
    for t, v in bfacts(st):
        f = t if t in st.facts else ("eq0", t)
        if f not in head.facts:
            yield t, v


def flag_off(st, field):
    for t, v in bfacts(st):
        if not v and t[0] in ("ld", "fld") and field in repr(t):
            return True
    return False


def strip(t):
    """drop conversions that keep the text of a path"""
    while True:
        if t[0] == "ctor" and t[1] in ("std::basic_string", "std::basic_string_view", PATHQ) and len(t[2]) >= 1:
            t = t[2][0]
        elif t[0] == "cat" and len(t[1]) == 1 and t[1][0][0] == "s":
            t = t[1][0][1]
        else:
            return t


def chain(t):
    """(functions applied, outermost first, to a path taken from elsewhere; that path)"""
    out = []
    t = strip(t)
    while t[0] == "call" and t[1].startswith(PATHQ + "::") and t[2]:
        short = t[1].rpartition("::")[2]
        if short not in ("lexically_normal", "string", "native", "generic_string"):
            out.append(short)
        t = strip(t[2][0])
    return tuple(out), t


def combines(val, old, new):
    """val contains old and new in a way that does not cancel out or overwrite"""
    d = lin.add(val, old, -1)
    if val[0] == "lin" and occurs(d, new) and not any(occurs(a, x) for x in [old] + [a for a, k in (old[2] if old[0] == "lin" else ())] for a, k in (d[2] if d[0] == "lin" else ((d, 1),))):
        return None        # old + something depending on new
    if not occurs(val, old):
        return "overwrites what was there"
    if not occurs(val, new):
        return "does not depend on the header"
    if val[0] == "op" and val[1] in ("^", "&", "|", "-", "/", "%", ">>"):
        a, b = val[2], val[3]
        if val[1] != "^" or (a == old and not occurs(b, old)) or (b == old and not occurs(a, old)):
            return "combined by %s, so equal contents cancel or are absorbed" % val[1]
    return None


def breaks(node):
    """statements leaving the loop early (not those of nested loops or lambdas)"""
    out = []
    def go(n, inner):
        if isinstance(n, list):
            for x in n:
                go(x, inner)
            return
        if not isinstance(n, dict):
            return
        k = n.get("k")
        if k == "lambda":
            return
        if k == "ret" or (k == "break" and not inner) or k == "goto":
            out.append(n)
        for key, x in n.items():
            if isinstance(x, (dict, list)):
                go(x, inner or k in ("for", "while", "do", "foreach", "switch"))
    go(node.get("b"), False)
    return out


def fn_param(fn):
    return ("param", fn["id"], fn["params"][0]["id"]) if fn["params"] else ("?",)


class Reader(ScriptRule):
    """a loop over fread reads until nothing is left and keeps everything read"""

    def __init__(self, p, rep):
        super().__init__(p)
        self.rep = rep

    def pure(self, f):
        return False

    def bad(self, where, d):
        self.rep.ob("whole-content", "reading", where, False, d)

    def special(self, eng, st, call, nm, cls, short):
        if nm == "fread":
            self.settle(eng, st, call.where())
            if "got" in st.props and eng.truth(st, eq0(st.props["got"][0])) is not True:
                self.rep.ob("whole-content", "reading", call.where(), True)
            r = eng.fresh("read", call.node, call.fr)
            eng.nonneg.add(r)
            sz = self.val(eng, st, call, 1)
            st.props["got"] = (r, call.args[0], sz)
            st.props["pend"] = True
            eng.havoc_addr(st, call.args[0], eng.fresh("buf", call.node, call.fr))
            return [(st, r)]
        if short in ("append", "assign", "insert", "operator+=", "push_back") and cls == "std::basic_string" and call.obj is not None and "got" in st.props:
            r, buf, sz = st.props["got"]
            n = call.node["a"]
            if short == "append" and len(call.args) == 2:
                ok = call.args[0] == buf and self.val(eng, st, call, 1) == r
                if sz != C1:
                    ok = False
                if ok:
                    st.props["pend"] = False
                else:
                    self.bad(call.where(), "not exactly what was read is kept")
            elif short == "append" and len(call.args) == 1 or short == "operator+=":
                v = self.val(eng, st, call, 0)
                if v[0] in ("ctor",) and v[1] == "std::basic_string_view" and len(v[2]) == 2 and v[2][1] == r or v[0] == "sv" and r in v:
                    st.props["pend"] = False
                else:
                    self.bad(call.where(), "not exactly what was read is kept")
            return None
        if nm == "feof":
            v = eng.fresh("feof", call.node, call.fr)
            st.props["eof"] = v
            return [(st, v)]
        return None

    def settle(self, eng, st, where):
        if st.props.get("pend") and eng.truth(st, eq0(st.props["got"][0])) is not True:
            self.bad(where, "what was read is dropped")

    def on_loop_back(self, eng, head, st, node, fr):
        self.settle(eng, st, fr.where(node))
        st.props["pend"] = False

    def on_loop_entry(self, eng, entries, node, fr):
        for s in entries:
            s.props.setdefault("pend", False)

    def done(self, eng, st, fn):
        if "got" not in st.props:
            return
        where = "%s:%s" % (fn["file"], fn["line"])
        self.settle(eng, st, where)
        r = st.props["got"][0]
        eof = st.props.get("eof")
        ok = eng.truth(st, eq0(r)) is True or (eof is not None and eng.truth(st, eq0(eof)) is False)
        self.rep.ob("whole-content", "reading: " + fn["name"], where, ok, "reading may stop before the end of the file")


def bool_const(eng, st, x, z, k):
    """the number x is, given that z is k"""
    if x[0] == "c":
        return x[1]
    if x[0] in ("not", "eq0", "ge0", "eq"):
        t = eng.truth(st, x)
        if t is not None:
            return int(t)
    s = simp(x)
    return s[1] if s[0] == "c" else None


class Checks:
    def __init__(self, flow):
        self.f = flow
        self.hkeys = set()

    # -- which loop is which
    def classify(self):
        f = self.f
        self.header, self.include, self.files, self.report = set(), set(), set(), set()
        for lid, node, fr, ev, st, head, eng in f.backs:
            for e in ev.get("mapset", ()) + tuple((None, x[0], x[1], x[3]) for x in ev.get("mapput", ())):
                if any(f.is_hash(t) for t in subterms(e[2])):
                    self.header.add(lid)
        for lid, node, fr, ev, st, head, eng in f.backs:
            if ev.get("look") and not ev.get("mapset") and lid not in self.header:
                self.include.add(lid)
        for lid, node, fr, ev, st, head, eng in f.backs:
            if ev.get("hst") and lid not in self.header | self.include:
                self.files.add(lid)

    # -- header hashes
    def headers(self):
        f, r = self.f, self.f.r18
        for lid, node, fr, ev, st, head, eng in f.backs:
            if lid not in self.header:
                continue
            w = fr.where(node)
            puts = []
            for base, key, val, where in ev.get("mapset", ()):
                puts.append((key, val, where, base, "set"))
            for key, val, how, where, obj in ev.get("mapput", ()):
                puts.append((key, val, where, None, how))
            puts = [x for x in puts if any(f.is_hash(t) for t in subterms(x[1]))]
            if not puts:
                r.ob("header-recorded", "header loop", w, self.exempt_header(st, head), "a header's content does not become part of the recorded header hashes on a path (%s)" % self.facts(st, head))
                continue
            for key, val, where, base, how in puts:
                paths = [x for t in subterms(val) if f.is_hash(t) for a in t[2] for x in f.reads(a)]
                fns, kp = chain(key)
                self.hkeys.add(fns)
                r.ob("header-recorded", "name", where, bool(fns) and fns[0] in ("filename", "stem"), "a header included by another path than it is recorded under is not found")
                ok = any(chain(x)[1] == kp and not chain(x)[0] for x in paths)
                r.ob("header-recorded", "header loop", where, ok, "the recorded hash is not that of the content of the file it is recorded for")
                absent = self.absent(st, key)
                if how == "set":
                    olds = [t for t in subterms(val) if t[0] in ("ld", "fld") and (base is not None and occurs(t, base))]
                    why = combines(val, olds[0], next(t for t in subterms(val) if f.is_hash(t))) if olds else "overwrites what was there"
                    r.ob("headers-accumulate", "header loop", where, why is None or absent, "headers of the same name: " + str(why))
                else:
                    both = any(x[4] == "set" for x in puts)
                    r.ob("headers-accumulate", "header loop", where, absent or both, "headers of the same name: only one of them is recorded")
            for bn in breaks(node):
                r.ob("header-recorded", "header loop", fr.where(bn), False, "the loop over headers may end early")

    def absent(self, st, key):
        for t, v in bfacts(st):
            if t[0] == "eq" and v:
                for x in t[1:]:
                    if x[0] == "call" and x[1] == "std::map::find" and x[2][1] == key:
                        return True
            if t[0] == "call" and t[1].endswith(("::count", "::contains")) and not v and occurs(t, key):
                return True
        return False

    def facts(self, st, head):
        return "; ".join(("" if v else "not ") + show(t)[:80] for t, v in new_facts(st, head))[:300]

    def exempt_header(self, st, head):
        return self.exempt_file(st, head, True)

    def exempt_file(self, st, head, header):
        f = self.f
        if header and flag_off(st, "revisit_if_any_include_changes"):
            return True
        for t, v in new_facts(st, head):
            if t[0] == "call":
                s = t[1].rpartition("::")[2]
                if t[1].startswith(FS) and ((s in ("is_regular_file", "exists") and not v) or (s == "is_directory" and v)):
                    return True
                pat = repr(t) + "".join(repr(pv) for a, pv in f.rx.items() if occurs(t, a))
                if s == "regex_search" and (("file_include_re" in pat and not v) or ("file_exclude_re" in pat and v)):
                    return True
                if t[1].startswith("fn:") and not v and any(x[0] == "call" and x[1] == PATHQ + "::extension" for x in subterms(t)):
                    want = HEADER_EXT if header else HEADER_EXT | SRC_EXT
                    got = self.literals(t[1][3:])
                    if want <= got:
                        return True
            if t[0] == "eq":
                pass
        if header:
            # spelled out: not one of the header extensions
            ne = set()
            for t, v in bfacts(st):
                if t[0] == "eq" and not v and any(x[0] == "str" for x in t[1:]):
                    ne |= {x[1] for x in t[1:] if x[0] == "str"}
            if HEADER_EXT <= ne:
                return True
        return False

    def literals(self, q):
        """strings a predicate function compares with; none if one of its loops over them may end early without a match"""
        out = set()
        for fn in script_fns(self.f.p):
            if fn["q"] != q:
                continue
            for g in reach(self.f.p, fn["id"]):
                h = self.f.p.functions[g]
                for x in fn_nodes(h):
                    if x.get("k") == "str":
                        out.add(x["v"])
                    if x.get("k") in ("for", "foreach", "while", "do"):
                        for bn in breaks(x):
                            v = bn.get("e") or bn.get("v")
                            if bn.get("k") != "ret" or not any(y.get("k") in ("bool", "int") and y.get("v") for y in walk(bn)):
                                return set()
                    if x.get("k") == "var" and x.get("g"):
                        gv = self.f.p.globals.get(x.get("id")) if hasattr(self.f.p, "globals") else None
                        if gv and gv.get("init"):
                            out |= {y["v"] for y in walk(gv["init"]) if y.get("k") == "str"}
        return out

    # -- hash of each file
    def includes(self):
        f, r = self.f, self.f.r18
        self.acc = {}
        self.found = set()
        self.good = {}
        for lid, node, fr, ev, st, head, eng in f.backs:
            if lid not in self.include:
                continue
            w = fr.where(node)
            self.good.setdefault(lid, True)
            looks = ev.get("look", ())
            if not looks:
                r.ob("include-considered", "include loop", w, False, "an include is not looked up among the headers on a path (%s)" % self.facts(st, head))
                continue
            for key, it, where in looks:
                fns, base = chain(key)
                r.ob("include-key", "include loop", where, fns in self.hkeys, "headers are recorded under %s of their path, but looked up under %s" % ("/".join(sum(map(list, self.hkeys), [])) or "-", "/".join(fns) or "the whole path"))
                caps = [x for x in subterms(base) if x[0] == "call" and "operator[]" in x[1]]
                r.ob("include-key", "captured name", where, any(C1 in x[2] for x in caps), "the name looked up is not the quoted file name of the include")
            found = False
            whys = {}
            for a, v in st.store.items():
                h = eng.load(head.copy(), a)
                if v == h or a[0] == "&t":
                    continue
                for key, it, where in looks:
                    elems = [t for t in subterms(v) if t[0] in ("ld", "fld") and occurs(t, it)]
                    if elems:
                        why = combines(v, h, elems[0]) if h != C0 else None
                        self.found.add(it)
                        whys.setdefault(where, []).append(why)
                        found = True
                        if why is None:
                            self.acc.setdefault(lid, set()).add(a)
            for where, ws in whys.items():
                r.ob("include-accumulates", "include loop", where, None in ws, "hash of an included header: %s" % ws[0])
            if not found:
                ok = all(self.absent(st, key) for key, it, where in looks)
                r.ob("include-considered", "include loop", w, ok, "the content of a known included header does not influence the hash on a path (%s)" % self.facts(st, head))
            for bn in breaks(node):
                r.ob("include-considered", "include loop", fr.where(bn), False, "the loop over includes may end early")

    def whole_regex(self, lid, text, where, rep, key, rule):
        """the loop iterates over all matches in the whole text"""
        ok = False
        for s in self.f.entries.get(lid, ()):
            for v in s.store.values():
                if v[0] == "ctor" and v[1] == "std::regex_iterator" and len(v[2]) >= 3:
                    b, e = v[2][0], v[2][1]
                    d = ("data", text)
                    if b == d and lin.add(e, lin.add(d, size_of(text)), -1) == C0:
                        ok = True
                    elif b == ("call", "std::begin", (text,)) and e == ("call", "std::end", (text,)):
                        ok = True
        rep.ob(rule, key, where, ok, "the search does not go over the whole text")

    def filehash(self):
        f, r = self.f, self.f.r18
        self.locs = []
        for lid, node, fr, ev, st, head, eng in f.backs:
            if lid not in self.files:
                continue
            w = fr.where(node)
            xs = ev.get("hst", ())
            if not xs:
                r.ob("content-hashed", "file loop", w, False, "a file's hash is not computed on a path (%s)" % self.facts(st, head))
                continue
            X, F, path, H = xs[-1]
            F1, F2 = F + "first", F + "second"
            path, H = eng.load(st, ("&f", X, F1)), eng.load(st, ("&f", X, F2))
            r.ob("content-hashed", "file loop", w, eng.must(H, f.hash_of_content(path)), "the hash of a file does not depend on its content: %s" % show(H)[:200])
            if not flag_off(st, "revisit_if_any_include_changes"):
                inc = [l for l, in ev.get("in", ()) if l in self.include]
                r.ob("includes-hashed", "file loop", w, bool(inc), "includes of a file are not considered on a path (%s)" % self.facts(st, head))
                for l in inc:
                    text = next((t for t in self.contents(eng, l) if f.same_path(f.readof(t), path)), None)
                    self.whole_regex(l, text if text is not None else ("?",), w, r, "file loop", "includes-hashed")
                    if l in ev["added"]:
                        ok = any((x[0] == "phi" and x[2] in self.acc.get(l, ())) or x in self.found for x in subterms(H))
                        r.ob("includes-hashed", "file loop", w, ok, "what the include loop computed does not become part of the hash")
            for bn in breaks(node):
                r.ob("content-hashed", "file loop", fr.where(bn), False, "the loop over files may end early")
            # refresh
            app = [e for e in ev.get("append", ())]
            here = False
            for obj, args, vals, where in app:
                here = True
                ok = False
                if args == (X,):
                    ok = True
                elif len(vals) == 1 and fld(vals[0], F1) == path and fld(vals[0], F2) == H:
                    ok = True
                elif len(vals) == 2 and f.same_path(vals[0], path) and vals[1] == H:
                    ok = True
                r.ob("refresh-item", "file loop", where, ok, "the queued work item is not the file with its final hash")
            loc = None
            for t, v in bfacts(st):
                if t[0] == "call" and t[1].startswith(FS) and t[1].endswith("::exists") and occurs(t, H):
                    loc = t[2][0]
                    if v is False and not here:
                        r.ob("missing-refreshed", "file loop", w, False, "a file without a cached result is not processed")
            if loc is None:
                if not here:
                    r.ob("missing-refreshed", "file loop", w, False, "whether there is a cached result for the final hash was not looked at, yet the file is not processed")
                continue
            self.locs.append((loc, path, H))
            self.location(loc, path, H, w)
            r.ob("missing-refreshed", "file loop", w, True)
            if not here:
                ok, why = self.fresh(eng, st, loc)
                r.ob("stale-refreshed", "file loop", w, ok, "a result with findings is not processed again although " + why)

    def contents(self, eng, l):
        out = []
        for s in self.f.entries.get(l, ()):
            for v in s.store.values():
                for t in subterms(v):
                    if self.f.readof(t) is not None and t not in out:
                        out.append(t)
        return out

    def location(self, loc, path, H, w):
        r, f = self.f.r18, self.f
        ps = norm(pieces(loc, {"k": "rec"}))
        hx = [x[1] for x in ps if x[0] == "s" and x[1][0] == "call" and x[1][1].startswith("fn:") and H in x[1][2]] + \
             [x[1] for x in ps if x[0] == "n" and x[1] == H]
        r.ob("location-by-hash", "location", w, bool(hx), "the location of a result does not depend on the hash: %s" % shows(ps)[:200])
        for h in hx:
            for a in (h[2] if h[0] == "call" else ()):
                if a != H and a[0] == "c":
                    r.ob("location-by-hash", "digits", w, a[1] >= 16, "only %s digits of the hash become part of the location" % a[1])
        r.ob("location-by-name", "location", w, any(occurs(x[1], path) for x in ps if x[0] == "s"), "the location does not depend on the file name")

    def fresh(self, eng, st, loc):
        if flag_off(st, "revisit_brokenfiles_if_build_config_newer"):
            return True, ""
        size = ("call", FS + "file_size", (loc,))
        if eng.truth(st, eq0(size)) is True:
            return True, ""
        for t, v in bfacts(st):
            if t[0] == "call" and t[1].endswith("::is_empty") and v and occurs(t, loc):
                return True, ""
            if t[0] == "call" and "operator" in t[1] and any(x[0] == "call" and x[1] == FS + "last_write_time" and x[2][0] == loc for x in subterms(t)):
                op = t[1].rpartition("operator")[2]
                if len(t[2]) != 2:
                    continue
                a, b = t[2]
                left = occurs(a, loc)
                other = b if left else a
                if other[0] not in ("param", "ld", "fld", "call") :
                    continue
                self.minterm = other
                if not left:
                    op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
                # time(loc) op min  is v
                if (op == "<" and not v) or (op == "<=" and not v) or (op == ">=" and v) or (op == ">" and v):
                    return True, ""
        return False, "it may be older than the build environment (%s)" % "; ".join(("" if v else "not ") + show(t)[:60] for t, v in bfacts(st) if occurs(t, loc))[:250]

    # -- C29
    def fn_of(self, fr):
        while fr.parent is not None:
            fr = fr.parent
        return fr.fn["id"]

    def listing(self):
        """every file found is one of the files reported on"""
        f, r = self.f, self.f.r29
        root = f.roots["gather"]
        self.conts = set()
        n = 0
        for lid, node, fr, ev, st, head, eng in f.backs:
            for obj, args, vals, where in ev.get("append", ()):
                if lid in self.files or self.fn_of(fr) != root["id"]:
                    continue
                self.conts.add(obj)
        loops = {lid for lid, node, fr, ev, st, head, eng in f.backs if any(a[0] in self.conts for a in ev.get("append", ())) and lid not in self.files}
        for lid, node, fr, ev, st, head, eng in f.backs:
            if lid not in loops:
                continue
            n += 1
            app = [a for a in ev.get("append", ()) if a[0] in self.conts]
            w = fr.where(node)
            r.ob("file-listed", "search loop", w, bool(app) or self.exempt_file(st, head, False), "a source file found is left out of the report on a path (%s)" % self.facts(st, head))
            for bn in breaks(node):
                r.ob("file-listed", "search loop", fr.where(bn), False, "the search may end early")
        for fid in reach(f.p, root["id"]):
            fn = f.p.functions[fid]
            for x in fn_nodes(fn):
                q = norm_name(x.get("rq") or "") if x.get("k") == "ctor" else ""
                if q.endswith("directory_iterator") and x.get("a"):
                    r.ob("all-directories", "search", "%s:%s" % (fn["file"], x.get("l", fn["line"])), "recursive" in q, "files in subdirectories are not found")

    def report_file(self):
        f, r = self.f, self.f.r29
        root = f.roots["report"]
        eng, res = f.results["report"]
        mine = [b for b in f.backs if self.fn_of(b[2]) == root["id"]]
        count, files = set(), set()
        self.counted = set()
        for lid, node, fr, ev, st, head, e in mine:
            if ev.get("mapset") or ev.get("mapput"):
                count.add(lid)
            if ev.get("read"):
                files.add(lid)
        shp = {shape(norm(pieces(self.mark(l, p, h), {"k": "rec"}))) for l, p, h in self.locs}
        prints = {b[0] for b in mine if b[3].get("printed")} - count - files
        for lid, node, fr, ev, st, head, e in mine:
            if lid in prints:
                r.ob("counts-printed", "print loop", fr.where(node), bool(ev.get("printed")), "the number of a kind of finding is not printed on a path (%s)" % self.facts(st, head))
                for bn in breaks(node):
                    r.ob("counts-printed", "print loop", fr.where(bn), False, "printing the counts may end early")
        for lid, node, fr, ev, st, head, e in mine:
            w = fr.where(node)
            if lid in count:
                sets = ev.get("mapset", ())
                ok = len(sets) >= 1
                r.ob("finding-counted", "count loop", w, ok or bool(ev.get("mapput")), "a finding is not counted on a path (%s)" % self.facts(st, head))
                for base, key, val, where in sets:
                    one = any(lin.add(val, t, -1) == C1 for t in subterms(val) if t[0] in ("ld", "fld") and occurs(t, base))
                    caps = [x for x in subterms(key) if x[0] == "call" and ("operator[]" in x[1] or x[1].endswith("::str"))]
                    r.ob("finding-counted", "count", where, one, "a finding is not counted as one more: %s" % show(val)[:120])
                    r.ob("finding-counted", "name", where, bool(caps), "what is counted is not the name of the check matched")
                for bn in breaks(node):
                    r.ob("finding-counted", "count loop", fr.where(bn), False, "counting may end early")
            elif lid in files:
                for bn in breaks(node):
                    r.ob("result-reported", "report loop", fr.where(bn), False, "the report may end early")
                reads = ev.get("read", ())
                gone = any(t[0] == "call" and t[1] == FS + "exists" and not v for t, v in new_facts(st, head))
                if not reads:
                    r.ob("result-reported", "report loop", w, gone, "the stored result of a file is not looked at on a path (%s)" % self.facts(st, head))
                    continue
                path, where = reads[-1]
                ps = norm(pieces(path, {"k": "rec"}))
                if self.locs:
                    r.ob("report-location", "report loop", where, shape(ps) in shp, "results are read from %s, but kept elsewhere" % shows(ps)[:160])
                if self.conts:
                    r.ob("all-files", "report loop", where, any(self.of(e, path, a) for a in self.conts), "the results read are not those of all files found")
                empty = gone or any(v and f.readof(x) == path for t, v in bfacts(st) if t[0] in ("eq0", "call") and (t[0] == "eq0" or t[1].endswith("::empty"))
                                    for x in subterms(t))
                if empty:
                    continue
                out = any(x[0] == "s" and f.readof(x[1]) == path for s_, pp in ev.get("emit", ()) for x in pp)
                r.ob("result-reported", "report loop", w, out, "the findings of a file are not written to the report on a path (%s)" % self.facts(st, head))
                ins = [l for l, in ev.get("in", ()) if l in count]
                r.ob("result-counted", "report loop", w, bool(ins), "the findings of a file are not counted on a path (%s)" % self.facts(st, head))
                for l in ins:
                    t = next((t for t in self.contents(e, l) if f.readof(t) == path), ("?",))
                    self.whole_regex(l, t, w, r, "report loop", "result-counted")
        self.samples(count, CHECKS, r, "finding-recognised", lambda c_: ["warning: x [%s]\n" % c_, "foo.cc:1:2: error: y [z] [%s]\n note" % c_])
        # number of findings returned
        where = "%s:%s" % (root["file"], root["line"])
        T = root["_types"]
        bits = T[root["ret"]].get("bits", 0)
        r.ob("number-returned", root["name"], where, bits >= 31, "the number of findings does not fit the type of the result")
        maps = set(f.mapaddr.values())
        for s, v in res:
            if v is None:
                continue
            v = simp(v)
            turned = bool(count & set(s.props.get("ever", ())))
            if v[0] == "c":
                r.ob("number-returned", "return", where, v[1] == 0 if not turned else v[1] > 0, "the result is %d with %s" % (v[1], "findings" if turned else "no findings"))
                continue
            zs = [x for x in subterms(v) if x[0] == "size"]
            if not zs and v[0] == "phi":
                addr = v[2]
                for lid, node, fr, ev, st, head, e in mine:
                    if lid in count:
                        d = lin.add(e.load(st, addr), e.load(head, addr), -1)
                        r.ob("number-returned", "sum", fr.where(node), d[0] == "c" and d[1] >= 1, "a finding does not add to the result")
                continue
            if len(zs) != 1:
                r.notes.append("result %s not understood" % show(v)[:100])
                continue
            z = zs[0]
            for k, pos in ((0, False), (1, True), (256, True)):
                if not possible(s, z, k):
                    continue
                x = bool_const(eng, s, subst(v, {z: c(k)}, {}), z, k)
                r.ob("number-returned", "return", where, x is not None and (x != 0) == pos, "with %s finding(s) counted the result is %s" % (k, show(v)[:100]))

    def of(self, eng, t, a):
        return occurs(t, a) or eng.must(t, lambda x: x == a or (a[0] == "&f" and x[0] == "&f" and x[2] == a[2]))

    def samples(self, loops, samples, rep, rule, texts):
        for lid in loops:
            for s in self.f.entries.get(lid, ()):
                for v in s.store.values():
                    if v[0] == "ctor" and v[1] == "std::regex_iterator" and len(v[2]) >= 3:
                        rx = next((x[1] for x in subterms(v[2][2]) if x[0] == "str"), None)
                        cre = py_re(rx) if rx is not None else None
                        if cre is None:
                            rep.notes.append("%s: pattern not a literal, samples not matched" % rule)
                            continue
                        w = self.f.loopnode[lid][1].where(self.f.loopnode[lid][0])
                        for smp in samples:
                            for txt in texts(smp):
                                m = list(cre.finditer(txt))
                                ok = len(m) == 1 and cre.groups >= 1 and smp.strip('#" ') in (m[0].group(1) or "") or (len(m) == 1 and rule == "include-recognised" and m[0].group(1) == re.search('"(.*)"', smp).group(1))
                                rep.ob(rule, "pattern", w, ok, "pattern does not recognise %r" % txt)

    def exit_status(self):
        f, r = self.f, self.f.r29
        main = [x for x in script_fns(f.p) if x["name"] == "main"][0]
        where = "%s:%s" % (main["file"], main["line"])
        for s, v in f.main_res:
            called = s.props.get("called", ())
            roles = [x[0] for x in called]
            if "report" not in roles:
                r.ob("setup-failure", "main", where, v is not None and v[0] == "c" and v[1] & 255, "main returns success although nothing was checked")
                continue
            r.ob("order", "main", where, roles == ["gather", "run", "report"], "the steps are done in the order %s" % " ".join(roles))
            rv = next(x[1] for x in called if x[0] == "report")
            for k in (0, 1, 2, 256):
                if not possible(s, rv, k):
                    continue
                x = v if v is None else bool_const(f.engine, s, subst(v, {rv: c(k)}, {}), rv, k)
                ok = x is not None and ((x & 255) != 0) == (k != 0)
                r.ob("exit-status", "main", where, ok, "with %d kinds of findings the process exits with %s" % (k, x if x is not None else show(v)[:80]))
        gathers = {e[5] for e in f.events if e[0] == "gather"}
        for role, call, st, args, vals, rv in f.events:
            if role == "run":
                ok = any(x in gathers for a in args for x in (a, f.engine.load(st, a)) if isinstance(a, tuple)) or any(v in gathers for v in vals)
                r.ob("work-passed-on", "main", call.where(), ok, "the list of files to process is not passed on as gathered")

    # -- what a result depends on besides the file
    def config(self, worker):
        f, r = self.f, self.f.r18
        root = f.roots.get("gather")
        wroot = f.roots.get("run")
        if not self.locs or root is None or wroot is None or not worker.cmds:
            return
        loc, path, H = self.locs[0]
        place = subst(subst(loc, {H: ("hash*",)}, {}), {path: ("path*",)}, {})
        gathers = [e for e in f.events if e[0] == "gather"]
        runs = [e for e in f.events if e[0] == "run"]
        for role, call, st, args, vals, rv in runs:
            env = callee_env(call, wroot, args, vals)
            g = next((e for e in gathers if e[5] in [x[1] for x in st.props.get("called", ())]), None)
            if g is None:
                continue
            d = resolve(f.engine, st, place, callee_env(g[1], root, g[3], g[4]))
            hashed = [x for t in subterms(d) if f.is_hash(t) for x in t[2]]
            digits = [t for t in subterms(d) if t[0] == "call" and t[1].startswith("fn:") and t not in hashed and not f.is_hash(t)
                      and any(f.is_hash(x) for y in t[2] for x in subterms(y))]
            for t in digits:
                for n in t[2]:
                    if n[0] == "c":
                        r.ob("config-digits", "cache directory", call.where(), n[1] >= 8, "only %s digits of the configuration hash become part of the location" % n[1])
            inlets = set(hashed)
            for h in hashed:
                for k, v in norm(pieces(h, {"k": "rec"})):
                    inlets.add(v)
            for ps, c in worker.cmds:
                for k, v in ps:
                    if k == "t" or any(x[0] == "param" and x not in env for x in subterms(v)) or occurs(v, ("hash*",)) or "'item'" in repr(v):
                        continue
                    if v[0] == "call" and len(v[2]) == 1:      # quoting
                        v = v[2][0]
                    cv = resolve(f.engine, st, v, env)
                    if f.same_prefix(cv, d):
                        continue
                    for k2, v2 in norm(pieces(cv, {"k": "rec"})):
                        if k2 == "t":
                            continue
                        ok = v2 in inlets or any(f.is_cmd(x) and occurs(x, v2) for x in inlets)
                        r.ob("command-in-key", "command: %s" % show(v)[-40:], call.where(), ok, "the tool is run with %s, which does not influence where results are kept" % show(v2)[:120])
            vers = [x for x in inlets if f.is_cmd(x)]
            r.ob("version-in-key", "cache directory", call.where(), bool(vers), "the tool's version output does not influence where results are kept")
            cfgs = [x for x in inlets if f.readof(x) is not None]
            r.ob("configuration-in-key", "cache directory", call.where(), bool(cfgs), "the content of the configuration file does not influence where results are kept")
        for role, call, st, args, vals, rv in gathers:
            env = callee_env(call, root, args, vals)
            m = getattr(self, "minterm", None)
            if m is None:
                continue
            v = resolve(f.engine, st, m, env)
            need = self.times(v)
            for t, tr in bfacts(st):      # other times known not to be later
                if t[0] == "call" and "operator" in t[1] and len(t[2]) == 2:
                    a, b = t[2]
                    op = t[1].rpartition("operator")[2]
                    small = None
                    if op in ("<", "<="):
                        small, big = (a, b) if tr else (b, a)
                    elif op in (">", ">="):
                        small, big = (b, a) if tr else (a, b)
                    if small is not None and big == v:
                        need |= self.times(small)
            txt = [repr(f.mtime[x]) for x in need if x in f.mtime]
            r.ob("freshness-limit", "build file", call.where(), any("toplevel_build_file" in x for x in txt), "results older than the toplevel build file are not processed again")
            r.ob("freshness-limit", "compilation database", call.where(), any("compile_" in x for x in txt), "results older than the compilation database are not processed again")
        shp = {shape(norm(pieces(x, {"k": "rec"}))) for x, w in [(self.mark(l, p, h), 0) for l, p, h in self.locs]}
        for ps, c in worker.dsts:
            sh = shape(self.markitem(ps))
            r.ob("same-location", "publish", c.where(), sh in shp, "results are written to %s, but looked for elsewhere" % shows(ps)[:200])

    # -- helpers the keys rely on
    def helpers(self, rep, hashes=True):
        f, p = self.f, self.f.p
        for fn in script_fns(p):
            T = fn["_types"]
            if "fn:" + fn["q"] in f.hashfns() and hashes:
                rule = ScriptRule(p)
                e = Engine(p, rule)
                for s, v in e.run(fn):
                    ok = v is not None and any(f.is_hash(t) and not t[1].startswith("fn:") and
                                               any(len(norm(pieces(a, {"k": "rec"}))) == 1 and strip(a)[0] in ("ld", "param") and occurs(a, fn_param(fn)) for a in t[2])
                                               for t in subterms(v))
                    narrow = v is not None and any(t[0] == "op" and t[1] in ("&", "%", ">>", "/") for t in subterms(v))
                    bits = T[fn["ret"]].get("bits", 64)
                    rep.ob("whole-hash", fn["name"], "%s:%s" % (fn["file"], fn["line"]), ok and not narrow and bits >= 64, "the hash is not the full hash of the whole text: %s" % (show(v)[:120] if v is not None else "none"))
                rep.eng(e)
            if names_called(fn) & {"fread"}:
                rule = Reader(p, rep)
                e = Engine(p, rule)
                res = e.run(fn)
                for s, v in res:
                    rule.done(e, s, fn)
                rep.eng(e)
            if hashes and any(x.get("k") == "call" and norm_name(x.get("n") or "") in ("snprintf", "sprintf") for x in fn_nodes(fn)) and norm_name(T[fn["ret"]].get("q") or "") == "std::basic_string":
                for x in fn_nodes(fn):
                    if x.get("k") == "call" and norm_name(x.get("n") or "") in ("snprintf", "sprintf"):
                        k = 2 if "sn" in norm_name(x["n"]) else 1
                        fmt = [y["v"] for y in walk(x["a"][k]) if y.get("k") == "str"]
                        val = x["a"][k + 1] if len(x["a"]) > k + 1 else None
                        if not fmt or val is None or not re.search("[xX]", fmt[0]):
                            continue
                        narrow = [y for y in walk(val) if y.get("k") == "cast" and T[y["t"]].get("k") == "int" and T[y["t"]].get("bits", 64) < 64] + \
                                 [y for y in walk(val) if y.get("k") == "bin" and y.get("op") in ("&", ">>", "%", "/", "|")]
                        ok = re.fullmatch(r"%0?1?6?(l|ll|j|z)[xX]", fmt[0]) and not narrow
                        rep.ob("whole-hash", "digits: " + fn["name"], "%s:%s" % (fn["file"], x.get("l", fn["line"])), bool(ok), "not all bits of the hash are printed (%s)" % fmt[0])

    def times(self, v):
        if v[0] == "call" and v[1] == "std::max":
            return set().union(*(self.times(x) for x in v[2]))
        if v[0] == "sym":
            return {v}
        return set()

    @staticmethod
    def mark(loc, path, H):
        return subst(subst(loc, {H: ("sym", "hash")}, {}), {path: ("sym", "path")}, {})

    @staticmethod
    def markitem(ps):
        return ps


def resolve(eng, st, t, env):
    """value in the caller's state of a term over the callee's parameters and object"""
    memo = {}

    def go(x):
        if not isinstance(x, tuple):
            return x
        if x in memo:
            return memo[x]
        if x and x[0] in env and x[0] == "this":
            r = env["this"]
        elif x in env:
            r = env[x]
        elif len(x) >= 2 and x[0] == "ld":
            a = go(x[1])
            r = eng.load(st, a)
        elif len(x) == 3 and x[0] == "fld":
            r = fld(go(x[1]), x[2])
        else:
            r = tuple(go(y) for y in x)
        memo[x] = r
        return r
    return go(t)


def callee_env(call, f, args, vals):
    env = {"this": call.obj}
    T = f["_types"]
    for i, (q, a, v) in enumerate(zip(f["params"], args, vals)):
        env[("param", f["id"], q["id"])] = a if T[q["t"]]["k"] in ("ref", "rref", "ptr") else v
    return env


def skeleton(t):
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "call":
        return (t[1],) + tuple(skeleton(x) for x in t[2])
    if t[0] == "c":
        return t
    if t[0] == "ctor" and len(t[2]) == 1:
        return skeleton(t[2][0])
    return "*"


def shape(ps):
    return tuple((k, v if k == "t" else skeleton(v)) for k, v in ps)


def run_flow(p, r18, r29):
    fns = script_fns(p)
    mains = [f for f in fns if f["name"] == "main"]
    if len(mains) != 1:
        raise AnalysisError("main of the script not found")
    flow = Flow(p, r18, r29)
    flow.main = []
    e = Engine(p, flow, K=4000)
    flow.engine = e
    flow.main_res = e.run(mains[0])
    events, flow.main = flow.main, None
    flow.events = events
    flow.results = {}
    for role in ("gather", "report"):
        if role in flow.roots:
            e2 = Engine(p, flow)
            flow.results[role] = (e2, e2.run(flow.roots[role]))
            for rep in (r18, r29):
                rep.eng(e2)
    for rep in (r18, r29):
        rep.eng(e)
    return flow


def analyse_keys(p, r18, r29):
    flow = run_flow(p, r18, r29)
    miss = {"gather", "run", "report"} - set(flow.roots)
    if miss:
        raise AnalysisError("routine with role %s not identified" % "/".join(sorted(miss)))
    ck = Checks(flow)
    ck.classify()
    ck.headers()
    ck.includes()
    ck.filehash()
    ck.samples(ck.include, INCLUDES, r18, "include-recognised", lambda x: [x + "\n"])
    ck.config(analyse(p, Report("-"), Report("-"), r18))
    ck.helpers(r18)
    ck.listing()
    ck.report_file()
    ck.exit_status()
    ck.helpers(r29, False)
