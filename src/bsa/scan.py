"""The tokeniser: where it reads, and which newlines it has recorded (C06, C07).

Positions are symbolic; BEG and END are the bounds of the content.  For C07 a
ghost position, the frontier, says how far every newline is recorded.  It moves
over a byte once that byte is known not to be a newline, or when the position
behind a known newline is recorded.
"""
from . import lin
from .engine import NPOS, Engine, Rule, St, c, C0, C1, show, eq0, ge0, fld, size_of, data_of, subst, neg
from .prog import AnalysisError, norm_name, fn_nodes, walk

NOTNL = {"isalpha", "isalnum", "isdigit", "isxdigit", "isgraph", "ispunct", "isupper", "islower", "isblank"}   # true: not a newline
NLIN = {"isspace", "iscntrl"}                                                                               # false: not a newline


def short(n): return (n or "").rpartition("::")[2].replace("ascii_", "")


def unwrap(t):
    while t[0] in ("trunc", "fcast") : t = t[2]
    return t


def not_newline(eng, st, v):
    """the byte v is known to be something else than a newline"""
    if eng.truth(st, eq0(lin.add(v, c(-10)))) is False: return True
    for f, tv in st.facts.items():
        g, val = f, tv
        if g[0] == "eq0" and g[1][0] == "call": g, val = g[1], not tv
        if g[0] == "call" and len(g) > 2 and g[2] and unwrap(g[2][0]) == v:
            n = short(g[1])
            if (n in NOTNL and val) or (n in NLIN and not val): return True
    return newline_cast(eng, st, v)


def newline_cast(eng, st, v):
    """comparisons of the byte after a conversion to another character type"""
    for f, tv in st.facts.items():
        if f[0] == "eq0" and tv is False:
            cst, d = lin.parts(f[1])
            if len(d) == 1:
                (x, k), = d.items()
                if x[0] == "trunc" and unwrap(x) == v and abs(cst) == 10 and cst * k < 0: return True
    for l in st.lin:
        cst, d = lin.parts(l)
        if len(d) == 1:
            (x, k), = d.items()
            if x[0] == "trunc" and unwrap(x) == v and ((k > 0 and -cst > 10) or (k < 0 and cst < 10)): return True
    return False


def is_newline(eng, st, v):
    if eng.truth(st, eq0(lin.add(v, c(-10)))) is True: return True
    return any(f[0] == "eq0" and tv is True and lin.parts(f[1])[0] in (10, -10) and len(lin.parts(f[1])[1]) == 1 and unwrap(list(lin.parts(f[1])[1])[0]) == v and
               lin.parts(f[1])[0] * list(lin.parts(f[1])[1].values())[0] < 0 for f, tv in st.facts.items())


class Roles:
    def __init__(self, p):
        self.p = p
        toks = [r for r in p.records.values() if r["file"].startswith("bant/") and len(r["fields"]) >= 2 and
                any(r["_types"][f["type"]]["k"] == "enum" for f in r["fields"]) and any(norm_name(r["_types"][f["type"]].get("q") or "") == "std::basic_string_view" for f in r["fields"]) and
                any(norm_name(f["q"]).startswith("bant::") and f.get("rec") and f["_types"][f["ret"]].get("rec") == r["id"] and not f["params"] for f in p.functions.values() if f.get("ret") is not None and f["file"].startswith("bant/"))]
        cands = []
        for t in toks:
            classes = {f["rec"] for f in p.functions.values() if f.get("rec") and f.get("ret") is not None and not f["params"] and f["_types"][f["ret"]].get("rec") == t["id"] and f["file"].startswith("bant/") and f.get("body")}
            for cl in classes:
                r = p.records.get(cl)
                if r and sum(1 for x in r["fields"] if r["_types"][x["type"]]["k"] == "ptr" and r["_types"][r["_types"][x["type"]]["to"]].get("k") == "int") >= 2: cands.append((t, r))
        if len(cands) != 1: raise AnalysisError("tokeniser class not found (%d candidates)" % len(cands))
        self.token, self.scanner = cands[0]
        self.text = next(f["id"] for f in self.token["fields"] if norm_name(self.token["_types"][f["type"]].get("q") or "") == "std::basic_string_view")
        self.type = next(f["id"] for f in self.token["fields"] if self.token["_types"][f["type"]]["k"] == "enum")
        en = self.token["_types"][next(f["type"] for f in self.token["fields"] if f["id"] == self.type)].get("enum")
        self.enum = {x["n"]: x["v"] for x in p.enums[en]["vals"]} if en in p.enums else {}
        self.cls = self.scanner["id"]
        self.this = ("this", self.cls)
        self.ctors = [f for f in p.functions.values() if f.get("rec") == self.cls and f.get("ctor") and not f.get("implicit")]
        self.methods = [f for f in p.functions.values() if f.get("rec") == self.cls and not f.get("ctor") and not f.get("dtor") and not f.get("implicit") and not f["id"].startswith("lambda@") and f.get("body") and not f.get("access")]
        # the class that keeps line starts
        maps = [r for r in p.records.values() if r["file"].startswith("bant/") and any("vector" in r["_types"][f["type"]]["s"] and "const char *" in r["_types"][f["type"]]["s"] for f in r["fields"]) and
                any(m["name"].startswith(("Push", "Init")) or True for m in r["methods"])]
        self.maps = {r["id"]: r for r in maps}
        self.push = {}
        for f in p.functions.values():
            if f.get("rec") in self.maps and len(f["params"]) == 1 and f["_types"][f["params"][0]["t"]].get("k") == "ptr" and not f.get("ctor") and f["_types"][f["ret"]]["k"] == "void":
                self.push[f["id"]] = f
        if not self.push: raise AnalysisError("routine recording line starts not found")
        self.pushnames = {norm_name(f["q"]) for f in self.push.values()}

    def addr(self, f): return ("&f", self.this, f)

    def bounds(self):
        """from the constructor: which member is the position, which the end, and what content they refer to"""
        if len(self.ctors) != 1: raise AnalysisError("%d constructors of %s" % (len(self.ctors), self.cls))
        f = self.ctors[0]
        ptrs = [x["id"] for x in self.scanner["fields"] if self.scanner["_types"][x["type"]]["k"] == "ptr"]
        e = Engine(self.p, ScanRule(self, None), K=200)
        e.this_new = True
        res = e.run(f, St(), this=self.this)
        if not res: raise AnalysisError("constructor of %s never returns" % self.cls)
        self.src = None
        for s, _ in res:
            val = {x: e.load(s, self.addr(x)) for x in ptrs}
            for b in ptrs:
                for x in ptrs:
                    d = lin.add(val[x], val[b], -1)
                    if val[b][0] == "data" and d == size_of(val[b][1]):
                        self.pos, self.end, content = b, x, val[b][1]
                        self.src = content
        if self.src is None: raise AnalysisError("members for position and end of content not found")
        # the reference member holding the source
        self.ctor_eng, self.ctor_res = e, res
        param = ("param", f["id"], f["params"][0]["id"])
        ref = None
        for x in self.scanner["fields"]:
            if self.scanner["_types"][x["type"]]["k"] in ("ref", "ptr") and e.load(res[0][0], self.addr(x["id"])) == param: ref = x["id"]
        self.content = subst(self.src, {param: ("ld", self.addr(ref), ())}, {}) if ref else self.src
        return self


FRONT = ("&g", "frontier")      # relative to the position member (or absolute without one)
LAST = ("&g", "last recorded")


class ScanRule(Rule):
    peel = True
    def __init__(self, roles, rep, ghost=False):
        self.r, self.rep, self.ghost = roles, rep, ghost
        self.anchor = None
        self.BEG = self.END = None
        self.found = {}

    # ---- reading
    def on_deref(self, eng, st, ptr, node, fr):
        if self.BEG is None or self.ghost or node.get("k") == "call": return
        t = eng.typ(fr, node.get("t"))
        if node.get("k") == "un" and not (t.get("k") == "int" and t.get("bits") == 8): return
        if node.get("k") == "mem": return
        self.read(eng, st, ptr, node, fr)

    def read(self, eng, st, ptr, node, fr):
        if ptr[0] in ("str", "&i", "&v", "&t", "&f"): return
        d = lin.parts(ptr)[1]
        if any(x[0] in ("&i", "&v", "&t", "str", "new") for x in d): return
        lo = eng.entails(st, lin.add(ptr, self.BEG, -1))
        hi = eng.entails(st, lin.add(lin.add(self.END, ptr, -1), c(-1)))
        self.note("read-inside", fr, node, lo and hi, "reads a byte not shown to be %s the content" % ("before the end of" if lo else "at or after the start of"))

    def on_index(self, eng, st, val, idx, node, fr):
        if self.BEG is None or self.ghost: return
        ok = eng.entails(st, idx) and eng.entails(st, lin.add(lin.add(size_of(val), idx, -1), c(-1)))
        self.note("read-inside", fr, node, ok, "indexes text at a position not shown to be inside it")

    def on_substr(self, eng, st, val, pos, node, fr):
        if self.BEG is None or self.ghost: return
        ok = eng.entails(st, lin.add(size_of(val), pos, -1))
        self.note("read-inside", fr, node, ok, "takes a part of a text that is not shown to reach as far")

    def note(self, rule, fr, node, ok, detail):
        k = (rule, fr.fn["q"], node.get("l"), node.get("_id"))
        o = self.found.get(k)
        self.found[k] = (fr.fn["file"], ok and (o is None or o[1]), detail if not ok else (o[2] if o else detail))

    def report(self, rep):
        for (rule, fn, line, _), (file, ok, detail) in sorted(self.found.items(), key=lambda x: str(x[0])):
            rep.ob(rule, fn, "%s:%s" % (file, line), ok, detail)

    # ---- the frontier
    def F(self, eng, st):
        g = st.store.get(FRONT)
        if g is None: return None
        return lin.add(eng.load(st, self.anchor), g) if self.anchor else g

    def setF(self, eng, st, f):
        st.store[FRONT] = lin.add(f, eng.load(st, self.anchor), -1) if self.anchor else f

    def advance(self, eng, st):
        f = self.F(eng, st)
        if f is None: return
        for i in range(6):
            v = eng.load(st, f)
            if not not_newline(eng, st, v):
                if i == 0:
                    w = self.same(eng, st, f)
                    if w is not None and w != f:
                        f = w
                        continue
                break
            f = lin.add(f, C1)
        self.setF(eng, st, f)

    def same(self, eng, st, f):
        """another expression for the same position, under which bytes are known"""
        if not any(x[0] == "phi" for x in lin.parts(f)[1]): return None
        seen = set()
        for t in list(st.facts) :
            for x in self.bytes_in(t): seen.add(x)
        for x in seen:
            d = lin.add(x, f, -1)
            if d == C0: continue
            if eng.entails(st, d) and eng.entails(st, lin.scale(d, -1)): return x
        return None

    def bytes_in(self, t, depth=0):
        if not isinstance(t, tuple) or not t or depth > 6: return
        if t[0] == "ld" and isinstance(t[1], tuple) and (t[1][0] in ("phi", "lin", "data", "ld")):
            yield t[1]
        for x in t:
            if isinstance(x, tuple): yield from self.bytes_in(x, depth + 1)

    def on_branch(self, eng, st, term, truth, node, fr):
        if not self.ghost: return
        g, val = term, truth
        if g[0] == "eq0" and g[1][0] == "call": g, val = g[1], not val
        if g[0] == "call" and len(g) > 2 and g[2]:
            n = short(g[1])
            if (n in NOTNL and val) or (n in NLIN and not val): eng.assume(st, eq0(lin.add(unwrap(g[2][0]), c(-10))), False)
        self.advance(eng, st)

    def on_store(self, eng, st, addr, val, node, fr):
        if self.ghost and self.anchor and addr == self.anchor:
            d = lin.add(eng.load(st, addr), val, -1)
            for g in (FRONT, LAST):
                if g in st.store: st.store[g] = lin.add(st.store[g], d)

    def lower(self, eng, st):
        g, l = st.store.get(FRONT), st.store.get(LAST)
        if self.anchor and g is not None and l is not None and g[0] == "c" and g[1] > 0 and eng.entails(st, lin.scale(l, -1)): st.store[FRONT] = C0

    def tidy(self, eng, st):
        """the last record only matters while it may lie ahead of the position"""
        l = st.store.get(LAST)
        if self.anchor and l is not None and l != C0 and eng.entails(st, lin.scale(l, -1)): st.store[LAST] = C0

    def on_loop_entry(self, eng, entries, node, fr):
        if self.ghost:
            for s in entries: self.advance(eng, s); self.lower(eng, s); self.tidy(eng, s)

    def on_loop_back(self, eng, head, st, node, fr):
        if self.ghost: self.advance(eng, st); self.lower(eng, st); self.tidy(eng, st)

    def pre_call(self, eng, st, call):
        n = call.name or ""
        if n.startswith("absl::log_internal") or short(n) in ("CHECK",): return None
        if call.fid in self.r.push:
            if not self.ghost: return [(st, C0)]
            x = eng.rval(st, call.args[0], call.node["a"][0])
            fr = call.fr
            if st.props.get("first"):
                self.note("first-line", fr, call.node, x == self.BEG, "the first line is recorded to start somewhere else than at the start of the text")
                st.props = {k: v for k, v in st.props.items() if k != "first"}
                return [(st, C0)]
            self.advance(eng, st)
            f = self.F(eng, st)
            v = eng.load(st, f)
            nl = is_newline(eng, st, v)
            if not nl:
                w = self.same(eng, st, f)
                if w is not None and is_newline(eng, st, eng.load(st, w)): f, nl = w, True
            d = lin.add(lin.add(x, f, -1), c(-1))
            at = d == C0 or (eng.entails(st, d) and eng.entails(st, lin.scale(d, -1)))
            self.note("recorded-once", fr, call.node, nl and at, "records %s as start of a line, where the next newline not yet recorded is not known to be just before it" % show(x)[:60])
            self.setF(eng, st, x)
            st.store[LAST] = st.store[FRONT]
            return [(st, C0)]
        if n in ("std::distance", "std::next", "std::prev") and call.obj is None:
            a = [eng.rval(st, x, d) for x, d in zip(call.args, call.node["a"])]
            if n == "std::distance": return [(st, lin.add(a[1], a[0], -1))]
            return [(st, lin.add(a[0], a[1] if len(a) > 1 else C1, 1 if n == "std::next" else -1))]
        if self.ghost and self.anchor is None and n in ("std::basic_string_view::find_first_of", "std::basic_string_view::find", "std::basic_string::find", "std::basic_string::find_first_of"):
            obj = eng.load(st, call.obj)
            a = [eng.rval(st, y, d) for y, d in zip(call.args, call.node["a"])]
            if a[0] == c(10) or a[0] == ("str", "\n"):
                frm = a[1] if len(a) > 1 else C0
                start = lin.add(data_of(obj), frm)
                self.advance(eng, st)
                f = self.F(eng, st)
                cont = eng.entails(st, lin.add(f, start, -1))
                out = []
                s2 = st.copy()
                if cont: self.setF(eng, s2, lin.add(data_of(obj), size_of(obj)))
                s2.props = dict(s2.props, notfound=1)
                st.props = {k: v for k, v in st.props.items() if k != "notfound"}
                out.append((s2, NPOS))
                r = eng.fresh("found", call.node, call.fr)
                eng.nonneg.add(r)
                if cont: self.setF(eng, st, lin.add(data_of(obj), r))
                eng.assume(st, ge0(lin.add(lin.add(NPOS, r, -1), c(-1))), True)
                eng.assume(st, ge0(lin.add(r, frm, -1)), True)
                eng.assume(st, ge0(lin.add(lin.add(size_of(obj), r, -1), c(-1))), True)
                eng.assume(st, eq0(lin.add(eng.load(st, lin.add(data_of(obj), r)), c(-10))), True)
                return out + [(st, r)]
        return None

    def inline(self, eng, fn, fr): return fn["file"].startswith("bant/")


