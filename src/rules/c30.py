"""C30: synthesized text can be located."""
from bsa.engine import Engine, Rule, C0, c, eq0, show
from bsa.prog import AnalysisError, norm_name, fn_nodes, walk
from bsa.cmdline import production
from bsa.nulls import Tree
from bsa.origin import Origins
from bsa import lin

TECHNIQUE = "backward slice of every text asked for its location or put in a tree to the memory it refers to; path-sensitive pairing of synthesized text with the registered range that contains it (symbolic offsets, sums over loops); shape of the range lookup"
NOTE = ("That ranges registered are disjoint follows from the arena never handing out memory twice (C01). Offsets that are neither linear nor sums over one loop each are not compared. Only the routines that allocate raw memory can synthesize text; all others are checked to only pass on views.")
EXPLANATION = ("Every text whose location is asked for, and every text put in a node of a syntax tree, is traced back through variables, parameters, callbacks, members and results: none is a view of a string with a life of its own, of a literal or of a global. "
               "Where memory for text is allocated, every text made of it is covered by a range registered with the project by the time the routine ends, on every path, and stays inside of it, as do the copies written to it; the locator registered is not a local object. "
               "A file whose tree is kept has its content registered with its own locator. The lookup by sub-range finds everything inside the range, the range itself included, and only gives up if nothing ends behind or if it begins too late.")
UNITS = ["bant/frontend/elaboration.cc", "bant/frontend/parsed-project.cc"]

COPIES = ("memcpy", "memmove", "std::memcpy", "std::memmove", "strncpy", "std::strncpy")


def typ(T, i):
    t = T[i]
    while t["k"] in ("ref", "rref"): t = T[t["to"]]
    return t


def is_alloc(p, fid):
    f = p.functions.get(fid)
    if not f or f.get("ret", -1) < 0 or len(f["params"]) != 1: return False
    T = f["_types"]; r = T[f["ret"]]
    return r["k"] == "ptr" and T[r["to"]]["k"] == "void" and T[f["params"][0]["t"]]["k"] == "int"


def accessor(f):
    b = f.get("body") or {}
    s = [x for x in b.get("b", ()) if x]
    return b.get("k") == "block" and len(s) == 1 and s[0].get("k") == "ret" and not f["params"] and all(x.get("k") in ("ret", "ld", "cast", "mem", "this", "un") or x.get("k") == "ctor" and x.get("cm_ctor") for x in walk(s[0]))


def locators(p, tree):
    """routines that answer where a text is: virtual, of a text, and those that call them with their parameter"""
    base = set()
    for f in p.functions.values():
        if f.get("virtual") and f.get("ret", -1) >= 0 and len(f["params"]) == 1 and view(f["_types"], f["params"][0]["t"]) and "Location" in str(typ(f["_types"], f["ret"]).get("s")): base.add(f.get("rec"))
    roots = set()
    for r in base:
        for u in tree.ups(r): roots.add(u)
    return roots


def view(T, i): return "std::basic_string_view" in str(typ(T, i).get("s")) or "string_view" in str(typ(T, i).get("q"))


class Synth(Rule):
    peel = False

    def __init__(self, p, f, tree, locs, closure):
        self.p, self.f, self.tree, self.locs, self.closure = p, f, tree, locs, closure
        self.size = {}
        self.bad = {}
        self.deltas = {}
        self.its = {}
        self.tab, self.args = {}, {}
        self.n = {"allocs": 0, "texts": 0, "ranges": 0, "copies": 0}

    def err(self, rule, fr, node, msg): self.bad.setdefault((rule, "%s:%s" % (fr.fn["file"], node.get("l"))), msg)

    def inline(self, eng, fn, fr):
        if fn["id"].startswith("lambda@"): return self.lam(fn)
        if not fn.get("body") or is_alloc(self.p, fn["id"]) or fr.depth > 6: return False
        return (fn["id"] in self.closure or fn["id"] in self.helpers) and not fn.get("virtual") or accessor(fn) or maker(self.p, fn)

    def lam(self, fn): return any(x.get("k") == "call" and (x.get("f") in self.closure or is_alloc(self.p, x.get("f"))) for x in fn_nodes(fn)) or len(list(fn_nodes(fn))) < 25

    # ---------------------------------------------------- sums over loops
    def on_loop_entry(self, eng, entries, node, fr):
        if node.get("k") == "foreach":
            for st in entries:
                v = eng.load(st, ("&v", fr.ctx, node["range"]["id"]))
                self.its[("&v", fr.ctx, node["begin"]["id"])] = v

    def plain(self, t):
        if isinstance(t, tuple):
            if t and t[0] == "phi" and t[-1] in self.its: return ("elements of", self.its[t[-1]])
            if t and t[0] == "ep": return ()
            return tuple(self.plain(x) for x in t)
        return t

    def flat(self, t):
        """without the histories of loops, which what is kept along a path must not mention"""
        if isinstance(t, tuple):
            if t and t[0] == "phi": return ("phi", t[-1])
            return tuple(self.flat(x) for x in t)
        return t

    def on_loop_back(self, eng, head, st, node, fr):
        ids = {x.get("_id") for x in walk(node)}
        for a, v in head.store.items():
            if v[0] == "phi" and a[0] == "&v" and v[1][0][0] == node["_id"]:
                w = eng.load(st, a)
                t = w[1] if w[0] == "sv" else w
                d = self.plain(lin.add(w, v, -1)) if w != v else C0
                if self.local(d, ids, len(fr.ctx)): d = ("opaque", node["_id"])
                self.deltas.setdefault((node["_id"], a), set()).add(d)

    def total(self, v):
        """what a variable adds up in the only loop that changes it"""
        if v[0] == "lin" and v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1: v = v[2][0][0]
        if v[0] == "off": v = v[1]
        if v[0] != "phi": return None
        a = v[-1]
        ks = [k for k in self.deltas if k[1] == a]
        return self.deltas[ks[0]] if len(ks) == 1 else None

    # ---------------------------------------------------- memory
    def base(self, eng, v, seen=()):
        """(allocation, offset)"""
        if v[0] == "c" or v in seen: return None
        k, d = lin.parts(v)
        for a, n in d.items():
            if n != 1: continue
            if a in self.size: return a, lin.add(v, a, -1)
            if a[0] == "phi":
                bs = [b for b in (self.base(eng, s, seen + (v,)) for s in eng.phi_src.get(a, ())) if b]
                if any(b[1] == C0 for b in bs): return bs[0][0], lin.add(lin.add(v, a, -1), ("off", a))
                if bs: return bs[0][0], ("?",)
        return None

    def inside(self, eng, st, off, ln, size):
        """does [off, off + ln) fit in size?  None if it cannot be told"""
        if off == ("?",) or size == C0: return None  # or nothing was counted, so that there is nothing to go through either
        d, s = self.total(off), self.total(size)
        if d is not None:
            if s is None: return None
            if any(x for t in (d, s, (self.plain(ln),)) for x in t if self.opaque(x)): return None
            if C0 in s and C0 not in d: return False  # some are not counted
            if len(s) > 1 or len(d) > 1: return None
            known = []
            for t in (*d, self.plain(ln)):
                r = lin.add(*s, t, -1)
                if r[0] == "c": known.append(r[1] >= 0)
                elif all(a[0] == "size" for a in lin.parts(r)[1]): known.append(eng.entails(st, r))
                else: known.append(None)
            return False if False in known else None if None in known else True
        room = lin.add(lin.add(size, off, -1), ln, -1)
        if eng.entails(st, room): return True
        k, ds = lin.parts(room)
        if all(a[0] == "size" for a in ds): return False
        return None

    def opaque(self, t): return isinstance(t, tuple) and (t and t[0] in ("phi", "opaque") or any(self.opaque(x) for x in t))

    def local(self, t, ids, n):
        """a value computed anew in each round that has no name outside"""
        if not isinstance(t, tuple): return False
        if t and t[0] == "sym" and isinstance(t[1], tuple) and (t[1][0] in ("alias", "havoc") or len(t[1]) > 2 and (t[1][1] in ids or isinstance(t[1][2], tuple) and len(t[1][2]) > n)): return True
        return any(self.local(x, ids, n) for x in t)

    def text(self, eng, st, v):
        if v[0] == "sv": return v[1], v[2]
        if v[0] == "ctor" and len(v[2]) == 2: return v[2]
        return None

    def pre_call(self, eng, st, call):
        n, fr = call.node, call.fr
        nm = norm_name(n.get("n") or "")
        if n["k"] == "call" and is_alloc(self.p, n.get("f")):
            v = eng.fresh("new", n, fr, "alloc")
            self.size[v] = None
            arg = eng.rval(st, call.args[0], n["a"][0])
            if not any(x.get("szof") is not None for x in walk(n["a"][0])):
                self.n["allocs"] += 1
                st.props["mem"] = frozenset(x for x in st.props.get("mem", ()) if x[0] != v) | {(v, self.flat(arg))}
                self.args.setdefault(self.flat(arg), arg)
            return [(st, v)]
        if n["k"] == "ctor" and n.get("rec") in self.tree.classes:
            for a, d in zip(call.args, n["a"]):
                v = eng.rval(st, a, d)
                t = self.text(eng, st, v)
                b = t and self.base(eng, t[0])
                if b:
                    self.n["texts"] += 1
                    self.tab.setdefault(b[0], {})[(b[1], t[1], fr.fn["file"], n["l"])] = True
        if nm in COPIES:
            b = self.base(eng, call.args[0])
            if b:
                self.n["copies"] += 1
                size = dict(st.props.get("mem", ())).get(b[0])
                size = self.args.get(size)
                if size is not None and self.inside(eng, st, b[1], call.args[2], size) is False: self.err("copy", fr, n, "what is copied does not fit in the memory allocated")
        return None

    def post_call(self, eng, st, call, ret):
        n, fr = call.node, call.fr
        f = self.p.functions.get(n.get("f"))
        if not f or not self.registers(f): return
        self.n["ranges"] += 1
        ti = next(i for i, q in enumerate(f["params"]) if view(f["_types"], q["t"]))
        v, w = eng.rval(st, call.args[ti], n["a"][ti]), eng.rval(st, call.args[1 - ti], n["a"][1 - ti])
        t = self.text(eng, st, v)
        b = t and self.base(eng, t[0])
        if b: st.props["regs"] = st.props.get("regs", frozenset()) | {(b[0], b[1], t[1])}
        else: st.props["whole"] = st.props.get("whole", frozenset()) | {(v, w)}
        if w == C0 or eng.truth(st, eq0(w)) is True: self.err("locator", fr, n, "no locator is registered")
        r = w
        while r[0] == "&f": r = r[1]
        if r[0] == "&v" or r[0] == "&t": self.err("locator", fr, n, "the locator registered is an object of this routine")

    def registers(self, f):
        return not f.get("ctor") and len(f["params"]) == 2 and f.get("rec") in self.locs and sum(view(f["_types"], q["t"]) for q in f["params"]) == 1 and any(self.loc_ptr(f, q) for q in f["params"])

    def loc_ptr(self, f, q):
        t = f["_types"][q["t"]]
        return t["k"] == "ptr" and typ(f["_types"], t["to"]).get("rec") in self.locs

    def on_store(self, eng, st, addr, val, node, fr):
        if addr[0] == "&f" and addr[2] in self.asts: st.props["asts"] = st.props.get("asts", frozenset()) | {(addr[1], fr.fn["file"], node.get("l"))}

    asts = ()
    helpers = ()

    def ends(self, eng, outs):
        for st, v in outs:
            regs = st.props.get("regs", ())
            for b, off, ln, file, l in [(m[0],) + x for m in st.props.get("mem", ()) for x in self.tab.get(m[0], ())]:
                mine = [r for r in regs if r[0] == b]
                fr, f = type("F", (), {"fn": {"file": file}}), {"l": l}
                if not mine: self.err("registered", fr, f, "text made here has no location registered on a path to the end of the routine")
                elif all(self.covers(eng, st, off, ln, r) is False for r in mine): self.err("registered", fr, f, "text made here is not inside of the range registered")
            whole = st.props.get("whole", ())
            for o, file, l in st.props.get("asts", ()):
                fr = type("F", (), {"fn": {"file": file}})
                mine = [(x, w) for x, w in whole if self.part_of(w, o)]
                if not mine: self.err("file", fr, {"l": l}, "the content of the file the tree belongs to is not registered on a path to the end of the routine")
                elif not any(self.complete(x, o) for x, w in mine): self.err("file", fr, {"l": l}, "not the complete content of the file is registered")

    def covers(self, eng, st, off, ln, r):
        if r[1] == off and r[2] == ln: return True
        if r[1] == C0: return self.inside(eng, st, off, ln, r[2])
        return None

    def part_of(self, w, o):
        while w[0] == "&f":
            if w[1] == o: return True
            w = w[1]
        return False

    def complete(self, v, o):
        if v[0] == "sv": return v[1] == ("data", v[2][1]) if v[2][0] == "size" else v[2][0] != "lin" and v[1][0] != "lin"
        return not any("substr" in str(x) for x in parts(v))


def parts(v):
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple): todo += x
        else: yield x


def maker(p, fn):
    b = fn.get("body") or {}
    s = [x for x in b.get("b", ()) if x]
    if not 1 <= len(s) <= 4 or s[-1].get("k") != "ret" or any(x.get("k") not in ("decl", "ret", "expr", "call", "asg", "cast") for x in s): return False
    return any(x.get("k") == "new" and x.get("pl") for x in walk(b)) or any(x.get("k") == "call" and x.get("f") in p.functions and maker1(p, p.functions[x["f"]]) for x in walk(b))


def maker1(p, fn):
    return any(x.get("k") == "new" and x.get("pl") for x in fn_nodes(fn))


def check(p, rep, tier):
    tree = Tree(p)
    roots = locators(p, tree)
    locs = set()
    for r in roots: locs |= tree.downs(r)
    if not locs: raise AnalysisError("classes that know locations not found")

    # asks and node texts: whose memory
    cuts = {fl["id"]: r for r in p.records.values() if r["id"] in tree.classes or r["id"] in locs for fl in r["fields"] if view(r["_types"], fl["type"])}
    o = Origins(p, lambda f: f in cuts)
    n = 0
    for f in sorted(p.functions.values(), key=lambda f: f["id"]):
        if not production(f) or not f.get("body"): continue
        for x in fn_nodes(f):
            if x.get("k") != "call" or not x.get("a"): continue
            g = p.functions.get(x.get("f"))
            rec = g.get("rec") if g else norm_name(x.get("rq") or "")
            if rec not in locs or norm_name(x.get("n") or "").rpartition("::")[2] not in asking(p, locs): continue
            a = [y for y in x["a"] if view(f["_types"], y["t"])] if all(y.get("t") is not None for y in x["a"]) else x["a"][-1:]
            for y in a[-1:]:
                n += 1
                bad = sorted(w for w in o.of(f, y) if w[0] in ("a literal", "a string of its own", "a global"))
                rep.ob("asked", "%s:%s" % (f["q"], n), "%s:%s" % (f["file"], x["l"]), not bad, "the location is asked of %s" % "; ".join("%s (%s)" % w for w in bad) if bad else "view of source text or of a tree")
    rep.require("asked", 5)
    for fid, r in sorted(cuts.items()):
        if r["id"] in locs: continue
        bad = sorted(w for w in o.key(None, ("m", fid), ()) if w[0] in ("a literal", "a string of its own", "a global"))
        rep.ob("node-text", fid, r["file"], not bad, "nodes are made of %s" % "; ".join("%s (%s)" % w for w in bad) if bad else "views only")
    rep.require("node-text", 2)

    # synthesized text
    rule = Synth(p, None, tree, locs, ())
    closure = set()
    fs = [f for f in p.functions.values() if production(f) and f.get("body") and not f.get("implicit")]
    users = {}
    for f in fs:
        for x in fn_nodes(f):
            if x.get("k") in ("call", "ctor") and x.get("f"): users.setdefault(x["f"], set()).add(f["id"])
            if x.get("k") == "lambda": users.setdefault(x["f"], set()).add(f["id"])
            if x.get("k") == "call" and is_alloc(p, x.get("f")) and not any(y.get("szof") is not None for y in walk(x["a"][0])): closure.add(f["id"])
    closure = {i for i in closure if p.functions[i].get("rec") not in {p.functions[a].get("rec") for a in p.functions if is_alloc(p, a)}}
    start = set(closure)
    todo = list(closure)
    while todo:
        x = todo.pop()
        for u in users.get(x, ()):
            if u not in closure and p.functions[u]["file"] == p.functions[x]["file"] and not p.functions[x].get("virtual"):
                closure.add(u); todo.append(u)
    tops = [i for i in closure if p.functions[i].get("virtual") or not any(u in closure for u in users.get(i, ()))]
    helpers = set()
    for _ in range(3):
        helpers |= {f["id"] for f in fs if not rule.registers(f) and any(x.get("k") == "call" and (x.get("f") in helpers and p.functions[x["f"]]["file"] == f["file"] or x.get("f") in p.functions and rule.registers(p.functions[x["f"]])) for x in fn_nodes(f))}
    total = {"allocs": 0, "texts": 0, "ranges": 0, "copies": 0}
    for i in sorted(tops):
        f = p.functions[i]
        g = Synth(p, f, tree, locs, closure)
        g.helpers = helpers
        e = Engine(p, g, K=400)
        try: outs = e.run(f, args=[("param", f["id"], q["id"]) for q in f["params"]])
        except AnalysisError:
            if not g.bad: raise
            outs = []
        rep.eng(e)
        g.ends(e, outs)
        for k in total: total[k] += g.n[k]
        where = "%s:%s" % (f["file"], f["line"])
        for rl, txt in (("registered", "text made is inside of a registered range on every path"), ("copy", "copies fit in the memory"), ("locator", "the locator lives as long as the project")):
            bad = ["%s: %s" % (w, m) for (q, w), m in sorted(g.bad.items()) if q == rl]
            rep.ob(rl, f["q"], where, not bad, "; ".join(bad) or txt)
    rep.notes.append("synthesized: %s" % total)
    if start: rep.ob("synthesized", "all", "bant", total["allocs"] > 0 and total["texts"] > 0, "%s" % total)

    # files
    asts = {fl["id"] for r in p.records.values() if r["id"] not in tree.classes for fl in r["fields"] if r["_types"][fl["type"]]["k"] == "ptr" and typ(r["_types"], r["_types"][fl["type"]]["to"]).get("rec") in tree.classes
            and any(typ(r["_types"], z["type"]).get("rec") in locs for z in r["fields"])}
    k = 0
    for f in fs:
        if f.get("ctor") or not any(x.get("k") == "asg" and x["a"].get("k") == "mem" and x["a"]["f"] in asts for x in fn_nodes(f)): continue
        top = [f] if not users.get(f["id"]) or any(rule.registers(p.functions[x["f"]]) for x in fn_nodes(f) if x.get("k") == "call" and x.get("f") in p.functions) else [p.functions[u] for u in users[f["id"]] if p.functions[u]["file"] == f["file"]] or [f]
        for t in top:
            k += 1
            g = Synth(p, t, tree, locs, {f["id"]} | {x for x in users if x in p.functions and p.functions[x]["file"] == f["file"] and t["id"] in users[x] and not rule.registers(p.functions[x])})
            g.asts, g.helpers = asts, helpers
            e = Engine(p, g, K=300)
            outs = e.run(t, args=[("param", t["id"], q["id"]) for q in t["params"]])
            rep.eng(e)
            g.ends(e, outs)
            bad = ["%s: %s" % (w, m) for (q, w), m in sorted(g.bad.items()) if q in ("file", "locator")]
            rep.ob("file", t["q"], "%s:%s" % (t["file"], t["line"]), not bad, "; ".join(bad) or "content registered")
    rep.require("file", 1)
    lookup(p, rep, rule, locs, fs)


_ask = {}


def asking(p, locs):
    k = id(p)
    if k not in _ask:
        names = set()
        for f in p.functions.values():
            if f.get("rec") in locs and f.get("virtual") and len(f["params"]) == 1 and view(f["_types"], f["params"][0]["t"]): names.add(f["name"])
        for f in p.functions.values():
            if f.get("rec") in locs and any(x.get("k") == "call" and norm_name(x.get("n") or "").rpartition("::")[2] in names for x in fn_nodes(f)) and any(view(f["_types"], q["t"]) for q in f["params"]) and f.get("ret", -1) >= 0 and not f.get("ctor"): names.add(f["name"])
        _ask[k] = names
    return _ask[k]


def lookup(p, rep, rule, locs, fs):
    """the map from ranges to locators"""
    ins, finds = set(), set()
    for f in fs:
        if f.get("rec") not in locs: continue
        for x in fn_nodes(f):
            g = p.functions.get(x.get("f")) if x.get("k") == "call" else None
            if not g or not g.get("body") or g.get("rec") in locs or not g["params"] or not view(g["_types"], g["params"][0]["t"]): continue
            if rule.registers(f) and len(g["params"]) == 2: ins.add(g["id"])
            elif f.get("virtual") and len(g["params"]) == 1 and "optional" in str(g["_types"][g["ret"]].get("s")): finds.add(g["id"])
    for i in sorted(finds | ins):
        f = p.functions[i]
        where = "%s:%s" % (f["file"], f["line"])
        g = Look(p, f)
        e = Engine(p, g, K=200)
        outs = e.run(f, this=("this", f["rec"]), args=[("param", f["id"], q["id"]) for q in f["params"]])
        rep.eng(e)
        key = e.load(outs[0][0], ("param", f["id"], f["params"][0]["id"])) if f["_types"][f["params"][0]["t"]]["k"] == "ref" else ("param", f["id"], f["params"][0]["id"])
        begin, end = ("data", key), lin.add(("data", key), ("size", key))
        bad = []
        if i in ins:
            for st, v in outs:
                mine = st.props.get("kept", ())
                if not any(has(cut(x, end), begin) and has(x, end) and has(x, ("param", f["id"], f["params"][1]["id"])) for x in mine): bad.append("a range is not kept with its begin, its end and its value on some path")
            rep.ob("kept", f["q"], where, not bad, bad[0] if bad else "kept with both ends")
            continue
        if not g.looked:
            rep.notes.append("lookup of %s not recognised" % f["q"])
            continue
        for ret, (nm, k) in g.looked.items():
            if nm == "upper_bound" and k == end: bad.append("a range is not found by a text that ends where it ends")
            elif k == begin: bad.append("looked for by the begin of the text")
            elif k != end: bad.append("looked for by something else than the end of the text")
        for st, v in outs:
            rets = [r for r in g.looked]
            at_end = [k for t, k in st.facts.items() if t[0] == "eq" and any(r in t for r in rets) and any(is_end(x) for x in t[1:])]
            ks = []  # begin of the text compared with the begin of the range found
            for l in st.lin:
                k, d = lin.parts(l)
                o = [a for a in d if a != begin]
                if begin in d and len(o) == 1 and d[o[0]] == -d[begin] and any(has(o[0], r) for r in rets): ks.append((d[begin], k))
            empty = has(v, "nullopt") or has(v, ("nullopt",)) or e.has_known(v) is False
            if empty:
                if True not in at_end and not any(sg == -1 and k <= -1 for sg, k in ks): bad.append("a text inside of a range is refused, as where the range begins with it" if ks else "nothing is found although there may be a range")
            else:
                if False not in at_end: bad.append("what is found may be the end of the map")
                if not any(sg == 1 and k <= 0 for sg, k in ks): bad.append("a range is returned that may begin behind the text")
        rep.ob("lookup", f["q"], where, not bad, "; ".join(dict.fromkeys(bad)) or "everything inside of a range is found, nothing else")
    if not finds: rep.notes.append("lookup of ranges not recognised")


def cut(v, x):
    if v == x: return ()
    return tuple(cut(y, x) for y in v) if isinstance(v, tuple) else v


def is_end(v): return isinstance(v, tuple) and (v[0] == "end" or v[0] == "call" and str(v[1]).rpartition("::")[2] in ("end", "cend"))


def has(v, x):
    if v == x: return True
    return isinstance(v, tuple) and any(has(y, x) for y in v)


class Look(Rule):
    peel = False

    def __init__(self, p, f):
        self.p, self.f = p, f
        self.looked = {}

    def inline(self, eng, fn, fr): return fn["id"].startswith("lambda@") or accessor(fn) or fn.get("rec") == self.f.get("rec")

    def post_call(self, eng, st, call, ret):
        nm = norm_name(call.name or "").rpartition("::")[2]
        if call.obj is None or not call.node.get("ext"): return
        if nm in ("lower_bound", "upper_bound") and call.args: self.looked[ret] = (nm, plain(eng, st, eng.rval(st, call.args[0], call.node["a"][0])))
        if nm in ("insert", "emplace", "try_emplace", "insert_or_assign", "push_back", "emplace_back"):
            st.props["kept"] = st.props.get("kept", frozenset()) | {tuple(deep(eng, st, eng.rval(st, a, d)) for a, d in zip(call.args, call.node["a"]))}


def plain(eng, st, v):
    for _ in range(6):
        if v[0] in ("&v", "&t", "&f"): v = eng.load(st, v)
        elif v[0] == "ctor" and len(v[2]) == 1: v = v[2][0]
        else: break
    return v


def deep(eng, st, v, n=0):
    if not isinstance(v, tuple) or n > 8: return v
    if v and v[0] in ("&v", "&t"):
        w = eng.load(st, v)
        return (v, deep(eng, st, w, n + 1)) if w != v else v
    return tuple(deep(eng, st, x, n + 1) for x in v)
