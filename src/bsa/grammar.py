"""The parser as a user of a token stream (C05, C09).

Tokens are symbolic.  A counter says how many tokens other than the end of file
have been taken.  Grammar routines that call each other in circles are cut at as
few routines as possible; a call of a cut routine is replaced by what holds of
all of them, and each is analysed by itself from an unknown state.
"""
from . import lin
from .engine import Engine, Rule, St, c, C0, C1, show, eq0, ge0, fld, size_of, data_of, neg
from .prog import AnalysisError, norm_name, fn_nodes, walk
from .scan import Roles

UPC, ATEND = ("&g", "upcoming"), ("&g", "at end")


class Grammar:
    def __init__(self, p):
        self.p = p
        self.R = Roles(p)
        self.eof = self.R.enum.get("kEof")
        give = [f for f in self.R.methods if f.get("ret") is not None and f["_types"][f["ret"]].get("rec") == self.R.token["id"]]
        ids = {f["id"] for f in give}
        self.looks = {f["id"] for f in give if any(x in ids and x != f["id"] for x, _ in p.calls.get(f["id"], ()))}
        self.takes = ids - self.looks
        if self.eof is None or not self.looks or not self.takes: raise AnalysisError("operations of the tokeniser not found")
        users = {}
        for f in p.functions.values():
            if f["file"].startswith("bant/") and "_test" not in f["file"] and any(x in ids for x, _ in p.calls.get(f["id"], ())):
                r = f.get("rec") or enclosing(p, f)
                if r and r != self.R.cls: users.setdefault(r, set()).add(f["id"])
        if len(users) != 1: raise AnalysisError("%d classes take tokens, expected one parser" % len(users))
        self.cls = next(iter(users))
        self.rec = p.records[self.cls]
        self.this = ("this", self.cls)
        self.methods = {f["id"]: f for f in p.functions.values() if f.get("rec") == self.cls and f.get("body") and not f.get("ctor") and not f.get("dtor") and not f["id"].startswith("lambda@")}
        self.unit = next(iter(self.methods.values()))["file"]
        # everything reachable from there inside the same class (templates and lambdas included)
        self.inner = {}
        todo = list(self.methods)
        while todo:
            x = todo.pop()
            f = p.functions.get(x)
            if not f or x in self.inner: continue
            if f.get("rec") == self.cls or x.startswith("lambda@") or (f["file"] == self.unit and not f.get("rec")):
                self.inner[x] = f
                todo += [y for y, _ in p.calls.get(x, ())]
        # called from outside the class
        self.entries = sorted({x for f in p.functions.values() if f["id"] not in self.inner and f["file"].startswith("bant/") for x, _ in p.calls.get(f["id"], ()) if x in self.methods and self.reads(x)})
        if not self.entries: raise AnalysisError("parser is never started")
        self.errs = [x["id"] for x in self.rec["fields"] if self.rec["_types"][x["type"]]["k"] == "bool"]
        self.streams = [x["id"] for x in self.rec["fields"] if "ostream" in self.rec["_types"][x["type"]]["s"]]
        self.cuts = self.cut()

    def reads(self, x, seen=None):
        seen = seen if seen is not None else set()
        if x in seen: return False
        seen.add(x)
        return any(y in self.looks or y in self.takes or (y in self.inner and self.reads(y, seen)) for y, _ in self.p.calls.get(x, ()))

    def cyclic(self, without):
        """routines that can reach themselves"""
        g = {x: {y for y, _ in self.p.calls.get(x, ()) if y in self.inner and y not in without} for x in self.inner if x not in without}
        res = set()
        for x in g:
            seen, todo = set(), list(g[x])
            while todo:
                y = todo.pop()
                if y in seen: continue
                seen.add(y)
                todo += g.get(y, ())
            if x in seen: res.add(x)
        return res

    def cut(self):
        cuts = []
        while True:
            cyc = self.cyclic(set(cuts))
            if not cyc: return cuts
            ok = [x for x in sorted(cyc) if x in self.methods and not any("function" in self.inner[x]["_types"][q["t"]].get("s", "") or self.inner[x]["_types"][q["t"]]["k"] in ("ref", "rref") for q in self.inner[x]["params"])]
            if not ok: raise AnalysisError("recursion of the parser can not be cut")
            callers = lambda x: sum(1 for y in self.inner for z, _ in self.p.calls.get(y, ()) if z == x)
            cuts.append(min(ok, key=lambda x: (len(self.cyclic(set(cuts) | {x})), -callers(x), x)))

    def fresh_state(self, eng, st):
        st.store[ATEND] = C0


def enclosing(p, f):
    """class of the routine a lambda is written in"""
    if not f["id"].startswith("lambda@"): return None
    for g in p.functions.values():
        if g["id"] != f["id"] and any(y == f["id"] for y, _ in p.calls.get(g["id"], ())):
            return g.get("rec") or enclosing(p, g)
    return None


class GrammarRule(Rule):
    peel = False

    def __init__(self, g, kind, rep=None):
        self.g, self.kind, self.rep = g, kind, rep       # kind: "progress" or "errors"
        self.root = None
        self.edges = []          # (callee, progress shown, node, frame)
        self.found = {}
        self.nonnull = {}
        self.optional = {}       # cut routine -> how a bool argument allows for nothing being there

    def inline(self, eng, fn, fr): return fn["id"] in self.g.inner and fn["id"] not in self.g.cuts

    # a variable that holds the token looked at keeps doing so around a loop
    def upcoming(self, eng, st):
        t = st.store.get(UPC)
        if t is not None and t[0] == "same": t = st.store[UPC] = eng.load(st, t[1])
        return t

    def alias(self, st, at):
        t = st.store.get(UPC)
        if t is None or t[0] in ("same", "c"): return
        same = sorted((a for a, v in st.store.items() if v == t and a[0] == "&v" and (at is None or a in at)), key=repr)
        if same: st.store[UPC] = ("same", same[-1])

    def on_loop_entry(self, eng, entries, node, fr):
        for s in entries: self.alias(s, None)

    def on_loop_back(self, eng, head, st, node, fr): self.alias(st, head.store)

    def on_store(self, eng, st, addr, val, node, fr):
        if st.store.get(UPC) == ("same", addr): self.upcoming(eng, st)

    def on_ret(self, eng, st, val, fr): self.upcoming(eng, st)

    def on_branch(self, eng, st, term, truth, node, fr): self.upcoming(eng, st)      # the variable may be gone after the loop

    def tok(self, eng, st, call, what):
        t = eng.fresh(what, call.node, call.fr)
        if st.store.get(ATEND) == C1: eng.assume(st, eq0(lin.add(fld(t, self.g.R.type), c(-self.g.eof))), True)
        return t

    def pre_call(self, eng, st, call):
        g = self.g
        if call.fid in g.inner and call.fid not in g.cuts:
            if call.fr.depth + 1 >= eng.max_depth: raise AnalysisError("calls too deep in %s" % call.fr.chain())
            self.enters(eng, st, call)
        if call.fid in g.looks:
            t = self.upcoming(eng, st)
            if t is None:
                t = st.store[UPC] = self.tok(eng, st, call, "upcoming")
                self.looked(eng, st, t)
            return [(st, t)]
        if call.fid in g.takes:
            t = self.upcoming(eng, st)
            st.store.pop(UPC, None)
            if t is None: t = self.tok(eng, st, call, "token")
            else: call.upc = True
            e = eq0(lin.add(fld(t, g.R.type), c(-g.eof)))
            tv = eng.truth(st, e)
            out = []
            if tv is not False:
                s = st.copy() if tv is None else st
                if tv is True or eng.assume(s, e, True) is not False:
                    s.store[ATEND] = C1
                    self.ends(eng, s)
                    out.append((s, t))
            if tv is not True:
                if tv is False or eng.assume(st, e, False) is not False:
                    self.took(eng, st, t, call)
                    out.append((st, t))
            return out
        if call.fid in g.cuts: return self.cut_call(eng, st, call)
        n = call.name or ""
        if n.endswith("::Loc") or n.endswith("::GetLocation"):
            ad = [a for a in call.args]
            errs = [eng.load(st, ("&f", g.this, f)) for f in g.streams]
            if any(a in errs or a in [("&f", g.this, f) for f in g.streams] or self.same_stream(eng, st, a) for a in ad) or n.endswith("GetLocation"): self.said(eng, st)
            return [(st, ad[0] if ad and n.endswith("::Loc") and len(ad) > 1 else eng.fresh("loc", call.node, call.fr))]
        if n.endswith("operator<<") and len(call.args) == 2: return [(st, call.args[0])]
        fn = eng.p.functions.get(call.fid)
        if fn and fn["id"] not in g.inner and fn.get("ret") is not None and fn["_types"][fn["ret"]]["k"] == "ptr":
            v = eng.fresh("made", call.node, call.fr)
            if self.never_null(fn): eng.assume(st, eq0(v), False)
            return [(st, v)]
        if fn and fn["id"] not in g.inner and call.fid not in g.looks and fn["file"].startswith("bant/") and fn.get("rec") not in (g.R.cls, g.R.token["id"]) and not n.endswith("operator="):
            # nodes and the arena know nothing of the token stream or the parser
            return [(st, eng.fresh("r", call.node, call.fr))]
        return None

    def same_stream(self, eng, st, a):
        return any(a == ("ld", ("&f", self.g.this, f), ()) for f in self.g.streams)

    def never_null(self, fn):
        if fn["id"] not in self.nonnull:
            self.nonnull[fn["id"]] = False
            if (fn.get("rec") or "").endswith("Arena"): self.nonnull[fn["id"]] = True    # C01
            elif fn.get("body"):
                class Plain(Rule):
                    def pre_call(s, eng, st, call):
                        f2 = eng.p.functions.get(call.fid)
                        if f2 and (f2.get("rec") or "").endswith("Arena"):
                            v = eng.fresh("made", call.node, call.fr)
                            eng.assume(st, eq0(v), False)
                            return [(st, v)]
                    def inline(s, eng, f, fr): return f["file"].startswith("bant/frontend/") and fr.depth < 4
                try:
                    e = Engine(self.g.p, Plain(), K=50)
                    self.nonnull[fn["id"]] = all(e.truth(s, eq0(v)) is False for s, v in e.run(fn, St(), this=("this", fn.get("rec"))))
                except AnalysisError: pass
        return self.nonnull[fn["id"]]

    def result(self, eng, st, call):
        fn = self.g.inner[call.fid]
        if fn.get("ret") is None or fn["_types"][fn["ret"]]["k"] == "void": return C0
        return eng.fresh("result", call.node, call.fr)

    def cut_call(self, eng, st, call):
        raise NotImplementedError

    def took(self, eng, st, t, call): pass
    def looked(self, eng, st, t): pass
    def ends(self, eng, st): pass
    def said(self, eng, st): pass
    def enters(self, eng, st, call): pass


class Progress(GrammarRule):
    """C05: props say, for each loop being run and for the whole routine, whether a token has been taken since"""
    def __init__(self, g, giving=()):
        super().__init__(g, "progress")
        self.giving = giving     # cut routines whose result is null unless they took a token

    def turn(self, node, fr): return ("turn", node.get("_id"), fr.ctx)

    def took(self, eng, st, t, call):
        for k in st.props: st.props[k] = 1

    def on_loop_entry(self, eng, entries, node, fr):
        super().on_loop_entry(eng, entries, node, fr)
        for s in entries: s.props[self.turn(node, fr)] = 0

    def on_loop_back(self, eng, head, st, node, fr):
        super().on_loop_back(eng, head, st, node, fr)
        for k in [k for k in st.props if k not in head.props]: del st.props[k]
        k = self.turn(node, fr)
        st.props[k] = 0 if st.props.get(k) == 1 else "stale"

    def on_loop_body(self, eng, st, node, fr):
        if node.get("k") == "foreach": return
        k = self.turn(node, fr)
        key = (fr.fn["q"], node.get("l"), node.get("_id"))
        o = self.found.get(key)
        self.found[key] = ((o is None or o[0]) and st.props.get(k) != "stale", fr.fn["file"])
        st.props[k] = 0

    def cut_call(self, eng, st, call):
        g = self.g
        self.edges.append((call.fid, st.props.get("root") == 1, call.node, call.fr))
        st.store.pop(UPC, None)
        st.store[ATEND] = eng.fresh("end", call.node, call.fr)
        for f in g.errs: st.store[("&f", g.this, f)] = eng.fresh("error", call.node, call.fr)
        r = self.result(eng, st, call)
        if call.fid not in self.giving: return [(st, r)]
        out = []
        for none in (True, False):
            s = st.copy() if none else st
            if eng.assume(s, eq0(r), none) is False: continue
            if not none: self.took(eng, s, None, call)
            out.append((s, r))
        return out


class Errors(GrammarRule):
    """C09: follows the paths on which nothing has been reported yet.

    props: err, said   the error is remembered / the place was written
           pend        tokens taken whose kind nothing has been asked about yet
           upk         the kind of the token looked at is known
           open        brackets taken, innermost last
           ("in", d)   a token was taken since the routine at depth d began
    """
    PAIRS = {ord("("): ord(")"), ord("["): ord("]"), ord("{"): ord("}")}

    def __init__(self, g, strict=()):
        super().__init__(g, "errors")
        self.strict = strict         # (cut routine, bool arguments) whose null result means an error was reported
        self.left = set()            # (cut routine, parameter) that may be given nothing
        self.silent = {}             # (routine) -> where it gives up without a message
        self.flags = {("&f", g.this, f) for f in g.errs}

    def start(self, eng, st):
        for a in self.flags: st.store[a] = C0
        st.props.update({("in", 0): 0, "open": ()})

    def dead(self, eng, st): return "err" in st.props and "said" in st.props

    def said(self, eng, st): st.props["said"] = 1

    def on_store(self, eng, st, addr, val, node, fr):
        super().on_store(eng, st, addr, val, node, fr)
        if addr in self.flags and eng.truth(st, val) is True: st.props["err"] = 1
        for x in st.props.get("pend", ()):
            if x == ("at", addr): st.props["pend"] = tuple(eng.load(st, addr) if y == x else y for y in st.props["pend"])

    # ---- tokens taken
    def kind_of(self, eng, st, t):
        """None: not known; "k": known to equal something; a number"""
        ty = fld(t, self.g.R.type)
        if ty[0] == "c": return ty[1]
        for f, x in st.facts.items():
            if x is True and f[0] == "eq0":
                k, d = lin.parts(f[1])
                if abs(d.get(ty, 0)) == 1:
                    if len(d) == 1: return -k * d[ty]
                    return "k"
        return None

    def token(self, eng, st, x): return eng.load(st, x[1]) if x[0] == "at" else x

    def settle(self, eng, st):
        u = st.store.get(UPC)
        if u is not None and u[0] == "same": u = eng.load(st, u[1])
        if u is not None and "upk" not in st.props and self.kind_of(eng, st, u) is not None: st.props["upk"] = 1
        if not st.props.get("pend"): return
        rest = []
        for x in st.props["pend"]:
            k = self.kind_of(eng, st, self.token(eng, st, x))
            if k is None: rest.append(x)
            else: self.known(st, k)
        if rest: st.props["pend"] = tuple(rest)
        else: st.props.pop("pend")

    def known(self, st, k):
        o = st.props["open"]
        if k in self.PAIRS: st.props["open"] = o + (self.PAIRS[k],)
        elif k in self.PAIRS.values():
            if o and o[-1] == k: st.props["open"] = o[:-1]
            else: st.props["open"] = o + (("close", k),)

    def on_branch(self, eng, st, term, truth, node, fr):
        super().on_branch(eng, st, term, truth, node, fr)
        self.settle(eng, st)

    def looked(self, eng, st, t): st.props.pop("upk", None)

    def took(self, eng, st, t, call):
        for k in st.props:
            if isinstance(k, tuple) and k[0] == "in": st.props[k] = 1
        if t is None: return
        k = self.kind_of(eng, st, t)
        if k is None and not (getattr(call, "upc", False) and "upk" in st.props):
            st.props["pend"] = st.props.get("pend", ()) + (t,)
        elif k is not None: self.known(st, k)
        st.props.pop("upk", None)

    def ends(self, eng, st): st.props.pop("upk", None)

    def enters(self, eng, st, call): st.props[("in", call.fr.depth + 1)] = 0

    def on_loop_back(self, eng, head, st, node, fr):
        for k in [k for k in st.props if isinstance(k, tuple) and k not in head.props]: del st.props[k]
        self.settle(eng, st)
        if st.props.get("pend"):
            rest = []
            for x in st.props["pend"]:
                if x[0] == "at": rest.append(x); continue
                at = sorted((a for a, v in st.store.items() if v == x and a[0] == "&v"), key=repr)
                if at: rest.append(("at", at[-1]))
                elif not self.dead(eng, st): self.gives_up(fr.fn, fr, "takes a token in a loop without comparing it to what is expected")
            if rest: st.props["pend"] = tuple(sorted(set(rest), key=repr))
            else: st.props.pop("pend")
        super().on_loop_back(eng, head, st, node, fr)
        if st.props["open"] != head.props["open"]:
            if not self.dead(eng, st): self.gives_up(fr.fn, fr, "opens or closes a bracket each time around a loop")
            st.props["open"] = head.props["open"]

    def on_ret(self, eng, st, val, fr):
        super().on_ret(eng, st, val, fr)
        moved = st.props.pop(("in", fr.depth), None)
        if self.dead(eng, st): return
        if moved == 1 and val is not None and fr.fn.get("ret") is not None and fr.fn["_types"][fr.fn["ret"]]["k"] == "ptr" and eng.truth(st, eq0(val)) is True and "err" not in st.props:
            self.gives_up(fr.fn, fr, "gives up after taking a token, without reporting an error")
        elif val is not None and fr.fn.get("ret") is not None and fr.fn["_types"][fr.fn["ret"]]["k"] == "ptr" and ("err" in st.props) != ("said" in st.props):
            self.gives_up(fr.fn, fr, "remembers an error without saying where" if "err" in st.props else "says where an error is without remembering it")
            st.props["err"] = st.props["said"] = 1
        elif fr.fn["id"] in self.g.inner: self.silent.setdefault((fr.fn["q"], "%s:%s" % (fr.fn["file"], fr.fn["line"])), None)

    def gives_up(self, fn, fr, what): self.silent[(fn["q"], "%s:%s" % (fn["file"], fn["line"]))] = what + " (" + fr.chain() + ")"

    # ---- calls of cut routines
    def bools(self, eng, st, fn, args):
        r = []
        for q, a in zip(fn["params"], args):
            if fn["_types"][q["t"]]["k"] == "bool": r.append({True: 1, False: 0}.get(eng.truth(st, a)))
        return tuple(r)

    def cut_call(self, eng, st, call):
        g = self.g
        fn = g.inner[call.fid]
        b = self.bools(eng, st, fn, call.args)
        if not self.dead(eng, st):
            for i, (q, a) in enumerate(zip(fn["params"], call.args)):
                if fn["_types"][q["t"]]["k"] == "ptr" and eng.truth(st, eq0(a)) is not False: self.left.add((call.fid, i))
        r = self.result(eng, st, call)
        null = fn.get("ret") is not None and fn["_types"][fn["ret"]]["k"] == "ptr"
        strict = all((call.fid, x) in self.strict for x in expand(b))
        out = []
        if null and not strict:
            s = st.copy()
            if eng.assume(s, eq0(r), True) is not False: out.append((s, r))
        if null and eng.assume(st, eq0(r), False) is False: return out
        st.store.pop(UPC, None)
        st.props.pop("upk", None)
        st.store[ATEND] = eng.fresh("end", call.node, call.fr)
        self.took(eng, st, None, call)
        out.append((st, r))
        return out


def expand(b):
    r = [()]
    for x in b: r = [y + (z,) for y in r for z in ((0, 1) if x is None else (x,))]
    return r
