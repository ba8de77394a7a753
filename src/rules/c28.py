"""C28: the number of edits that is reported and the exit status agree with what was emitted."""
from bsa.edits import is_edit_type
from bsa.engine import Engine, Rule, C0, C1, c, show
from bsa.prog import AnalysisError, norm_name, fn_nodes, walk
from bsa.cmdline import production
from bsa import lin

TECHNIQUE = "path-sensitive balance of counter increments and emissions; the result and the exit status are followed to the caller and to main()"
NOTE = ("That one call of the edit callback writes one edit is C12's. Errors in BUILD files are not failures of a command, as documented: they are counted (C09) and reported.")
EXPLANATION = ("In every routine that is given an edit callback and returns a number, emissions and increments of the returned counter balance at the end of every round of every loop and of every path, also in the function objects it hands on; the callback goes nowhere else. "
               "Whoever calls such a routine returns a status other than success exactly if the number may be positive. Exit statuses are handed up unchanged to main(), which only returns success on its own if that was asked for by an option; an error message directly before a return goes along with a status that says so.")
UNITS = ["bant/tool/dwyu.cc", "bant/tool/canon-targets.cc", "bant/tool/edit-callback.cc", "bant/cli-commands.cc", "bant/bant.cc", "bant/session.h"]


def edit_routines(p):
    res = []
    for f in p.functions.values():
        if not production(f) or not f.get("body") or f.get("ctor") or f["id"].startswith("lambda@"): continue
        if f["_types"][f["ret"]]["k"] != "int": continue
        for x in f["params"]:
            t = f["_types"][x["t"]]
            u = f["_types"][t["to"]] if t["k"] in ("ref", "rref", "ptr") else t
            if is_edit_type(u) or is_edit_type(t): res.append((f, x["id"]))
    return res


class Balance(Rule):
    peel = False

    def __init__(self, p, cb, counters):
        self.p, self.cb, self.counters = p, cb, counters
        self.bad, self.n = {}, 0

    def inline(self, eng, fn, fr): return False

    def pre_call(self, eng, st, call):
        n = call.node
        o = n.get("obj")
        if n["k"] == "call" and norm_name(call.name or "").endswith("operator()") and isinstance(o, dict) and o.get("t", -1) is not None and o.get("t", -1) >= 0 and is_edit_type(call.fr.types[o["t"]]):
            st.props["bal"] = st.props.get("bal", 0) - 1
            st.props["looped"] = True
            self.n += 1
            if abs(st.props["bal"]) > 2: return []
            return [(st, C0)]
        return None

    def pre_lambda(self, eng, st, lam, args, fr, node): return [(st, eng.fresh("lam", node, fr))]

    def counter(self, a):
        while a[0] == "&f": a = a[1]
        return a[0] in ("&v", "&c", "param") and a[-1] in self.counters or a[0] == "ld" and self.counter(a[1])

    def on_store(self, eng, st, addr, val, node, fr):
        if not self.counter(addr): return
        old = eng.load(st, addr)
        d = lin.add(val, old, -1)
        started = self.inner or st.props.get("looped")
        if val == C0 and not started: pass  # before anything was emitted
        elif d[0] == "c" and not (val == C0 and started): st.props["bal"] = st.props.get("bal", 0) + d[1]
        else: self.bad.setdefault("%s:%s" % (fr.fn["file"], node.get("l")), "the counter of edits is set to %s" % show(val)[:60])
        if abs(st.props.get("bal", 0)) > 3: st.props["bal"] = 3

    def on_loop_body(self, eng, st, node, fr, *a): st.props["looped"] = True

    def on_loop_back(self, eng, head, st, node, fr): self.even(st, "%s:%s" % (fr.fn["file"], node.get("l")))

    def even(self, st, w):
        b = st.props.get("bal", 0)
        if b: self.bad.setdefault(w, "more edits are emitted than counted" if b < 0 else "more edits are counted than emitted")


def callback_uses(p, f, cb):
    """references to the callback other than as what is called"""
    bodies = [f] + [p.functions[x["f"]] for n in [f] for x in fn_nodes(f) if x.get("k") == "lambda" and x.get("f") in p.functions]
    seen, res = set(), []
    todo = list(bodies)
    while todo:
        g = todo.pop()
        if g["id"] in seen: continue
        seen.add(g["id"])
        called = set()
        for n in fn_nodes(g):
            if n.get("k") == "lambda" and n.get("f") in p.functions: todo.append(p.functions[n["f"]])
            if n.get("k") == "call" and norm_name(n.get("n") or "").endswith("operator()") and isinstance(n.get("obj"), dict): called |= {id(x) for x in walk(n["obj"])}
        for n in fn_nodes(g):  # what a function object captures is looked at in the function object
            if n.get("k") == "lambda": called |= {id(x) for x in walk(n)}
        for n in fn_nodes(g):
            if n.get("k") == "var" and n.get("id") == cb and id(n) not in called: res.append((g, n))
    return [p.functions[x] for x in seen], res


def check(p, rep, tier):
    routines = edit_routines(p)
    if len(routines) < 2: raise AnalysisError("routines that emit edits not found")
    ids = {f["id"] for f, cb in routines}
    for f, cb in routines:
        where = "%s:%s" % (f["file"], f["line"])
        bodies, uses = callback_uses(p, f, cb)
        passed = []
        for g, n in uses:
            # handed to another routine that counts, whose result is taken over
            ok = any(m.get("k") == "call" and m.get("f") in ids and any(x is n for x in walk(m)) for m in fn_nodes(g))
            if not ok: passed.append("%s:%s" % (g["file"], n.get("l")))
        rep.ob("callback-only-called", f["q"], where, not passed, "the callback is handed on without counting at %s" % ", ".join(passed))
        rets = [n for n in fn_nodes(f) if n.get("k") == "ret"]
        counters = {x["id"] for n in rets for x in walk(n.get("e") or {}) if x.get("k") == "var"}
        counters -= {x["id"] for x in f["params"]}
        emitted = 0
        for g in bodies:
            r = Balance(p, cb, counters)
            r.inner = g is not f
            e = Engine(p, r, K=200)
            outs = e.run(g, this=("this", g["rec"]) if g.get("rec") and not g.get("static") else None)
            rep.eng(e)
            for s, v in outs:
                r.even(s, "%s:%s" % (g["file"], g["line"]))
                if g is f and v is not None:
                    known = [a for a in s.store if r.counter(a)]
                    if v[0] == "c" and v[1] == 0 and s.props.get("bal", 0) == 0: pass
                    elif known and not any(e.load(s, a) == v for a in known): r.bad.setdefault(where, "returns %s instead of the number of edits" % show(v)[:60])
            emitted += r.n
            if r.n or r.bad or g is f:
                rep.ob("counted-once", f["q"] + ("" if g is f else ":" + g["id"].rpartition("/")[2].split("@")[0]), "%s:%s" % (g["file"], g["line"]), not r.bad, "; ".join("%s: %s" % x for x in sorted(r.bad.items())) or "%d emissions" % r.n)
        delegated = any(x in ids and x != f["id"] for x, n in p.calls.get(f["id"], ()))
        rep.ob("emits-or-delegates", f["q"], where, emitted > 0 or delegated, "never calls the callback it is given")
    rep.require("counted-once", 2)
    status(p, rep, ids)


def is_status(t): return t["k"] == "enum" and "Status" in (t.get("rec") or t.get("s") or "")


class Status(Rule):
    peel = False

    def __init__(self, p, ids, srets):
        self.p, self.ids, self.srets = p, ids, srets
        self.edits, self.stat = {}, {}
        self.ret_at = {}

    def inline(self, eng, fn, fr):
        # helpers that hand a status given to them through
        return fn["file"] == fr.fn["file"] and fn["_types"][fn["ret"]]["k"] == "int" and fn["id"] not in self.srets and not any(n.get("k") in ("for", "while", "do", "foreach") for n in fn_nodes(fn)) and fr.depth < 2

    def post_call(self, eng, st, call, ret):
        nm = norm_name(call.name or "").rpartition("::")[2]
        if call.fid in self.ids and ret is not None:
            self.edits[ret] = call
            st.props["edits"] = ret
        if call.fid in self.srets and ret is not None:
            self.stat[ret] = call
            st.props["status"] = ret
        if nm in ("getopt", "getopt_long") and ret is not None: st.props["opt"] = ret
        if nm == "error" and call.obj is not None: st.props["err"] = True
        if nm == "operator<<" and any(a[0] == "&g" and str(a[1]).endswith("cerr") for a in call.args): st.props["err"] = True

    def on_branch(self, eng, st, term, truth, node, fr): st.props.pop("err", None)


def status(p, rep, ids):
    srets = {f["id"] for f in p.functions.values() if production(f) and f.get("body") and is_status(f["_types"][f["ret"]])}
    callers = sorted({f["id"] for f in p.functions.values() if production(f) and f["id"] not in ids and any(x in ids or x in srets for x, n in p.calls.get(f["id"], ()))} | srets)
    if not srets: raise AnalysisError("no routine that returns an exit status found")
    for fid in callers:
        f = p.functions[fid]
        r = Status(p, ids, srets)
        e = Engine(p, r, K=400, max_depth=3)
        bad = {}
        n = 0
        outs = e.run(f, this=("this", f["rec"]) if f.get("rec") and not f.get("static") else None)
        is_main = f["name"] == "main"
        for s, v in outs:
            if v is None: continue
            n += 1
            ed = s.props.get("edits")
            if ed is not None:
                may = not e.entails(s, lin.add(c(0), ed, -1))
                must = e.entails(s, lin.add(ed, c(1), -1))
                if may and (v[0] == "c" and v[1] == 0): bad["edits-tell"] = "success is returned although edits may have been proposed"
                if not may and v[0] == "c" and v[1] != 0: bad["edits-tell"] = "the status tells of edits although none were proposed"
                if v[0] != "c" and v not in r.stat: bad["edits-tell"] = "the status does not depend on whether edits were proposed"
                rep_key = True
            sv = s.props.get("status")
            if sv is not None:
                if not (v == sv or v[0] != "c" and any(x == sv for x in subs(v)) or v[0] == "c" and e.entails(s, lin.add(v, sv, -1)) and e.entails(s, lin.add(sv, v, -1))): bad["status-handed-up"] = "%s is returned whatever the status of the command is" % show(v)[:40]
            elif ed is None and is_main and v == C0:
                if not asked_for(e, s): bad["own-success"] = "success is returned without having run a command, and not because an option asks for it"
            if s.props.get("err") and v == C0: bad["error-tells"] = "success is returned right after an error message"
        for rq in ("edits-tell", "status-handed-up", "error-tells") + (("own-success",) if is_main else ()):
            if rq == "edits-tell" and not r.edits or rq == "status-handed-up" and not r.stat: continue
            rep.ob(rq, f["q"], "%s:%s" % (f["file"], f["line"]), rq not in bad, bad.get(rq) or "%d paths" % n)
        rep.eng(e)
    rep.require("edits-tell", 1)
    rep.require("status-handed-up", 2)


def subs(v):
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            if x: yield x
            todo += [y for y in x if isinstance(y, tuple)]


def asked_for(e, s):
    """the option that was read last is a known one; an unknown one is reported by getopt() as '?'"""
    o = s.props.get("opt")
    if o is None: return False
    d = lin.add(o, c(ord("?")), -1)
    if not e.entails(s, lin.add(o, c(1), -1)): return False  # all options were read
    return e.entails(s, lin.add(d, c(1), -1)) or e.entails(s, lin.add(lin.scale(d, -1), c(1), -1))

