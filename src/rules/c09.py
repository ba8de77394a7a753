"""C09: every parse error is reported and makes the file count as faulty."""
import itertools
from bsa import lin
from bsa.engine import Engine, Rule, St, c, C0, C1, eq0, show
from bsa.prog import AnalysisError, walk, fn_nodes
from bsa.grammar import Grammar, Errors, ATEND, UPC, expand

TECHNIQUE = "typestate on the token stream: abstract interpretation of every path of the parser on which no error was reported, and of the code that uses the parser"
NOTE = "Says that what the parser gives up on is reported, not that it accepts the right language."
EXPLANATION = ("Tokens are unknown. On every path of the parser without a reported error, each token taken must have been compared to what is expected, brackets opened must have been closed, a grammar routine may return nothing only when it took nothing, and the parser is only done at the end of "
               "the file. Reporting means: the place is written to the error stream and the error is remembered. No assignment may forget an error. Where the parser is used, an error must lead to the message being passed on and kept, and to the project's error count growing.")
UNITS = ["bant/frontend/parser.cc", "bant/frontend/parsed-project.cc"]


def check(p, rep, tier):
    g = Grammar(p)
    if not g.errs: raise AnalysisError("parser does not remember errors")
    combos = {}
    for fid in g.cuts:
        n = sum(1 for q in g.inner[fid]["params"] if g.inner[fid]["_types"][q["t"]]["k"] == "bool")
        combos[fid] = list(itertools.product((0, 1), repeat=n))
    strict = {(fid, x) for fid in g.cuts for x in combos[fid]}
    given = {(fid, i) for fid in g.cuts for i, q in enumerate(g.inner[fid]["params"]) if g.inner[fid]["_types"][q["t"]]["k"] == "ptr"}     # what no call leaves out
    while True:
        runs = []
        for fid in g.entries: runs.append((fid, None) + run(p, g, fid, None, strict, given))
        for fid in g.cuts:
            for x in combos[fid]: runs.append((fid, x) + run(p, g, fid, x, strict, given))
        left = {k for r in runs for k in r[3].left}
        if given & left:
            given -= left
            continue
        bad = {(fid, x) for fid, x, e, rule, outs in runs if (fid, x) in strict and any(v is not None and ptr(g.inner[fid]) and e.truth(s, eq0(v)) is not False for s, v in outs)}
        if not bad: break
        strict -= bad
    for fid in g.cuts:
        if ptr(g.inner[fid]):
            rep.ob("missing-reported", g.inner[fid]["q"], where(g.inner[fid]), any((fid, x) in strict for x in combos[fid]), "may return nothing without reporting an error, however it is called")
    for fid, x, e, rule, outs in runs:
        rep.eng(e)
        f = g.inner[fid]
        for (q, w), what in sorted(rule.silent.items()): rep.ob("no-silent-null", q, w, what is None, what or "")
        for s, v in outs:
            if rule.dead(e, s): continue
            k = f["q"] + ("" if x is None else str(list(x)))
            rep.ob("message-and-mark", k, where(f), ("err" in s.props) == ("said" in s.props), "remembers an error without saying where" if "err" in s.props else "says where an error is without remembering it")
            if "err" in s.props: continue
            rep.ob("tokens-checked", k, where(f), not s.props.get("pend"), "accepts a token without having compared it to what is expected")
            rep.ob("brackets-closed", k, where(f), not s.props["open"], "accepts input in which brackets do not match")
            if fid in g.entries: rep.ob("whole-file", k, where(f), s.store.get(ATEND) == C1, "is done before the end of the file without an error")
    kept(p, rep, g)
    users(p, rep, g)
    rep.notes.append("errors remembered in %s; nothing without an error only for %s" % (", ".join(g.errs), ", ".join(sorted("%s%s" % (g.inner[a]["q"], list(b)) for a in g.cuts for b in combos[a] if (a, b) not in strict)) or "none"))
    for r, n in (("no-silent-null", 5), ("tokens-checked", 2), ("brackets-closed", 2), ("whole-file", 1), ("never-forgotten", 1), ("asked", 1), ("flag-returned", 1), ("counted", 1), ("passed-on", 1), ("stored", 1)): rep.require(r, n)


def ptr(f): return f.get("ret") is not None and f["_types"][f["ret"]]["k"] == "ptr"
def where(f): return "%s:%s" % (f["file"], f["line"])


def run(p, g, fid, combo, strict, given=()):
    rule = Errors(g, strict)
    e = Engine(p, rule, K=16, max_depth=24)
    st = St()
    g.fresh_state(e, st)
    rule.start(e, st)
    f = g.inner[fid]
    if fid in g.cuts: st.store[ATEND] = e.created(("sym", "end before"))
    args = []
    vals = list(combo or ())
    for q in f["params"]:
        if f["_types"][q["t"]]["k"] == "bool" and vals: args.append(c(vals.pop(0)))
        else: args.append(("param", fid, q["id"]))
    for i, a in enumerate(args):
        if (fid, i) in given: e.assume(st, eq0(a), False)
    return e, rule, e.run(f, st, this=g.this, args=args)




class Assigns(Rule):
    """with the error remembered, what does each assignment leave?"""
    def __init__(self, g): self.g, self.seen = g, []
    def inline(self, eng, fn, fr): return fn["id"].startswith("lambda@")
    def on_store(self, eng, st, addr, val, node, fr):
        if addr[0] == "&f" and addr[2] in self.g.errs: self.seen.append((fr, node, eng.truth(st, val) is True))


def kept(p, rep, g):
    n = 0
    for f in p.functions.values():
        if f.get("ctor") or not f.get("body") or f["id"].startswith("lambda@") or not any(n.get("k") == "mem" and n.get("f") in g.errs for n in fn_nodes(f)): continue
        rule = Assigns(g)
        e = Engine(p, rule, K=40)
        st = St()
        this = g.this if f.get("rec") == g.cls else ("this", f.get("rec"))
        for x in g.errs: st.store[("&f", g.this, x)] = C1
        outs = e.run(f, st, this=this)
        for fr, node, ok in rule.seen: rep.ob("never-forgotten", fr.fn["q"], fr.where(node), ok, "an error remembered before may be forgotten here")
        if f.get("ret") is not None and f["_types"][f["ret"]]["k"] == "bool" and f.get("rec") == g.cls and not rule.seen:
            rep.ob("flag-returned", f["q"], where(f), all(e.truth(s, v) is True for s, v in outs), "says there was no error although one is remembered")
            st = St()
            for x in g.errs: st.store[("&f", g.this, x)] = C0
            e2 = Engine(p, Assigns(g), K=40)
            rep.ob("flag-returned", f["q"], where(f), all(e2.truth(s, v) is False for s, v in e2.run(f, st, this=this)), "says there was an error although none is remembered")
            g.tells = getattr(g, "tells", set()) | {f["id"]}


class User(Rule):
    def __init__(self, g, parse, tell, F): self.g, self.parse, self.tell, self.F, self.direct = g, parse, tell, F, []
    def inline(self, eng, fn, fr): return fn["file"] == self.F["file"]

    def val(self, eng, st, a): return eng.load(st, a) if a[0] in ("&v", "&t", "&f") else a

    def pre_call(self, eng, st, call):
        n = call.name or ""
        fn = eng.p.functions.get(call.fid)
        if fn and fn.get("ctor") and call.fid in self.g.made:
            for q, a in zip(fn["params"], call.args):
                if "ostream" in fn["_types"][q["t"]]["s"]: st.store[("&g", "errors of", call.obj)] = a
            return [(st, call.obj)]
        if call.fid in self.parse:
            o = st.store[("&g", "stream")] = st.store.get(("&g", "errors of", call.obj), C0)
            own = o[0] in ("&v", "&t")
            if not own: self.direct.append((call, any(x[0] == "call" and x[1] == "session stream" for x in (o, eng.load(st, o) if o[0] == "&f" else o))))
            else: st.props["parsed"] = ()
            return [(st, eng.fresh("tree", call.node, call.fr))]
        if call.fid in self.tell:
            t = st.copy()
            t.props["bad"], st.props["bad"] = 1, 0
            return [(t, C1), (st, C0)]
        if n.endswith("::str") and call.obj is not None and not call.args:
            if "parsed" in st.props and call.obj == st.store.get(("&g", "stream")): return [(st, ("call", "errors", (call.obj,)))]
            return [(st, eng.fresh("text", call.node, call.fr))]
        text = [a for a in call.args if self.is_text(eng, st, a)]
        if n.endswith("operator<<"):
            if text and call.args and call.args[0][0] == "call" and call.args[0][1] == "session stream": st.props["passed"] = 1
            return [(st, call.args[0] if call.args else eng.fresh("out", call.node, call.fr))]
        if fn and "Session" in (fn.get("rec") or "") and fn.get("ret") is not None and fn["_types"][fn["ret"]]["k"] == "ref" and "ostream" in fn["_types"][fn["ret"]]["s"]:
            return [(st, ("call", "session stream", (call.obj, ("str", fn["name"]))))]
        if text and call.obj is not None and (n.endswith("operator=") or n.endswith("::assign") or n.endswith("::swap") or n.endswith("::append") or n.endswith("operator+=")):
            if call.obj[0] == "&f": st.props["stored"] = 1
            st.store[call.obj] = ("call", "errors", (st.store.get(("&g", "stream")),))
            return [(st, call.obj)]
        return None

    def is_text(self, eng, st, a):
        a = self.val(eng, st, a)
        for _ in range(4):
            if a[0] == "call" and a[1] == "errors": return True
            if a[0] == "ctor" and len(a[2]) >= 1: a = self.val(eng, st, a[2][0])
            else: return False

    def on_store(self, eng, st, addr, val, node, fr):
        if addr[0] == "&f" and self.is_text(eng, st, val): st.props["stored"] = 1
        if addr[0] == "&f" and addr[1] == ("this", self.F.get("rec")):
            d = lin.add(val, eng.load(st, addr), -1)
            if d == C1: st.props["counted"] = st.props.get("counted", 0) + 1


def users(p, rep, g):
    tells = getattr(g, "tells", set())
    unit = {f["id"]: f for f in p.functions.values() if f["file"].rpartition(".")[0] == g.unit.rpartition(".")[0] and f["id"] not in g.inner}
    calls = lambda f: {x for x, _ in p.calls.get(f["id"], ())}
    parse, tell = set(g.entries), set(tells)
    while True:
        a = {i for i, f in unit.items() if calls(f) & parse and not f.get("ctor")} - parse
        b = {i for i, f in unit.items() if calls(f) & tell and not f.get("ctor")} - tell
        if not a and not b: break
        parse |= a; tell |= b
    recs = {p.functions[i].get("rec") for i in parse} | {g.cls}
    g.made = {f["id"] for f in p.functions.values() if f.get("ctor") and f.get("rec") in recs}
    n = 0
    for F in sorted(p.functions.values(), key=lambda f: f["id"]):
        if F["id"] in unit or F["id"] in g.inner or not F["file"].startswith("bant/") or "_test" in F["file"] or not calls(F) & parse: continue
        n += 1
        rule = User(g, parse, tell, F)
        e = Engine(p, rule, K=60)
        outs = e.run(F, St())
        rep.eng(e)
        for call, ok in rule.direct: rep.ob("passed-on", F["q"], call.where(), ok, "gives the parser an error stream nobody is known to read")
        for s, v in outs:
            if "parsed" not in s.props: continue
            rep.ob("asked", F["q"], where(F), "bad" in s.props, "does not ask whether the file could be parsed")
            if s.props.get("bad") == 1:
                rep.ob("passed-on", F["q"], where(F), "passed" in s.props, "does not pass on the messages of the parser")
                rep.ob("stored", F["q"], where(F), "stored" in s.props, "does not keep the messages of the parser with the file")
                rep.ob("counted", F["q"], where(F), s.props.get("counted") == 1, "does not count the file as faulty once")
            elif s.props.get("bad") == 0:
                rep.ob("counted", F["q"], where(F), not s.props.get("counted"), "counts a file without errors as faulty")
    rep.notes.append("%d places use the parser" % n)
