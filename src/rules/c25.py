"""C25: dependency graph: both directions agree and building it terminates."""
from bsa.engine import Engine, Rule, C0, c, eq0, show
from bsa.prog import AnalysisError, norm_name, fn_nodes, walk
from bsa.cmdline import production
from bsa import lin

TECHNIQUE = "path-sensitive pairing of the insertions into both maps; typestate of the work list (absent from graph and list when enqueued, taken off when expanded); rounds counted by abstract interpretation per depth"
NOTE = ("That following dependencies reads the right attributes is C12's and C26's. Termination rests on the number of targets of a project being finite: every round that is followed by another has expanded a target that had not been expanded before.")
EXPLANATION = ("In the routine that builds the graph, on every path each target added to the list of one direction goes along with the reverse entry in the other direction before the round of the loop ends. "
               "Entries are only made for a target that has just been taken off the work list, which succeeded; a target is only put on the list for the next round if it is known to be neither in the graph nor waiting, with the target being expanded already in the graph. "
               "The list for the next round starts empty and replaces the current one; another round only follows if it is not empty, and with depth 0, 1 and 2 there are at most 1, 2 and 3 rounds.")
UNITS = ["bant/explore/dependency-graph.cc"]


def builders(p):
    for f in p.functions.values():
        if not production(f) or not f.get("body") or f.get("ctor") or f.get("ret", -1) < 0 or f["id"].startswith("lambda@") or f.get("implicit"): continue
        t = f["_types"][f["ret"]]
        r = p.records.get(t.get("rec")) if t["k"] == "rec" else None
        if not r or len(r["fields"]) != 2: continue
        a, b = r["fields"]
        if a["type"] != b["type"] or "map" not in str(r["_types"][a["type"]]): continue
        yield f, r


def plain(eng, st, v):
    for _ in range(6):
        if v[0] in ("&v", "&t", "&f"): v = eng.load(st, v)
        elif v[0] == "ctor" and len(v[2]) == 1: v = v[2][0]
        else: break
    return v


def inside(v):
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            yield x
            todo += x


MAKE = ("insert", "emplace", "try_emplace", "operator[]", "insert_or_assign")
PUSH = ("push_back", "emplace_back", "insert", "emplace", "append")
LOOK = ("contains", "count", "find")


class Graph(Rule):
    peel = False

    def __init__(self, p, f, r, outer):
        self.p, self.f, self.outer = p, f, outer
        self.flds = {x["id"]: x["name"] for x in r["fields"]}
        self.slot, self.looked = {}, {}
        self.bad = {}
        self.n = {"pushes": 0, "makes": 0, "enqueues": 0}
        self.rounds = 0
        self.queues = set()
        self.forward = None

    def inline(self, eng, fn, fr):
        if fn["id"].startswith("lambda@"): return True
        T = fn["_types"]
        def t(i):
            while T[i]["k"] in ("ref", "ptr", "rref"): i = T[i]["to"]
            return T[i]
        return bool(fn.get("body")) and fn["file"] == self.f["file"] and fr.depth < 4 and any(
            t(q["t"])["k"] == "rec" and (t(q["t"]).get("rec") == self.f["_types"][self.f["ret"]].get("rec") or "BazelTarget" in str(t(q["t"]).get("s")) and not T[q["t"]].get("const")) for q in fn["params"])

    def err(self, rule, fr, node, msg): self.bad.setdefault((rule, "%s:%s" % (fr.fn["file"], node.get("l"))), msg)

    def field(self, a):
        """the direction a map or one of its entries belongs to: (field, key)"""
        if a[0] == "&f" and a[2] in self.flds: return a[2], None
        for x in inside(a):
            if x in self.slot: return self.slot[x]
        return None

    def queue(self, eng, call):
        o = call.node.get("obj")
        t = eng.typ(call.fr, o.get("t")) if o else {}
        s = (t.get("s") or t.get("q") or "")
        return call.obj is not None and call.obj[0] == "&v" and "BazelTarget" in s and ("set" in s or "vector" in s or "deque" in s) and "map" not in s.split("<")[0]

    def post_call(self, eng, st, call, ret):
        n, nm = call.node, (call.name or "").rpartition("::")[2]
        if call.obj is None or not n.get("ext"): return
        args = [plain(eng, st, eng.rval(st, a, d)) for a, d in zip(call.args, n.get("a", []))]
        fl = self.field(call.obj)
        if fl and fl[1] is None:
            if nm in LOOK and args: self.looked[ret] = (nm, fl[0], args[0])
            if nm in ("find", "at") and args: self.slot[ret] = (fl[0], args[0])
            if nm in MAKE and args:
                k = args[0]
                if k[0] == "ctor" and "pair" in k[1]: k = plain(eng, st, k[2][0])
                self.slot[ret] = (fl[0], k)
                self.n["makes"] += 1
                if self.taken(eng, st, k):
                    st.props["made"] = st.props.get("made", frozenset()) | {(fl[0], k)}
                    self.forward = self.forward or fl[0]
                elif fl[0] == self.forward: self.err("expanded-once", call.fr, n, "an entry is made for a target that was not just taken off the work list")
            return
        if fl and nm in PUSH and args:
            k, v = fl[1], args[-1]
            self.n["pushes"] += 1
            pend = set(st.props.get("pend", frozenset()))
            other = [(g, v, k) for g in self.flds if g != fl[0] and (g, v, k) in pend]
            if other: pend.discard(other[0])
            else: pend.add((fl[0], k, v))
            if len(pend) > 4: pend = set(sorted(pend, key=str)[:4])
            st.props["pend"] = frozenset(pend)
            if fl[0] == self.forward and not self.taken(eng, st, k): self.err("expanded-once", call.fr, n, "dependencies are added to a target that was not just taken off the work list")
            return
        if self.queue(eng, call):
            q = call.obj
            if nm in LOOK and args: self.looked[ret] = (nm, q, args[0])
            elif nm in ("erase", "extract", "remove") and args:
                k = args[0]
                if k in self.looked and self.looked[k][0] == "find" and self.looked[k][1] == q: k, ret = self.looked[k][2], ("lin",)
                st.props["taken"] = (q, k, ret, self.present(eng, st, q, k))
                st.props.pop("made", None)
            elif nm in ("insert", "emplace", "push_back", "emplace_back") and len(args) == 1 and st.props.get("round") and st.props.get("taken"): self.enqueue(eng, st, call, q, args[0])
            elif nm == "clear":
                for k in ("dirty", "stale"): st.props[k] = st.props.get(k, frozenset()) - {q}
            elif nm in ("operator=", "swap") and args:
                a = call.args[0]
                st.props["assigned"] = (q, a if a[0] == "&v" else None, self.before)
        return

    def pre_call(self, eng, st, call):
        n, nm = call.node, (call.name or "").rpartition("::")[2]
        self.before = None
        if nm in ("swap", "exchange") and call.obj is None and len(call.args) == 2 and all(a[0] == "&v" for a in call.args) and self.outer and st.props.get("round"):
            a, b = call.args
            x, y = eng.load(st, a), eng.load(st, b)
            q = a if b in self.queues else b
            eng.do_store(st, a, y, n, call.fr)
            if nm == "swap": eng.do_store(st, b, x, n, call.fr)
            st.props["assigned"] = (q, b if q == a else a, None)
            return [(st, x)]
        if nm in ("operator=", "swap") and call.obj is not None and self.queue(eng, call) and call.args:
            self.before = plain(eng, st, eng.rval(st, call.args[0], n["a"][0])) if call.args[0][0] != "&v" else eng.load(st, call.args[0])
        return None

    def taken(self, eng, st, k):
        x = st.props.get("taken")
        return x is not None and x[1] == k and (x[3] or x[2] != ("lin",) and (eng.entails(st, lin.add(x[2], c(-1))) or eng.truth(st, eq0(x[2])) is False))

    def present(self, eng, st, where, v):
        for ret, (nm, w, x) in self.looked.items():
            if w != where or x != v: continue
            if nm == "contains" and eng.truth(st, ret) is True: return True
            if nm == "count" and eng.truth(st, eq0(ret)) is False: return True
            if nm == "find" and any(not k and t[0] == "eq" and ret in t for t, k in st.facts.items()): return True
        return False

    def absent(self, eng, st, where, v):
        for ret, (nm, w, x) in self.looked.items():
            if w != where or x != v: continue
            if nm == "contains" and eng.truth(st, ret) is False: return True
            if nm == "count" and eng.truth(st, eq0(ret)) is True: return True
            if nm == "find" and any(k and t[0] == "eq" and ret in t for t, k in st.facts.items()): return True
        return False

    def enqueue(self, eng, st, call, q, v):
        n = call.node
        self.n["enqueues"] += 1
        self.queues.add(q)
        st.props["dirty"] = st.props.get("dirty", frozenset()) | {q}
        if q in st.props.get("stale", ()): self.err("starts-empty", call.fr, n, "the list for the next round still has what was found in an earlier one")
        todo, k = st.props["taken"][:2]
        if not self.taken(eng, st, k): self.err("enqueued-once", call.fr, n, "targets are put on the list without one having been expanded")
        made = st.props.get("made", frozenset())
        if not any(self.absent(eng, st, g, v) and (g, k) in made for g in self.flds):
            self.err("enqueued-once", call.fr, n, "a target is put on the list that may be in the graph already" if made else "a target is put on the list before the one being expanded is in the graph")
        if q != todo and not self.absent(eng, st, todo, v): self.err("enqueued-once", call.fr, n, "a target is put on the list for the next round that may still be waiting in this one")

    def on_loop_body(self, eng, st, node, fr):
        if node is self.outer:
            st.props["round"] = k = min(st.props.get("round", 0) + 1, 5)
            st.props.pop("taken", None)
            st.props.pop("made", None)
            st.props["stale"] = st.props["dirty"] = frozenset(q for q in st.props.get("dirty", ()) if q[2] not in self.inner)
            self.rounds = max(self.rounds, k)

    def on_loop_back(self, eng, head, st, node, fr):
        self.even(st, fr, node)
        if node is not self.outer: return
        a = st.props.pop("assigned", None)
        if a is None:
            self.err("replaced", fr, node, "the work list is not replaced by what was found in the round")
            return
        q, src, val = a
        if src is not None and src not in self.queues or src is None and not any(x in self.queues for x in inside(val)): self.err("replaced", fr, node, "the work list is not replaced by what was found in the round")
        new = eng.load(st, q)
        if eng.truth(st, self.size0(eng, new)) is not False: self.err("stops", fr, node, "another round follows although nothing new may have been found")

    def size0(self, eng, v):
        from bsa.engine import size_of
        return eq0(size_of(v))

    def even(self, st, fr, node):
        for g, k, v in st.props.pop("pend", ()): self.err("paired", fr, node, "an entry of %s has no counterpart in the other direction" % self.flds[g])


def check(p, rep, tier):
    n = 0
    for f, r in builders(p):
        loops = [x for x in fn_nodes(f) if x.get("k") in ("for", "while", "do")]
        if not loops: continue
        n += 1
        where = "%s:%s" % (f["file"], f["line"])
        calls_in = lambda l: sum(1 for x in deep(p, l, f["file"]) if x.get("k") == "call" and norm_name(x.get("n") or "").rpartition("::")[2] in PUSH)
        outer = max(loops, key=lambda l: (calls_in(l), -l.get("l", 0)))
        ints = [q for q in f["params"] if f["_types"][q["t"]]["k"] == "int"]
        g = run(p, rep, f, r, outer, {})
        keys = {"paired": "each push has its reverse", "expanded-once": "only what was taken off the list", "enqueued-once": "only what is new", "replaced": "next list replaces current", "stops": "only if something was found", "starts-empty": "next list is empty when a round starts"}
        for rule, txt in keys.items():
            bad = ["%s: %s" % (w, m) for (q, w), m in sorted(g.bad.items()) if q == rule]
            rep.ob(rule, f["q"], where, not bad, "; ".join(bad) or txt)
        rep.ob("edges-found", f["q"], where, g.n["pushes"] >= 2 and g.forward is not None and g.n["enqueues"] > 0, "%s" % g.n)
        if len(ints) == 1:
            for d in (0, 1, 2):
                h = run(p, rep, f, r, outer, {ints[0]["id"]: c(d)})
                rep.ob("depth", "%s:%d" % (f["q"], d), where, h.rounds == d + 1, "%d rounds are possible with a depth of %d" % (h.rounds, d))
    if not n: raise AnalysisError("routine that builds the dependency graph not found")
    rep.require("paired", 1)
    rep.require("depth", 3)


def deep(p, l, file, depth=0):
    for x in walk(l):
        yield x
        if x.get("k") == "lambda" and x.get("f") in p.functions: yield from deep(p, p.functions[x["f"]]["body"], file, depth)
        elif x.get("k") == "call" and x.get("f") in p.functions and p.functions[x["f"]].get("body") and p.functions[x["f"]]["file"] == file and depth < 3: yield from deep(p, p.functions[x["f"]]["body"], file, depth + 1)


def decls(l):
    for x in walk(l.get("b") or {}):
        if x.get("k") == "decl": yield from x["vars"]


def run(p, rep, f, r, outer, fixed):
    g = Graph(p, f, r, outer)
    g.inner = {x.get("id") for x in decls(outer)}
    e = Engine(p, g, K=300)
    try: outs = e.run(f, args=[fixed.get(q["id"], ("param", f["id"], q["id"])) for q in f["params"]])
    except AnalysisError:
        if not g.bad: raise
        outs = []  # what was found until then suffices
    rep.eng(e)
    for s, v in outs: g.even(s, type("F", (), {"fn": f}), {"l": f["line"]})
    return g
