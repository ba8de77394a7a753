"""C04: every tree walk reaches every child of every node."""
from bsa.engine import Engine, Rule, St, c, C0, C1, eq0, show
from bsa.nulls import Tree
from bsa.prog import AnalysisError, norm_name

TECHNIQUE = "path-sensitive abstract interpretation of every handler of the generic walks, with the child slots taken from the classes of the tree; virtual dispatch tables"
NOTE = "About the generic walks and the printing walk; visitors for a special purpose may leave out what they are not looking for."
EXPLANATION = ("The classes of the tree and the slots in which their objects hold children are read from the class definitions. Every handler of the generic walks is interpreted for a node with unknown children: on every path each child that may be there must have been visited with the same visitor, lists from the first to the last "
               "element, and the rewriting walk must have put what the visit of a child yielded where the child was. Each class must send a visitor to the handler for that class, and the typed casts must give the node for that class and nothing for others.")
UNITS = ["bant/frontend/ast.cc", "bant/frontend/print-visitor.cc", "bant/frontend/elaboration.cc"]


SIZE = ("call", "number of elements", ())


class Walks:
    def __init__(self, p):
        self.p = p
        self.tree = t = Tree(p)
        # slots
        self.slots, self.name_slots, self.lists = {}, set(), {}
        for k in t.classes:
            own = []
            for r in t.ups(k):
                if r not in t.classes: continue
                rec = p.records[r]
                for fd in rec["fields"]:
                    if t.tracked(rec["_types"], fd["type"]): own.append(fd["id"])
                    ty = rec["_types"][fd["type"]]
                    if ty["k"] == "rec" and self.holds_nodes(ty): self.lists[k] = (fd["id"], ty["rec"])
            self.slots[k] = sorted(own)
        # handlers: class of visitor -> {class of node: function}
        self.handlers, self.visitors = {}, {}
        self.roots = set()
        for f in p.functions.values():
            k = self.handler_of(f)
            if k: self.handlers.setdefault(f["rec"], {})[k] = f
        for r in p.records.values():
            n = 0
            for m in r["methods"]:
                if m.get("pure") and norm_name(m["name"]).startswith("Visit"): n += 1
            if n >= 5: self.roots.add(r["id"])
        if not self.roots: raise AnalysisError("no visitors found")
        # a slot for which the maker of the node asks for a special kind holds a name rather than an expression
        for f in p.functions.values():
            if f.get("ctor") and f["rec"] in t.classes:
                for q in f["params"]:
                    r = t.tracked(f["_types"], q["t"])
                    if r and r != t.root and not self.slots.get(r) and r not in self.lists: self.name_slots.add(f["rec"])

    def holds_nodes(self, ty):
        r = self.p.records.get(ty["rec"])
        return r is not None and any(self.tree.root.split("::")[-1] + " *" in a for a in [ty.get("s", "")])

    def handler_of(self, f):
        if not f.get("virtual") or len(f["params"]) != 1 or not f.get("body") or f.get("rec") in self.tree.classes: return None
        return self.tree.tracked(f["_types"], f["params"][0]["t"])

    def kinds(self):
        """classes that have a handler of their own"""
        return sorted({k for hs in self.handlers.values() for k in hs})

    def handled_or_leaf(self): return self.tree.classes

    def is_visitor(self, r): return bool(self.tree.ups(r) & self.roots)


class WalkRule(Rule):
    peel = False

    def __init__(self, w, fn, kind):
        self.w, self.fn, self.kind = w, fn, kind
        self.node = ("param", fn["id"], fn["params"][0]["id"])
        self.this = ("this", fn["rec"])
        self.early = []

    def inline(self, eng, fn, fr):
        if fn.get("rec") in self.w.tree.classes: return not fn["name"] == "Accept"
        if fn.get("rec") and self.w.is_visitor(fn["rec"]): return self.w.handler_of(fn) is None
        if self.kind in self.w.lists and fn.get("rec") and fn.get("recq", "").startswith("bant::ArenaDeque"): return False
        return fn["id"].startswith("lambda@") or not fn["file"].endswith(("arena-container.h",))

    def on_load(self, eng, st, addr, node, fr):
        if addr[0] == "&f" and addr[1] == self.node: self.add(st, "read", addr[2])

    def add(self, st, key, val):
        st.props[key] = st.props.get(key, frozenset()) | {val}

    def pre_call(self, eng, st, call):
        w = self.w
        name = norm_name(call.name or "").split("::")[-1]
        if call.obj is not None and name == "Accept" and len(call.args) == 1:
            if self.same(call.args[0]): self.add(st, "visited", call.obj)
            else: self.add(st, "other", call.where())
            if self.rewrites(): return [(st, ("call", "visit", (call.obj,)))]
            return [(st, C0)]
        f = w.p.functions.get(call.fid)
        if f is not None and f.get("rec") in w.tree.classes and f.get("virtual") and call.obj is not None and not call.args and w.tree.tracked(f["_types"], f["ret"]) and call.node.get("virt"):
            return [(st, ("call", "cast:" + name, (call.obj,)))]
        k = w.handler_of(f) if f else None
        if k and call.obj == self.this and call.args and call.args[0] == self.node:
            self.add(st, "delegated", k)
            return [(st, self.node)]
        if f is None and call.fid in self.pure_handlers(): return None
        if self.kind in w.lists and call.obj is not None:
            if call.obj == ("&f", self.node, w.lists[self.kind][0]) and name in ("begin", "end", "cbegin", "cend"):
                self.add(st, "bounds", name.lstrip("c"))
                if name.endswith("begin"):
                    st.props["ahead"] = 0
                return None
            if call.obj == ("&f", self.node, w.lists[self.kind][0]) and name == "size": return [(st, SIZE)]
            if name == "operator++":
                st.props["ahead"] = st.props.get("ahead", 0) + 1
                return None
            if name == "operator*" and "terator" in (call.name or ""):
                a = ("sym", ("element", st.props.get("round", 0), st.props.get("ahead", 0)))
                self.add(st, "elements", (a, eng.load(st, a)))
                return [(st, a)]
        return None

    def pure_handlers(self): return ()

    def same(self, v): return v == self.this or v[0] in ("&f", "&b") and v[1] == self.this

    def on_loop_body(self, eng, st, node, fr):
        if self.kind in self.w.lists and "bounds" in st.props:
            st.props["inside"] = node.get("_id")
            st.props["elements"] = frozenset()
            if st.props.get("ahead"): self.early.append((fr.where(node), "elements are skipped before the loop"))

    def on_loop_back(self, eng, head, st, node, fr):
        if st.props.get("inside") != node.get("_id"): return
        self.round_done(eng, st, fr.where(node))
        st.props["inside"] = None
        st.props["ahead"] = 0
        st.props["elements"] = frozenset()
        st.props["visited"] = frozenset()

    def round_done(self, eng, st, where):
        if st.props.get("ahead") != 1: self.early.append((where, "goes on by %d elements" % st.props.get("ahead", 0)))
        els = st.props.get("elements", ())
        if not els: self.early.append((where, "an element is not looked at"))
        for a, v in els:
            cur = eng.load(st, a)
            self.child(eng, st, v, cur, where)

    def child(self, eng, st, orig, now, where):
        res = ("call", "visit", (orig,))
        if eng.truth(st, eq0(orig)) is True: return
        if orig not in st.props.get("visited", ()):
            self.early.append((where, "a child is not visited"))
            return
        if self.rewrites():
            if now == res or core(now) == res: return
            if now == orig and refused(eng, st, res): return
            self.early.append((where, "what the visit of a child yielded is not put in its place"))

    def rewrites(self):
        t = self.fn["_types"][self.fn["ret"]]
        return t["k"] == "ptr"


def core(v):
    """value without the typed casts around it"""
    while isinstance(v, tuple) and v and v[0] == "call" and str(v[1]).startswith("cast:"): v = v[2][0]
    return v


def refused(eng, st, res):
    """the result of a visit was looked at and found to be of the wrong kind"""
    if eng.truth(st, eq0(res)) is True: return True
    return any(t is True and isinstance(k, tuple) and k[0] == "eq0" and core(k[1]) == res and k[1] != res for k, t in st.facts.items())


def check(p, rep, tier):
    w = Walks(p)
    t = w.tree
    # generic walks: have a handler of their own for every kind; printing walk: writes to a stream
    kinds = set(w.kinds())
    walkers = {}
    for r, hs in w.handlers.items():
        prints = any("ostream" in p.records[r]["_types"][fd["type"]].get("s", "") for fd in p.records[r]["fields"])
        if set(hs) == kinds or prints: walkers[r] = prints
    if len(walkers) < 2: raise AnalysisError("generic walks not found")
    for r, prints in sorted(walkers.items()):
        for k, f in sorted(w.handlers[r].items()):
            rule = WalkRule(w, f, k)
            e = Engine(p, rule, K=60)
            st = St()
            e.assume(st, eq0(rule.node), False)
            orig = {s: e.load(st, ("&f", rule.node, s)) for s in w.slots[k]}
            outs = e.run(f, st=st)
            rep.eng(e)
            where = "%s:%s" % (f["file"], f["line"])
            need = [s for s in w.slots[k] if not (k in w.name_slots and s == min_slot(w, k)) and not (rule.rewrites() and name_of(w, k) == s)]
            for s, v in outs:
                covered = set()
                for d in s.props.get("delegated", ()): covered |= set(w.slots[d])
                for sl in need:
                    if sl in covered: continue
                    n = len(rule.early)
                    rule.child(e, s, orig[sl], e.load(s, ("&f", rule.node, sl)), where)
                    bad = rule.early[n:]
                    del rule.early[n:]
                    rep.ob("reaches-child", "%s:%s" % (f["q"], sl.split("::")[-1]), where, not bad, "; ".join(sorted({b for _, b in bad})))
                if prints and k in w.name_slots and name_of(w, k):
                    rep.ob("prints-name", f["q"], where, name_of(w, k) in s.props.get("read", ()), "the name is not printed")
                if k in w.lists:
                    if s.props.get("inside"): rule.early.append((where, "leaves the loop before the last element"))
                    rep.ob("reaches-list", "%s" % f["q"], where, {"begin", "end"} <= set(s.props.get("bounds", ())) or e.truth(s, eq0(SIZE)) is True, "elements are not gone through")
                if rule.rewrites():
                    rep.ob("yields-node", f["q"], where, v == rule.node, "a generic rewriting handler yields something else than its node")
            for w_, what in sorted(set(rule.early)): rep.ob("reaches-list", f["q"], w_, False, what)
            if k in w.lists: rep.ob("reaches-list", f["q"], where, not rule.early, "")
            for x in sorted({x for s, v in outs for x in s.props.get("other", ())}): rep.ob("same-visitor", f["q"], x, False, "visits a child with another visitor")
    dispatch(p, rep, w, kinds)
    casts(p, rep, w)
    rep.require("reaches-child", 15)
    rep.require("reaches-list", 3)
    rep.require("dispatches", 16)
    rep.require("typed-cast", 20)


def min_slot(w, k): return name_of(w, k)


def name_of(w, k):
    """slot from which an accessor takes the name of the node"""
    for f in w.p.functions.values():
        if f.get("rec") == k and not f["params"] and f.get("body"):
            r = w.tree.tracked(f["_types"], f["ret"])
            if r and r != w.tree.root and r != k and not w.slots.get(r) and r not in w.lists and not f.get("virtual"):
                from bsa.prog import fn_nodes
                for x in fn_nodes(f):
                    if x.get("k") == "mem" and x.get("f") in w.slots[k]: return x["f"]
    return None


# ----------------------------------------------------------------- dispatch
class DispatchTo(Rule):
    def __init__(self, w): self.w, self.to = w, []

    def inline(self, eng, fn, fr): return self.w.handler_of(fn) is None

    def pre_call(self, eng, st, call):
        if call.obj is not None and len(call.args) == 1 and call.node.get("virt"):
            rec = self.w.p.functions.get(call.fid)
            st.props["to"] = st.props.get("to", ()) + ((call.fid, call.obj, call.args[0]),)
            return [(st, ("call", "handled", (call.obj, call.args[0])))]
        return None


def declared(p, fid):
    for r in p.records.values():
        for m in r["methods"]:
            if m["id"] == fid: return r, m
    return None, None


def dispatch(p, rep, w, kinds):
    t = w.tree
    # which pure handler is for which class: the class its overriders take
    handles = {}
    for r, hs in w.handlers.items():
        for k, f in hs.items():
            for root in w.roots & t.ups(f["rec"]):
                for m in p.records[root]["methods"]:
                    if m["name"] == f["name"] and m.get("pure"): handles[m["id"]] = k
    for k in sorted(kinds):
        own = [f for f in p.functions.values() if f.get("rec") == k and f["name"] == "Accept" and len(f["params"]) == 1]
        where = p.records[k]["file"]
        rep.ob("dispatches", "%s" % k.split("::")[-1], where, len(own) >= len(w.roots), "has no way of its own to accept each sort of visitor")
        for f in own:
            rule = DispatchTo(w)
            e = Engine(p, rule, K=20)
            outs = e.run(f)
            rep.eng(e)
            vis = ("param", f["id"], f["params"][0]["id"])
            me = ("this", k)
            for s, v in outs:
                to = s.props.get("to", ())
                ok = len(to) == 1 and handles.get(to[0][0]) == k and to[0][1] == vis and to[0][2] == me
                rep.ob("dispatches", "%s:%s" % (k.split("::")[-1], f["_types"][f["params"][0]["t"]].get("s")), "%s:%s" % (f["file"], f["line"]), ok, "does not lead to the handler for this kind of node")
                if ok and f["_types"][f["ret"]]["k"] == "ptr":
                    rep.ob("dispatches", "%s:result" % k.split("::")[-1], "%s:%s" % (f["file"], f["line"]), v == ("call", "handled", (vis, me)), "result of the visit is dropped")


def casts(p, rep, w):
    """virtual routines of the root without parameters that yield a special kind of node"""
    t = w.tree
    for m in p.records[t.root]["methods"]:
        f = p.functions.get(m["id"])
        if not f or not f.get("virtual") or f["params"]: continue
        want = t.tracked(f["_types"], f["ret"])
        if not want: continue
        for k in sorted(t.classes):
            g = implementation(p, t, k, f["name"])
            if not g or k == t.root: continue
            if k not in w.handled_or_leaf(): continue
            e = Engine(p, Rule(), K=20)
            outs = e.run(g)
            rep.eng(e)
            isa = want in t.ups(k)
            for s, v in outs:
                me = v is not None and base_of(v)[0] == "this"
                rep.ob("typed-cast", "%s:%s" % (k.split("::")[-1], f["name"]), "%s:%s" % (g["file"], g["line"]), me if isa else v == C0, "gives %s" % ("nothing" if v == C0 else "a node of another kind" if not isa else show(v)))


def base_of(v):
    while v[0] in ("&b", "&f", "up", "down"): v = v[1]
    return v


def implementation(p, t, k, name):
    todo = [k]
    while todo:
        r = todo.pop(0)
        for m in p.records[r]["methods"]:
            if m["name"] == name and m["id"] in p.functions: return p.functions[m["id"]]
        todo += sorted(t.bases.get(r, ()))
    return None
