"""What is known on the paths on which an edit of a dependency is proposed.

An edit is proposed where the function object for edits is called.  A requirement is a
statement about the things named in the call; it holds on a path if the path has tested it,
or if a predicate answered on the path can only give that answer when it holds (which is
decided on the predicate itself)."""
from .engine import Engine, Rule, c, C0, C1, eq0, show
from .prog import AnalysisError, norm_name, fn_nodes, walk
from .cmdline import production, strip
from . import lin

EDIT = "bant::EditRequest"
FINDERS = {"find", "lower_bound", "upper_bound"}


def is_edit_type(t):
    return "std::function" in (t.get("s") or "") + (t.get("rec") or "") and EDIT in (t.get("s") or "") + (t.get("rec") or "")


def subterms(v):
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, (tuple, frozenset)):
            if isinstance(x, tuple) and x: yield x
            todo += list(x)


class Rec:
    __slots__ = ("fid", "name", "obj", "args", "vals", "node", "fr", "where")


class Guard(Rule):
    peel = False

    def __init__(self, ed, fn):
        self.ed, self.fn = ed, fn
        self.calls, self.outs, self.backs, self.bodies = {}, {}, [], []

    def inline(self, eng, fn, fr): return fn["id"].startswith("lambda@") or fn["id"] in self.ed.carriers or fn["id"] in self.ed.helpers

    def pre_call(self, eng, st, call):
        n, nm = call.node, norm_name(call.name or "")
        short = nm.rpartition("::")[2]
        ext = n.get("ext") or call.fid not in self.ed.p.functions
        ob = n.get("obj")
        if n["k"] == "call" and short == "operator()" and isinstance(ob, dict) and ob.get("t", -1) is not None and ob.get("t", -1) >= 0 and is_edit_type(call.fr.types[ob["t"]]):
            vals = [eng.rval(st, a, d) if d.get("lv") else a for a, d in zip(call.args, n["a"])]
            self.ed.emission(self, eng, st, call, vals)
            return [(st, C0)]
        if ext and call.obj is not None and short in ("end", "cend", "begin", "cbegin") and not call.args and not nm.startswith("std::basic_string_view"):
            return [(st, (short[-5:] if short.endswith("begin") else "end", call.obj))]
        if ext and call.obj is not None and short in FINDERS and len(call.args) == 1 and not nm.startswith(("std::basic_string", "absl::str")):
            key = (call.args[0], eng.rval(st, call.args[0], n["a"][0]) if n["a"][0].get("lv") else call.args[0])
            return [(st, ("found", call.obj, short, n.get("_id"), call.fr.ctx, key))]
        if ext and short in ("operator->", "operator*") and (call.obj is not None or len(call.args) == 1) and norm_name(n.get("rq") or "") != "std::optional":
            d = n["obj"] if call.obj is not None else n["a"][0]
            v = eng.load(st, call.obj) if call.obj is not None else eng.rval(st, call.args[0], d)
            if v[0] == "found": return [(st, ("&t", call.fr.ctx, ("elem", v)))]
        if ext and call.obj is not None and short == "contains" and len(call.args) == 1 and not nm.startswith(("std::basic_string", "absl::str")):
            key = (call.args[0], eng.rval(st, call.args[0], n["a"][0]) if n["a"][0].get("lv") else call.args[0])
            return [(st, ("in", call.obj, key))]
        self.outs[(n.get("_id"), call.fr.ctx)] = call
        self.ed.called(self, eng, st, call)
        return None

    def post_call(self, eng, st, call, ret):
        if ret is None or ret[0] == "c": return
        if ret in self.calls and self.calls[ret].node is not call.node: return   # handed through
        r = Rec()
        r.fid, r.name, r.obj, r.args, r.node, r.fr, r.where = call.fid, norm_name(call.name or ""), call.obj, list(call.args), call.node, call.fr, call.where()
        r.vals = [eng.rval(st, a, d) if d.get("lv") else a for a, d in zip(call.args, call.node.get("a", ()))]
        self.calls[ret] = r

    def on_loop_back(self, eng, head, st, node, fr): self.ed.loop_back(self, eng, st, node, fr)

    def on_loop_body(self, eng, st, node, fr): pass

    # ------------------------------------------------------------- requirements
    def facts(self, eng, st):
        for t, k in list(st.facts.items()):
            yield t, k
            if t[0] == "not": yield t[1], not k

    def same(self, eng, st, v, role):
        """value or address v stands for the thing with this role (a set of terms)"""
        if v in role: return True
        if v[0] in ("&v", "&t", "&f", "&i", "param", "sym", "deref", "&g") and eng.load(st, v) in role: return True
        return v[0] == "ld" and v[1] in role

    def about(self, eng, st, t, role):
        """a load of (part of) an element that was looked up by this role -> field name"""
        if t[0] != "ld": return None
        a = t[1]
        fields = []
        while a[0] == "&f":
            fields.append(a[2])
            a = a[1]
        if a[0] == "&t" and isinstance(a[2], tuple) and a[2] and a[2][0] == "elem" and self.same_key(eng, st, a[2][1], role): return fields[0].rpartition("::")[2] if fields else None
        return None

    def same_key(self, eng, st, found, role): return any(self.same(eng, st, k, role) for k in found[5])

    def holds(self, eng, st, what, roles, depth=0):
        """the requirement follows from what this path has tested"""
        direct = getattr(self, "req_" + what)
        if direct(eng, st, roles): return True
        if depth > 3: return False
        for t, k in self.facts(eng, st):
            r = self.calls.get(t)
            if r is None or r.fid not in self.ed.p.functions: continue
            m = {}
            for role, terms in roles.items():
                for i, (a, v) in enumerate(zip(r.args, r.vals)):
                    if self.same(eng, st, a, terms) or v in terms:
                        m[role] = i
                        break
                else:
                    if r.obj is not None and self.same(eng, st, r.obj, terms): m[role] = "this"
            if len(m) == len(roles) and self.ed.certify(r.fid, k, what, tuple(sorted(m.items())), depth + 1): return True
        return False

    def lookups(self, eng, st, role):
        """(found term, True if it found nothing) for lookups by this role decided on the path"""
        for t, k in self.facts(eng, st):
            if t[0] == "eq":
                f = next((x for x in t[1:] if x[0] == "found"), None)
                if f is not None and any(x[0] == "end" for x in t[1:]) and self.same_key(eng, st, f, role): yield f, k

    def req_notalwayslink(self, eng, st, roles):
        return any(not k and self.about(eng, st, t, roles["dep"]) == "alwayslink" for t, k in self.facts(eng, st))

    def req_testonly(self, eng, st, roles):
        dep, target = roles["dep"], roles["target"]
        if any(k for f, k in self.lookups(eng, st, dep)): return True
        if any(k and self.ed.all_indexed(f[1]) for f, k in self.lookups(eng, st, target)): return True
        for t, k in self.facts(eng, st):
            if not k and self.about(eng, st, t, dep) == "testonly": return True
            if k and self.about(eng, st, t, target) == "testonly": return True
            if k and t[0] in ("eq", "call"):
                args = t[1:] if t[0] == "eq" else t[2]
                if ("str", "cc_test") in args and any(self.about(eng, st, x, target) == "rule" for x in args): return True
        return False

    def req_visible(self, eng, st, roles):
        dep, target = roles["dep"], roles["target"]
        if any(k for f, k in self.lookups(eng, st, dep)): return True
        def package(x, role): return x[0] == "&f" and x[2].endswith("::package") and (x[1] in role or self.same(eng, st, x[1], role)) or x[0] == "ld" and package(x[1], role)
        matched = None
        for t, k in self.facts(eng, st):
            if t[0] == "eq" and k and any(package(x, dep) for x in t[1:]) and any(package(x, target) for x in t[1:]): return True
            if t[0] == "eq0" and k and any(self.about(eng, st, x, dep) == "visibility" for x in subterms(t)): return True
            r = self.calls.get(t)
            if r is None: continue
            short = r.name.rpartition("::")[2]
            ops = ([r.obj] if r.obj is not None else []) + r.args + r.vals
            if short in ("operator==", "operator!=") and (short == "operator==") == k and any(package(x, dep) for x in ops) and any(package(x, target) for x in ops): return True
            if short == "Match" and k and any(self.same(eng, st, a, target) for a in r.args + r.vals): return True
        # gone through the whole list, and no entry that could be understood denied it
        return ("denied", True) not in st.props.items() and any(self.exhausted(eng, st, t, k, dep, "visibility") for t, k in self.facts(eng, st))

    def exhausted(self, eng, st, t, k, role, field):
        """the fact that ends an iteration over this field of what was looked up by role"""
        def over(v):
            if v[0] == "end": return any(self.about(eng, st, x, role) == field for x in (v[1], eng.load(st, v[1])) for x in subterms(x))
            e = self.calls.get(v)
            return e is not None and e.obj is not None and e.name.rpartition("::")[2] in ("begin", "end", "cbegin", "cend") and any(self.about(eng, st, y, role) == field for x in (e.obj, eng.load(st, e.obj)) for y in subterms(x))
        if t[0] == "eq" and k: return any(over(x) for x in t[1:])
        r = self.calls.get(t)
        if r is None or r.name.rpartition("::")[2] != ("operator==" if k else "operator!="): return False
        ops = ([r.obj, eng.load(st, r.obj)] if r.obj is not None else []) + r.args + r.vals
        return any(over(x) for x in ops)

    def on_branch(self, eng, st, term, truth, node, fr):
        r = self.calls.get(term)
        if r is not None and r.name.rpartition("::")[2] == "Match" and not truth: st.props["denied"] = True


class Edits:
    def __init__(self, p, rep=None, K=200):
        self.p, self.rep, self.K = p, rep, K
        self.memo, self.emitted, self.helpers, self.losses = {}, [], set(), {}
        self.callers = {}
        for f in p.functions.values():
            if not production(f): continue
            for x, n in p.calls.get(f["id"], ()): self.callers.setdefault(x, []).append(f["id"])
        self.carriers = {f["id"] for f in p.functions.values() if production(f) and any(self.emits(n, f) for n in fn_nodes(f))}
        self.collect = None

    def emits(self, n, f):
        if n.get("k") != "call" or not norm_name(n.get("n") or "").endswith("operator()"): return False
        o = n.get("obj")
        return isinstance(o, dict) and o.get("t", -1) is not None and o.get("t", -1) >= 0 and is_edit_type(f["_types"][o["t"]])

    def by_kind(self):
        """(kinds named, lambda called for each target of these kinds)"""
        if "by_kind" not in self.memo:
            res = []
            for f in self.p.functions.values():
                if not production(f): continue
                for n in fn_nodes(f):
                    if n.get("k") != "call" or not n.get("a"): continue
                    lams = [x for a in n["a"] for x in walk(a) if x.get("k") == "lambda"]
                    if len(lams) != 1: continue
                    inner = {id(x) for x in walk(lams[0])}
                    lits = {x["v"] for a in n["a"] for x in walk(a) if x.get("k") == "str" and id(x) not in inner}
                    refs = {x.get("id") for a in n["a"] for x in walk(a) if x.get("k") in ("var", "gvar", "ref") and id(x) not in inner}
                    for d in fn_nodes(f):
                        for v in (d.get("vars") or ()) if d.get("k") == "decl" else ():
                            if v.get("id") in refs: lits |= {x["v"] for x in walk(v.get("init") or {}) if x.get("k") == "str"}
                    for gid in refs:
                        gl = self.p.globals.get(gid)
                        if gl: lits |= {x["v"] for x in walk(gl.get("init") or {}) if x.get("k") == "str"}
                    if lits: res.append((lits, lams[0]["f"], f))
            self.memo["by_kind"] = res
        return self.memo["by_kind"]

    def all_indexed(self, cont):
        """every kind of target that edits are made for is among those that are put into this container"""
        if cont[0] != "&f": return False
        key = ("indexed", cont[2])
        if key not in self.memo:
            have, need = set(), set()
            for lits, lam, f in self.by_kind():
                fn = self.p.functions.get(lam)
                if fn is None: continue
                if any(n.get("k") == "call" and norm_name(n.get("n") or "").rpartition("::")[2] in ("insert", "emplace", "try_emplace", "insert_or_assign", "operator[]") and any(x.get("k") == "mem" and x.get("f") == cont[2] for x in walk(n)) for n in fn_nodes(fn)): have |= lits
                if self.leads_to_edit(lam): need |= lits
            self.memo[key] = bool(need) and need <= have
        return self.memo[key]

    def leads_to_edit(self, fid):
        seen, todo = set(), [fid]
        while todo:
            x = todo.pop()
            if x in self.carriers: return True
            if x in seen: continue
            seen.add(x)
            todo += [y for y, n in self.p.calls.get(x, ())]
        return False

    def kind(self, v):
        return next((x["n"] for x in self.p.enums[EDIT]["vals"] if v == c(x["v"])), None)

    def emission(self, g, eng, st, call, vals):
        if self.collect is not None: self.collect(g, eng, st, call, vals)

    def called(self, g, eng, st, call): pass

    def loop_back(self, g, eng, st, node, fr): g.backs.append((st.copy(), node))

    def run(self, fn, collect=None, K=None, rule=None):
        g = rule or Guard(self, fn)
        e = Engine(self.p, g, K=K or self.K, max_depth=8)
        old, self.collect = self.collect, collect
        outs = e.run(fn, this=("this", fn["rec"]) if fn.get("rec") and not fn.get("static") else None)
        self.collect = old
        if self.rep: self.rep.eng(e)
        return g, e, outs

    def proposals(self, judge):
        """judge(g, eng, st, call, vals, kind) -> {requirement: None if met, else what is missing} or None.
        A requirement that a function does not establish itself may be established by all its callers."""
        todo, done, res = sorted(self.carriers), set(), {}
        while todo:
            fid = todo.pop(0)
            if fid in done: continue
            done.add(fid)
            f = self.p.functions[fid]
            here = {}
            def collect(g, eng, st, call, vals):
                k = self.kind(vals[0])
                got = judge(g, eng, st, call, vals, k)
                if got is None:
                    if k is None and any(x[0] == 'param' for x in subterms(vals[0])): here.setdefault((call.where(), "operation"), {})["unknown"] = True
                    return
                local = not got.pop('_given', False)
                for q, miss in got.items():
                    d = here.setdefault((call.where(), q), {})
                    d["n"] = d.get("n", 0) + 1
                    if miss:
                        d["miss"] = miss
                        d["local"] = d.get("local", True) and local
            up = sorted(x for x in set(self.callers.get(fid, ())) if production(self.p.functions[x]))
            self.run(f, collect)
            if up and any("unknown" in d or "miss" in d and not d["local"] for d in here.values()):
                self.carriers |= set(up)
                self.helpers.add(fid)
                todo += up
                continue
            for (w, q), d in here.items():
                if "unknown" in d: continue
                o = res.setdefault((f["q"] if not fid.startswith("lambda@") else f["q"], w, q), {"n": 0, "miss": None})
                o["n"] += d["n"]
                o["miss"] = o["miss"] or d.get("miss")
        return res

    def param_terms(self, f, i):
        if i == "this": return {("this", f["rec"])}
        pv = ("param", f["id"], f["params"][i]["id"])
        return {pv, ("ld", pv, ())}

    def certify(self, fid, outcome, what, mapping, depth):
        key = (fid, outcome, what, mapping)
        if key in self.memo: return self.memo[key]
        self.memo[key] = False
        f = self.p.functions[fid]
        if not f.get("body") or f.get("virtual"): return False
        g, e, outs = self.run(f)
        ok, n = True, 0
        for s, v in outs:
            if v is None: continue
            s = s.copy()
            if not e.assume(s, v, outcome): continue
            n += 1
            roles = {}
            for role, i in mapping:
                roles[role] = set()
                for t in self.param_terms(f, i): roles[role] |= {t, e.load(s, t) if t[0] in ("param", "this") else t}
            if not g.holds(e, s, what, roles, depth): ok = False
        self.memo[key] = ok and n > 0
        return self.memo[key]


def bazel_of(g, eng, st, v, depth=0):
    """the target object that text was made from"""
    r = g.calls.get(v)
    if r is None or depth > 4: return None
    node = r.node
    if r.obj is not None and norm_name(node.get("rq") or "").split("<")[0] in ("bant::BazelTarget",): return r.obj
    for a in ([r.obj] if r.obj is not None else []) + r.args + r.vals:
        x = bazel_of(g, eng, st, a, depth + 1)
        if x is not None: return x
    return None


def is_target(f, i):
    t = f["_types"][f["params"][i]["t"]]
    return "bant::BazelTarget" in (t.get("s") or "") and t["k"] in ("ref", "ptr", "rec") and "vector" not in (t.get("s") or "") and "set<" not in (t.get("s") or "")


def sets_of_targets(s):
    s = s or ""
    return "BazelTarget" in s and ("vector<" in s or "deque<" in s or "list<" in s) and "set<" in s
