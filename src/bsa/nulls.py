"""Pointers that may be null, followed through the whole program.

Every function is interpreted by itself from an unknown state.  Where a pointer is
used that is not known to be there, its origins are asked in turn: the parameter, and
with it the arguments at all call sites; the result of a call, and with it all returns
of the callee; the member it was read from, and with it everything that is ever put
there.  What comes out of a circle of such questions without meeting a null holds."""
from .engine import Engine, Rule, St, c, C0, C1, eq0, show, fld
from .prog import AnalysisError, norm_name, fn_nodes, walk

UPCASTS = ("DerivedToBase", "UncheckedDerivedToBase", "NoOp")


class Tree:
    """classes of the syntax tree"""
    def __init__(self, p):
        self.p = p
        self.rec_of_type = {}
        by_type = {}
        for r in p.records.values():
            by_type[(r["unit"], r["type"])] = r["id"]
        self.bases = {}
        for r in p.records.values():
            bs = set()
            for b in r.get("bases", ()):
                x = r["_types"][b].get("rec")
                if x: bs.add(x)
            self.bases[r["id"]] = bs
        self.derived = {}
        for r, bs in self.bases.items():
            for b in bs: self.derived.setdefault(b, set()).add(r)
        # a visitor has a virtual routine for each of many kinds of node; their common base is the root
        best = None
        for r in p.records:
            if self.ups(r) != {r}: continue
            ds = self.downs(r)
            n = sum(1 for f in p.functions.values() if f.get("virtual") and len(f["params"]) == 1 and f.get("rec") not in ds and self.pointee(f["_types"], f["params"][0]["t"]) in ds)
            if best is None or n > best[0]: best = (n, r)
        if best is None or best[0] < 5: raise AnalysisError("classes of the syntax tree not found")
        self.root = best[1]
        self.classes = self.downs(self.root)
        self.file = p.records[self.root]["file"]

    def ups(self, r):
        res, todo = set(), [r]
        while todo:
            x = todo.pop()
            if x in res: continue
            res.add(x)
            todo += self.bases.get(x, ())
        return res

    def downs(self, r):
        res, todo = set(), [r]
        while todo:
            x = todo.pop()
            if x in res: continue
            res.add(x)
            todo += self.derived.get(x, ())
        return res

    @staticmethod
    def pointee(types, t):
        if t is None or t < 0: return None
        t = types[t]
        if t["k"] != "ptr": return None
        return types[t["to"]].get("rec")

    def tracked(self, types, t):
        """class pointed to, if of the syntax tree"""
        r = self.pointee(types, t)
        return r if r in self.classes else None

    def tracked_ref(self, types, t):
        if t is None or t < 0: return None
        t = types[t]
        return self.tracked(types, t["to"]) if t["k"] in ("ref", "rref") else None


class NullFlow(Rule):
    peel = False

    def __init__(self, nf, fn):
        self.nf, self.fn = nf, fn
        self.cls = {}        # term -> class it is known to be of
        self.origin = {}     # symbol -> origin
        self.known = set()

    def note(self, v, r):
        if r is None or v[0] == "c": return
        o = self.cls.get(v)
        if o is None or r in self.nf.tree.downs(o): self.cls[v] = r

    def inline(self, eng, fn, fr): return self.nf.inlined(fn)

    # ---------------------------------------------------------- classification
    def status(self, eng, st, v, seen=()):
        """() if certainly there, else what it depends on"""
        k = eng.truth(st, eq0(v))
        if k is False: return ()
        if k is True: return (("null",),)
        if v in seen: return ()
        if v[0] in ("&v", "&f", "&t", "&i", "new", "this", "&g", "&fn", "str") or v in self.known: return ()
        if v in self.origin: return (self.origin[v],)
        if v[0] == "phi" and v in eng.phi_src:
            r = []
            for x in eng.phi_src[v]: r += self.status(eng, st, x, seen + (v,))
            return tuple(dict.fromkeys(r))
        if v[0] == "param": return (("param", v[1], v[2]),)
        if v[0] == "ld": return (self.where_from(v[1], v),)
        if v[0] == "fld" and v[2] in self.nf.slots: return (self.of_value(st, v),)
        if v[0] == "ite":
            return tuple(dict.fromkeys(self.status(eng, st, v[2], seen + (v,)) + self.status(eng, st, v[3], seen + (v,))))
        return (("unk", show(v)[:80]),)

    def where_from(self, a, v):
        if a[0] == "param": return ("pv", a[1], a[2])
        if a[0] == "&f" and a[2] in self.nf.slots:
            b = a[1]
            if b[0] == "sym" and isinstance(b[1][0], str) and b[1][0].startswith("lamarg"):
                return ("cb", self.nf.slots[a[2]], a[2])
            own = self.nf.slots[a[2]]
            x = self.cls.get(b)
            return ("slot", x if x and own in self.nf.tree.ups(x) else own, a[2])
        return ("unk", show(v)[:80])

    def of_value(self, st, v):
        """member of an object as somebody else left it"""
        own = self.nf.slots[v[2]]
        for a, x in st.store.items():
            k = self.cls.get(a) or (a[1] if a[0] == "this" else None)
            if x == v[1] and k and own in self.nf.tree.ups(k): return ("slot", k, v[2])
        return ("slot", own, v[2])

    def is_a(self, eng, st, v, want, seen=()):
        """() if certainly of class want (or null), else what it depends on"""
        if v[0] == "c" and v[1] == 0 or v in seen: return ()
        if self.cls.get(v) and want in self.nf.tree.ups(self.cls[v]): return ()
        if v[0] == "this" and v[1] and want in self.nf.tree.ups(v[1]): return ()
        if v in self.origin: return (self.origin[v],)
        if v[0] == "phi" and v in eng.phi_src:
            r = []
            for x in eng.phi_src[v]: r += self.is_a(eng, st, x, want, seen + (v,))
            return tuple(dict.fromkeys(r))
        if v[0] == "param": return (("param", v[1], v[2]),)
        if v[0] == "ld": return (self.where_from(v[1], v),)
        if v[0] == "fld" and v[2] in self.nf.slots: return (self.of_value(st, v),)
        return (("unk", show(v)[:80]),)

    def facets(self, eng, st, v):
        """what is known of a value somewhere: (null dependence, class known, class dependence)"""
        return (self.status(eng, st, v), self.cls.get(v) or (v[1] if v[0] == "this" else None), self.is_a(eng, st, v, None))

    # ---------------------------------------------------------- events
    def static_class(self, n, fr):
        while n.get("k") == "cast" and n["ck"] in UPCASTS: n = n["e"]
        return self.nf.tree.tracked(fr.types, n.get("t"))

    def on_deref(self, eng, st, ptr, node, fr):
        b = node.get("obj") if node["k"] == "call" else node.get("b") if node["k"] == "mem" else node.get("e")
        if b is None: return
        r = self.static_class(b, fr)
        if r is None: return
        if ptr[0] in ("this",): return
        self.note(ptr, r)
        what = node.get("n") or ("*" if node["k"] == "un" else node.get("f", ""))
        d = self.status(eng, st, ptr)
        self.nf.uses.setdefault((fr.fn["id"], norm_name(what).split("::")[-1], node.get("_id")), []).append((d, fr.where(node), fr.chain()))
        eng.assume(st, eq0(ptr), False)

    def on_downcast(self, eng, st, v, node, fr):
        want = self.nf.tree.tracked(fr.types, node.get("t"))
        if want is None or v[0] in ("c", "this"): return
        have = self.cls.get(v)
        if have and want in self.nf.tree.ups(have): return
        ok = self.discriminated(eng, st, v, want)
        d = () if ok else self.is_a(eng, st, v, want)
        if d: self.nf.casts.setdefault((fr.fn["id"], want, node.get("_id")), []).append((d, fr.where(node), fr.chain()))
        else: self.nf.casts.setdefault((fr.fn["id"], want, node.get("_id")), []).append(((), fr.where(node), fr.chain()))
        self.note(v, want)

    def discriminated(self, eng, st, v, want):
        """a question put to the node that only nodes of this class answer this way"""
        have = self.cls.get(v) or self.nf.tree.root
        others = [x for x in self.nf.tree.downs(have) if want not in self.nf.tree.ups(x) and not self.nf.tree.derived.get(x)]
        for name, ans in self.nf.kinds.items():
            t = ("call", name, (v,))
            if all(x in ans and eng.truth(st, eng.eqterm(t, c(ans[x]))) is False for x in others): return True
        return False

    def pre_call(self, eng, st, call):
        n, nf = call.node, self.nf
        fid = call.fid
        if call.name == "operator new":
            if call.args[0][0] == "sym": self.known.add(call.args[0])
            return None
        if n.get("virt") and fid in nf.pure and call.obj is not None and not call.args:
            v = ("call", nf.pure[fid], (call.obj,))
            fn = nf.decl.get(fid)
            r = nf.tree.tracked(fn["_types"], fn["ret"]) if fn else None
            if r: self.note(v, r)
            if r: self.origin.setdefault(v, ("maybe", norm_name(n.get("n") or fid).split("::")[-1]))
            return [(st, v)]
        if call.ctor_of in nf.tree.classes: self.note(call.obj, call.ctor_of)
        fn = nf.p.functions.get(fid)
        if fn is not None and fn.get("name") == "operator*" and not call.args and call.obj is not None and fn.get("ret", -1) >= 0 and nf.tree.tracked_ref(fn["_types"], fn["ret"]) and not eng.can_inline(fn, call.fr):
            at = tuple(eng.load(st, ("&f", call.obj, x["id"])) for x in nf.p.records[fn["rec"]]["fields"]) if fn.get("rec") in nf.p.records else ()
            if at: return [(st, ("deref", ("call", "element at", (call.obj,) + at)))]      # the same element as long as the iterator is at the same place
        if call.name == "std::function::operator()":
            self.publish(eng, st, call.fr)
            for a, nd in zip(call.args, n.get("a", ())):
                for f, r in nf.slots.items():
                    if self.rec_at(nd, call.fr) == r:
                        nf.cbs.setdefault((r, f), []).append((self.facets(eng, st, eng.load(st, ("&f", a, f))), call.where()))
            return None
        if fid and (fn is None or n.get("virt") or not eng.can_inline(fn, call.fr)):
            self.pass_args(eng, st, call, fn)
            if not n.get("ext"): self.publish(eng, st, call.fr)
        elif fn is not None and fn.get("ctor"): pass
        return None

    def rec_at(self, nd, fr):
        while nd.get("k") == "cast" and nd["ck"] in UPCASTS: nd = nd["e"]
        t = nd.get("t")
        return fr.types[t].get("rec") if t is not None and t >= 0 else None

    def pass_args(self, eng, st, call, fn):
        nf, n = self.nf, call.node
        pts = n.get("pt") or []
        types = call.fr.types
        for i, (a, nd) in enumerate(zip(call.args, n.get("a", ()))):
            pt = pts[i] if i < len(pts) else -1
            if pt is None or pt < 0: continue
            if nf.tree.tracked(types, pt):
                self.note(a, self.static_class(nd, call.fr))
                nf.args.setdefault((call.fid, i), []).append((self.facets(eng, st, a), call.where(), call.fr.chain()))
            elif nf.tree.tracked_ref(types, pt):
                v = eng.load(st, a)
                x = nd
                while x.get("k") == "cast" and x["ck"] in UPCASTS: x = x["e"]
                self.note(v, nf.tree.tracked(types, x.get("t")))
                nf.args.setdefault((call.fid, i), []).append((self.facets(eng, st, v), call.where(), call.fr.chain()))

    def publish(self, eng, st, fr, where=None):
        """what other code can see from here on"""
        nf = self.nf
        for a in list(st.store):
            if a[0] != "&f" or eng.in_frame(a, fr.ctx) and a[1][0] == "&v": continue
            root = a
            while root[0] in ("&f", "&i"): root = root[1]
            if root[0] in ("&v", "&t"): continue
            f = a[2]
            if f in nf.slots: self.put(eng, st, a, f, eng.load(st, a), fr, where)
            else:
                ft = nf.p.field_types.get(f)
                r = ft and ft[0]["_types"][ft[1]["type"]].get("rec")
                for g in nf.slots_in.get(r, ()):
                    b = ("&f", a, g)
                    if b not in st.store: self.put(eng, st, b, g, eng.load(st, b), fr, where)

    def put(self, eng, st, a, f, v, fr, where=None):
        nf = self.nf
        if v[0] == "ld" and v[1] == a: return
        own = nf.slots[f]
        x = self.cls.get(a[1]) or (a[1][1] if a[1][0] == "this" else None)
        cl = x if x and own in nf.tree.ups(x) else own
        self.fact_from_static(f, v)
        nf.puts.setdefault(f, {}).setdefault((cl, self.facets(eng, st, v), fr.fn["id"]), where or "%s:%s" % (fr.fn["file"], fr.fn["line"]))

    def fact_from_static(self, f, v):
        ft = self.nf.p.field_types[f]
        self.note(v, self.nf.tree.tracked(ft[0]["_types"], ft[1]["type"]))

    def on_store(self, eng, st, addr, val, node, fr):
        if addr[0] == "&f" and addr[2] in self.nf.slots and isinstance(node, dict):
            e = node.get("b") if node.get("k") == "asg" else None
            if e is not None: self.note(val, self.static_class(e, fr))

    def post_call(self, eng, st, call, ret):
        nf = self.nf
        if ret is None: return
        if ret[0] == "sym" and call.fid:
            d = nf.decl.get(call.fid)
            r = nf.tree.tracked(call.fr.types, call.node.get("t"))
            if r:
                self.note(ret, r)
                if call.fid in nf.p.functions or call.node.get("virt"): self.origin.setdefault(ret, ("ret", call.fid))

    def on_ret(self, eng, st, val, fr):
        if fr.depth == 0: self.publish(eng, st, fr)


class Nulls:
    def __init__(self, p, rep=None, K=60):
        self.p, self.rep, self.K = p, rep, K
        self.tree = Tree(p)
        T = self.tree
        self.slots, self.slots_in = {}, {}
        for f, (r, fl) in p.field_types.items():
            if r["file"].startswith("bant/") and T.tracked(r["_types"], fl["type"]):
                self.slots[f] = r["id"]
                self.slots_in.setdefault(r["id"], []).append(f)
        self.decl = {}
        self.kinds = {}      # question -> class -> answer
        self.pure = {}
        self.questions()
        self.uses, self.casts, self.args, self.puts, self.rets, self.cbs = {}, {}, {}, {}, {}, {}
        self.engines = []
        fns = [f for f in p.functions.values() if f["file"].startswith("bant/") and "_test" not in f["file"] and (f.get("body") or f.get("ctor")) and not f.get("implicit") and self.relevant(f)]
        self.callers = {}
        for f in p.functions.values():
            if "_test" in f["file"]: continue
            for x, n in p.calls.get(f["id"], ()): self.callers.setdefault(x, []).append((f["id"], n))
        self.fns = [f for f in fns if not self.covered(f) and not f["id"].startswith("lambda@")]
        for f in self.fns: self.analyse(f)

    # ---------------------------------------------------------- preparation
    def questions(self):
        """virtual routines without arguments whose implementations just name the object or a constant"""
        p, T = self.p, self.tree
        impl = {}
        for f in p.functions.values():
            if f.get("virtual") and f.get("rec") in T.classes and not f["params"] and f.get("body"): impl.setdefault(f["name"], []).append(f)
        for name, fs in impl.items():
            vals = {}
            for f in fs:
                rets = [n for n in walk(f["body"]) if n.get("k") == "ret"]
                if len(rets) != 1 or any(n.get("k") in ("call", "asg", "if", "mem") for n in walk(f["body"])): vals = None; break
                e = rets[0].get("e")
                while e and e["k"] == "cast": e = e["e"]
                if not e: vals = None; break
                for r in T.downs(f["rec"]): vals.setdefault(r, {})[f["rec"]] = e
            if not vals: continue
            for f in fs:
                self.pure[f["id"]] = name
                self.decl[f["id"]] = f
                for o in f.get("overrides", ()):
                    self.pure[o] = name
                    self.decl.setdefault(o, f)
            ans = {}
            for r, m in vals.items():
                e = min(m.items(), key=lambda x: len(T.downs(x[0])))[1]
                if e["k"] == "int": ans[r] = e["v"]
                elif e["k"] in ("enum", "econst"): ans[r] = e.get("v")
            if ans and len(set(ans.values())) > 1: self.kinds[name] = ans

    def relevant(self, f):
        T = self.tree
        ty = f["_types"]
        if T.tracked(ty, f.get("ret")) or any(T.tracked(ty, q["t"]) or T.tracked_ref(ty, q["t"]) for q in f["params"]): return True
        for n in fn_nodes(f):
            t = n.get("t")
            if isinstance(t, int) and t >= 0 and (T.tracked(ty, t) or n.get("k") == "call" and n.get("n") and "std::function" in n["n"] and "operator()" in n["n"]): return True
        return f.get("rec") in self.slots_in

    def inlined(self, fn):
        if fn["id"].startswith("lambda@"): return True
        T = self.tree
        ty = fn["_types"]
        if fn["file"] == T.file and not fn.get("virtual"): return True
        if any(self.holder(ty, q["t"]) for q in fn["params"]): return True
        if fn.get("virtual") or fn.get("ctor"): return False
        return bool(fn.get("rec")) and fn["file"].endswith(".cc") and not T.tracked(ty, fn.get("ret")) and not any(T.tracked(ty, q["t"]) or T.tracked_ref(ty, q["t"]) for q in fn["params"]) and len(list(fn_nodes(fn))) < 400 and self.puts_slots(fn)

    def puts_slots(self, fn):
        return any(n.get("k") == "mem" and (n["f"] in self.slots or self.holds(n["f"])) for n in fn_nodes(fn))

    def holds(self, f):
        ft = self.p.field_types.get(f)
        return bool(ft) and ft[0]["_types"][ft[1]["type"]].get("rec") in self.slots_in

    def holder(self, ty, t):
        """pointer or modifiable reference to a pointer into the tree"""
        if t is None or t < 0: return False
        t = ty[t]
        if t["k"] == "ptr" or t["k"] == "ref":
            return bool(self.tree.tracked(ty, t["to"])) and not ty[t["to"]].get("const")
        return False

    def covered(self, f):
        cs = self.callers.get(f["id"])
        return bool(cs) and self.inlined(f) and not f.get("virtual") and all(n["k"] in ("call", "ctor") and not n.get("virt") for _, n in cs) and not any(c == f["id"] for c, _ in cs)

    def analyse(self, f):
        rule = NullFlow(self, f)
        e = Engine(self.p, rule, K=self.K, max_depth=8)
        this = ("this", f.get("rec")) if f.get("rec") and not f.get("static") else None
        if f.get("rec"): rule.cls[("this", f["rec"])] = f["rec"]
        for q in f["params"]:
            r = self.tree.tracked(f["_types"], q["t"])
            if r: rule.note(("param", f["id"], q["id"]), r)
            r = self.tree.tracked_ref(f["_types"], q["t"])
            if r: rule.note(("ld", ("param", f["id"], q["id"]), ()), r)
        outs = e.run(f, this=this)
        if self.tree.tracked(f["_types"], f.get("ret")):
            for s, v in outs: self.rets.setdefault(f["id"], {})[rule.facets(e, s, v)] = "%s:%s" % (f["file"], f["line"])
            if not outs: self.rets.setdefault(f["id"], {})
        self.engines.append(e)
        if self.rep: self.rep.eng(e)

    # ---------------------------------------------------------- solving
    def implementations(self, fid):
        res, todo = set(), [fid]
        while todo:
            x = todo.pop()
            if x in res: continue
            res.add(x)
            todo += self.p.overriders.get(x, ())
        return res

    def bases_of(self, fid):
        res, todo = set(), [fid]
        while todo:
            x = todo.pop()
            if x in res: continue
            res.add(x)
            f = self.p.functions.get(x)
            todo += (f or {}).get("overrides", ())
            for b, os in self.p.overriders.items():
                if x in os: todo.append(b)
        return res

    def contributions(self, o):
        """-> [(facets, where)] or None when they are not all known"""
        k = o[0]
        if k in ("param", "pv"):
            f = self.p.functions[o[1]]
            i = next(i for i, q in enumerate(f["params"]) if q["id"] == o[2])
            res = []
            for b in self.bases_of(o[1]):
                if any(n["k"] == "fn" for _, n in self.callers.get(b, ())): return None
                res += [x[:2] for x in self.args.get((b, i), ())]
            if not res and not any(self.callers.get(b) for b in self.bases_of(o[1])): return None      # for others to call
            return res
        if k == "ret":
            res = []
            for x in self.implementations(o[1]):
                f = self.p.functions.get(x)
                if f is None: continue
                if x not in self.rets: return None
                res += list(self.rets[x].items())
            return res
        if k == "slot":
            res = []
            rel = self.tree.ups(o[1]) | self.tree.downs(o[1])
            for (cl, fc, fid), w in self.puts.get(o[2], {}).items():
                if cl in rel: res.append((fc, w))
            return res or None
        if k == "cb": return self.cbs.get((o[1], o[2]))
        return None

    def solve(self, deps, kind):
        """None if it always holds, else text that explains why not"""
        seen, todo = set(), [(d, ()) for d in deps]
        while todo:
            o, path = todo.pop(0)
            if o in seen: continue
            seen.add(o)
            t = " <- ".join(path)
            if o[0] == "null": return "null" + (" from " + t if t else "")
            if o[0] == "maybe": return "may be no such node (%s)%s" % (o[1], " from " + t if t else "")
            cs = self.contributions(o) if o[0] != "unk" else None
            if cs is None: return "%s may be missing%s" % (self.say(o), " from " + t if t else "")
            for fc, w in cs:
                if kind == "there":
                    todo += [(d, path + ("%s at %s" % (self.say(o), w),)) for d in fc[0]]
                else:
                    if fc[1] and kind in self.tree.ups(fc[1]): continue
                    if not fc[2] and fc[0] == (("null",),): continue
                    if not fc[2]: return "%s is not known to be a %s at %s" % (self.say(o), kind, w)
                    todo += [(d, path + ("%s at %s" % (self.say(o), w),)) for d in fc[2]]
        return None

    def say(self, o):
        if o[0] in ("param", "pv"): return "argument %s of %s" % (o[2].split(":")[-1], self.p.functions[o[1]]["q"])
        if o[0] == "ret": return "result of %s" % norm_name((self.p.functions.get(o[1]) or {}).get("q", o[1]))
        if o[0] in ("slot", "cb"): return "%s of %s" % (o[2].split("::")[-1], o[1])
        return str(o[1])
