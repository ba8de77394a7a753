"""Whose memory a view of text refers to: an interprocedural, flow-insensitive backward slice over string views.

Views are followed through variables, parameters (to every caller, callbacks included), members, containers and results
down to where a view is made.  A view made of an owned string, of a literal or of a plain array is reported with the place."""
from .textflow import TextFlow, unload, PASSFN
from .prog import norm_name

VIEW = "std::basic_string_view"
SAME = {"substr", "front", "back", "at", "operator[]", "operator*", "operator->", "value", "value_or", "begin", "end", "cbegin", "cend", "rbegin", "rend", "data", "find", "get", "extract", "top", "first", "last",
        "lower_bound", "upper_bound", "operator basic_string_view", "remove_prefix", "operator++", "operator--", "operator+", "operator-", "next", "prev", "top", "subspan"}


class Origins:
    def __init__(self, p, cut):
        self.p, self.cut = p, cut
        self.tf = TextFlow(p)
        self.memo = {}
        self.steps = 0
        self.lambdas()

    def lambdas(self):
        """calls of function objects: parameter of a function type -> the argument lists it is called with"""
        self.cb = {}
        self.given = {}
        for f in self.p.functions.values():
            for x in self.p_nodes(f):
                if x.get("k") != "call": continue
                if x.get("ext") and norm_name(x.get("n") or "").endswith("::operator()") and x.get("obj") is not None:
                    r = self.tf.root(x["obj"])
                    if r: self.cb.setdefault(r, []).append((f, x["a"]))
                for i, a in enumerate(x.get("a") or ()):
                    l = a
                    while l is not None and l.get("k") in ("ld", "cast", "ctor") and (l.get("k") != "ctor" or len(l.get("a") or ()) == 1):
                        l = l["e"] if l["k"] != "ctor" else l["a"][0]
                    if l is None: continue
                    ids = []
                    if l.get("k") == "lambda": ids = [l["f"]]
                    elif l.get("k") == "var":
                        for g, d in self.tf.defs.get(("v", l["id"]), ()):
                            if isinstance(d, dict):
                                while d.get("k") in ("ld", "cast", "ctor") and (d["k"] != "ctor" or len(d.get("a") or ()) == 1): d = d["e"] if d["k"] != "ctor" else d["a"][0]
                                if d.get("k") == "lambda": ids.append(d["f"])
                    for fid in ids:
                        if x.get("f") in self.p.functions: self.given.setdefault(fid, []).append((self.p.functions[x["f"]], i))

    def p_nodes(self, f):
        from .prog import fn_nodes
        return fn_nodes(f)

    def T(self, f, e):
        t = e.get("t")
        x = f["_types"][t] if t is not None and t >= 0 else {}
        while x.get("k") in ("ref", "rref") and "to" in x: x = f["_types"][x["to"]]
        return x

    def owned_type(self, f, e):
        s = str(self.T(f, e).get("s") or self.T(f, e).get("q") or "").replace("const ", "").strip()
        return s.startswith(("std::basic_string<", "std::string", "basic_string<", "std::filesystem::path")) and not s.startswith("std::string_view")

    def at(self, f, e): return "%s:%s" % (f.get("file", "?"), e.get("l", "?") if isinstance(e, dict) else "?")

    def of(self, f, e): return set(self.expr(f, e, ()))

    def expr(self, f, e, seen):
        self.steps += 1
        if isinstance(e, tuple):
            if e[0] == "out": return self.key(e[1], ("v", e[2]), seen, skip=True)
            return set()
        if e is None or len(seen) > 200: return set()
        k = e.get("k")
        E = lambda x: self.expr(f, x, seen)
        if k in ("ld", "cast"): return E(e["e"])
        if k == "str": return {("a literal", self.at(f, e))}
        if k in ("int", "bool", "float", "nullp", "zero"): return set()
        if k in ("cond",): return E(e["a"]) | E(e["b"])
        if k == "elvis": return E(e["c"]) | E(e["f"])
        if k == "init":
            r = set()
            for x in e["es"]: r |= E(x)
            return r
        if k == "un": return E(e["e"])
        if k == "idx": return E(e["b"])
        if k == "bin": return E(e["a"]) | (E(e["b"]) if e.get("op") == "," else set())
        if self.owned_type(f, e): return {("a string of its own", self.at(f, e))}
        if k == "var":
            if e.get("glob"): return {("a global", self.at(f, e))}
            return self.key(f, ("v", e["id"]), seen)
        if k == "mem":
            if self.cut(e["f"]): return {("tree", e["f"])}
            if e.get("bind") or str(e["f"]).startswith("std::pair"): return E(e["b"])
            return self.key(f, ("m", e["f"]), seen)
        if k == "ctor":
            if e.get("f") in self.p.functions and not e.get("cm_ctor"):
                r = set()
                for x in e["a"]: r |= E(x)
                return r
            r = set()
            for x in (e.get("a") or ())[:1]: r |= E(x)
            return r
        if k == "call": return self.call(f, e, seen)
        return set()

    def call(self, f, e, seen):
        E = lambda x: self.expr(f, x, seen)
        nm = norm_name(e.get("n") or "")
        short = nm.rpartition("::")[2]
        g = self.p.functions.get(e.get("f"))
        ids = [e.get("f")] + list(self.p.overriders.get(e.get("f"), ()))
        fns = [self.p.functions[i] for i in ids if i in self.p.functions and self.p.functions[i].get("body")]
        if fns:
            r = set()
            for h in fns: r |= self.returns(h, seen)
            return r
        if e.get("obj") is not None and short in SAME: return E(e["obj"])
        if nm in PASSFN or short in ("StripPrefix", "StripSuffix", "StripAsciiWhitespace", "StripLeadingAsciiWhitespace", "StripTrailingAsciiWhitespace", "StrSplit", "next", "prev", "get", "min", "max", "forward", "move", "operator-", "operator+", "tie", "make_pair", "ref", "cref", "make_optional"):
            r = set()
            for x in (e.get("a") or ())[:2 if short in ("min", "max", "make_pair") else 1]: r |= E(x)
            return r
        return {("?", nm)}

    def returns(self, h, seen):
        key = ("ret", h["id"])
        if key in seen: return set()
        if key in self.memo: return self.memo[key]
        r = set()
        from .prog import walk
        for x in walk(h["body"]):
            if x.get("k") == "ret" and x.get("e") is not None: r |= self.expr(h, x["e"], seen + (key,))
        if not seen: self.memo[key] = r
        return r

    def key(self, f, k, seen, skip=False):
        if k in seen: return set()
        seen = seen + (k,)
        r = set()
        if k in self.memo: return self.memo[k]
        for h, d in self.tf.defs.get(k, ()):
            if isinstance(d, dict) and self.unrelated(h, d): continue
            r |= self.expr(h, d, seen)
        if k[0] == "v" and k[1] in self.tf.params and not skip:
            owners = self.tf.params[k[1]]
            owners = [o for o in owners if o[0]["id"] == (f or {}).get("id")] or owners
            for h, i in owners:
                for g, call in self.tf.callers.get(h["id"], ()):
                    a = call["a"]
                    if norm_name(call.get("n") or "").endswith("operator()") and len(a) == len(h["params"]) + 1: a = a[1:]
                    if i < len(a): r |= self.expr(g, a[i], seen)
                for callee, j in self.given.get(h["id"], ()):
                    if j >= len(callee["params"]): continue
                    for g, args in self.through(callee, j, ()):
                        if i < len(args): r |= self.expr(g, args[i], seen)
        if not r and not self.tf.defs.get(k): r = {("?", k[1])}
        if len(seen) == 1: self.memo[k] = r
        return r

    def through(self, callee, j, seen):
        """argument lists that a function object given as parameter j is called with"""
        q = callee["params"][j]["id"]
        if q in seen: return
        for g, args in self.cb.get(("v", q), ()): yield g, args

    def unrelated(self, h, d):
        t = self.T(h, d)
        return t.get("k") in ("int", "bool", "float", "enum")
