"""Where output streams come from: classes of origins for expressions that denote a stream."""
from .prog import norm_name, fn_nodes, walk
from .cmdline import production
from . import textflow

STREAMS = ("std::basic_ostream", "std::basic_ostringstream", "std::basic_stringstream", "std::basic_ofstream", "std::basic_fstream", "std::basic_iostream")
PRIMARY, DIAG, LOCAL, OTHER, COUT = "primary", "diagnostic", "local", "unknown", "standard output"
GLOBALS = {"std::cout": COUT, "std::wcout": COUT, "stdout": COUT, "std::cerr": DIAG, "std::clog": DIAG, "stderr": DIAG}


class Streams:
    def __init__(self, p, main):
        self.p, self.main = p, main
        self.flow = textflow.TextFlow(p, lambda c, f: False, lambda k, n: None)
        self.defs, self.params, self.callers, self.owner = {}, {}, {}, {}
        self.steps = 0
        for f in p.functions.values():
            if not production(f): continue
            for i, q in enumerate(f["params"]): self.params.setdefault(q["id"], []).append((f, i))
            for x in self.nodes(f):
                k = x.get("k")
                if k == "decl":
                    for v in x["vars"]:
                        self.owner.setdefault(v["id"], f)
                        if v.get("init"): self.defs.setdefault(("v", v["id"]), []).append((f, v["init"]))
                elif k == "asg":
                    r = self.place(x["a"])
                    if r: self.defs.setdefault(r, []).append((f, x["b"]))
                elif k in ("call", "ctor"):
                    if x.get("f"): self.callers.setdefault(x["f"], []).append((f, x))
                    nm = norm_name(x.get("n") or "")
                    if nm in ("std::make_unique", "std::make_shared"):
                        for g in self.flow.made(f, x): self.callers.setdefault(g["id"], []).append((f, x))
                    if nm in ("std::unique_ptr::reset", "std::unique_ptr::operator=", "std::shared_ptr::reset") and x.get("obj") is not None and x["a"]:
                        r = self.place(x["obj"])
                        if r: self.defs.setdefault(r, []).append((f, x["a"][0]))
            for i in f.get("inits", ()):
                if i.get("field") and i.get("e"): self.defs.setdefault(("m", i["field"]), []).append((f, i["e"]))

    def nodes(self, f):
        return fn_nodes(f)

    def T(self, f, e):
        t = e.get("t")
        return f["_types"][t] if t is not None and t >= 0 else {}

    def stream_type(self, f, t):
        """'obj', 'ref' (reference or pointer, owning or not) or None"""
        ty = f["_types"][t] if t is not None and t >= 0 else {}
        how = "obj"
        while ty.get("k") in ("ref", "ptr"):
            how, ty = "ref", f["_types"][ty["to"]]
        q = norm_name(ty.get("q") or ty.get("rec") or "")
        if q.startswith(STREAMS): return how
        if q.startswith(("std::unique_ptr", "std::shared_ptr")) and any(s in (ty.get("s") or "") for s in ("ostream", "stringstream", "fstream")): return "ref"
        return None

    def place(self, e):
        while isinstance(e, dict):
            k = e.get("k")
            if k in ("ld", "cast", "un"): e = e["e"]; continue
            if k == "ctor" and e.get("a") and e.get("cm_ctor"): e = e["a"][0]; continue
            if k == "var": return None if e.get("glob") else ("v", e["id"])
            if k == "mem": return ("m", e["f"])
            return None

    def of(self, f, e, env=None, seen=frozenset(), depth=0):
        """the origins a stream expression can have"""
        self.steps += 1
        env = env or {}
        O = frozenset
        if e is None or depth > 60: return O([OTHER])
        P = lambda x, g=f: self.of(g, x, env, seen, depth + 1)
        k = e.get("k")
        if k in ("ld", "cast"): return P(e["e"])
        if k == "un": return P(e["e"])
        if k in ("nullp", "zero") or k == "int" and e.get("v") == 0: return O()
        if k in ("cond", "elvis"): return P(e.get("a") or e.get("c")) | P(e.get("b") or e.get("f"))
        if k == "init" and len(e["es"]) == 1: return P(e["es"][0])
        if k == "this": return O([LOCAL])
        if k == "new": return O([LOCAL])
        if k == "ctor":
            if self.stream_type(f, e.get("t")) == "obj" and not e.get("cm_ctor"): return O([LOCAL])
            return P(e["a"][0]) if e.get("a") else O()
        if k == "var":
            if e.get("glob"): return O([GLOBALS.get(e["glob"], OTHER)])
            key = ("v", e["id"])
            if key in seen: return O()
            if key in env:
                g, x, genv, gseen = env[key]
                return self.of(g, x, genv, gseen, depth + 1)
            own = self.owner.get(e["id"])
            if own is not None and own["id"] == self.main["id"]: return O([("main", e["id"])])
            if e["id"] not in self.params and self.stream_type(f, e.get("t")) == "obj" and not e.get("isref"): return O([LOCAL])
            return self.spread(f, key, e["id"], seen, depth)
        if k == "mem":
            key = ("m", e["f"])
            if key in seen: return O()
            fld = self.field(e["f"])
            if fld and self.stream_type(fld[0], fld[1]["type"]) == "obj": return O([LOCAL])
            return self.spread(f, key, None, seen, depth)
        if k == "call":
            g = self.p.functions.get(e.get("f"))
            nm = norm_name(e.get("n") or "")
            if g is not None and g.get("body") and not e.get("virt"):
                env2 = {("v", q["id"]): (f, a, env, seen) for a, q in zip(e["a"], g["params"])}
                key = ("f", g["id"])
                if key in seen: return O()
                rets = [x["e"] for x in fn_nodes(g) if x.get("k") == "ret" and x.get("e")]
                r = O()
                for x in rets: r |= self.of(g, x, env2, seen | {key}, depth + 1)
                return r or O([OTHER])
            if nm in ("std::make_unique", "std::make_shared"): return O([LOCAL])
            if e.get("obj") is not None: return P(e["obj"])
            if nm.rpartition("::")[2].startswith("operator") and e["a"]: return P(e["a"][0])
            for a in e["a"]:
                if self.stream_type(f, a.get("t")): return P(a)
            return O([OTHER])
        return O([OTHER])

    def field(self, fid):
        if not hasattr(self, "_fields"):
            self._fields = {fd["id"]: (r, fd) for r in self.p.records.values() for fd in r.get("fields", ())}
        return self._fields.get(fid)

    def spread(self, f, key, var, seen, depth):
        seen = seen | {key}
        r = frozenset()
        for g, x in self.defs.get(key, ()): r |= self.of(g, x, {}, seen, depth + 1)
        owners = self.params.get(var, ()) if var else ()
        for h, i in [o for o in owners if o[0]["id"] == f["id"]] or owners:
            cs = self.callers.get(h["id"], ())
            for g, call in cs:
                a = call["a"]
                if i < len(a): r |= self.of(g, a[i], {}, seen, depth + 1)
        return r

    def touches(self, f):
        """(node, stream expression, position) of every hand-over of a stream to a call in this function; 'chained' streams once"""
        for x in self.nodes(f):
            if x.get("k") not in ("call", "ctor"): continue
            ops = ([("obj", x["obj"])] if x.get("obj") is not None else []) + list(enumerate(x.get("a", ())))
            for pos, a in ops:
                if isinstance(a, dict) and self.stream_type(f, a.get("t")): yield x, a, pos
