"""Where text comes from: an interprocedural, flow-insensitive provenance analysis of string values over the
resolved program, used to decide that text placed into another language was quoted for it.

The pieces of an expression: ("lit", text) a literal, ("const",) text fixed in the program, ("num",) a number,
("q",) text quoted by a verified quoting routine, ("trusted", why), ("raw", why, where)."""
from .engine import Engine, Frame, St, c, eq0, show
from . import lin
from .outputs import OutputRule, norm, pieces as vpieces
from .prog import norm_name, fn_nodes, walk

TEXT = ("std::basic_string", "std::basic_string_view", "std::filesystem::path", "absl::AlphaNum")
CHARS = "char"
PASS = {"c_str", "data", "str", "string", "native", "generic_string", "get", "value", "substr", "view", "release", "lexically_normal", "begin", "end", "cbegin", "cend",
        "at", "operator[]", "front", "back", "operator*", "operator->", "first", "last", "find", "trim", "operator basic_string_view", "operator basic_string"}
PASSFN = {"std::make_unique", "std::make_shared", "std::move", "std::forward", "std::as_const", "std::begin", "std::end", "absl::StripAsciiWhitespace", "absl::StripPrefix", "absl::StripSuffix",
          "absl::string_view", "std::exchange", "std::ref", "std::cref", "std::filesystem::operator/", "std::max", "std::min", "std::strdup", "strdup"}
CATFN = {"std::operator+", "absl::StrCat"}
ADD = {"append", "operator+=", "push_back", "insert", "emplace_back", "emplace", "operator=", "assign", "push_front", "emplace_front", "operator/=", "push", "replace",
       "insert_or_assign", "try_emplace", "write", "put", "concat"}
SELF = {"append", "operator+=", "operator=", "assign", "operator/=", "replace", "insert", "write", "put", "concat"}


def unload(e):
    while e is not None and e.get("k") in ("ld", "cast") or (e is not None and e.get("k") == "un" and e.get("op") in ("*", "&")):
        e = e["e"]
    return e


def ctor_arg(e):
    """the text a constructed text is made of"""
    a = [x for x in e.get("a", ()) if x is not None]
    a = [x for x in a if not (x.get("k") == "ctor" and "allocator" in (x.get("rq") or x.get("n") or ""))]
    return a


class TextFlow:
    def __init__(self, p, quoter=None, trusted=None):
        self.p = p
        self.quoter = quoter or (lambda *a: False)
        self.trusted = trusted or (lambda kind, name: None)
        self.index()
        self.analysed = set()
        self.steps = 0

    # ------------------------------------------------------------ definitions
    def index(self):
        p = self.p
        self.defs = {}        # ("v", id) / ("m", field id) -> [(fn, expr or ("seq", ...))]
        self.params = {}      # var id -> [(fn, index)], one per instantiation
        self.callers = {}     # fid -> [(fn, call node)]
        self.addressed = set()
        self.fors = {}
        for f in p.functions.values():
            for i, q in enumerate(f["params"]):
                self.params.setdefault(q["id"], []).append((f, i))
            called = set()
            for x in fn_nodes(f):
                k = x.get("k")
                if k == "decl":
                    for v in x["vars"]:
                        self.vdecl(f, v)
                elif k in ("if", "while", "for", "switch"):
                    if x.get("cv"): self.vdecl(f, x["cv"])
                elif k == "foreach":
                    for kk in ("range", "begin", "end"):
                        if x.get(kk): self.vdecl(f, x[kk])
                    self.add(("v", x["var"]["id"]), f, x["range"]["init"])
                elif k == "asg":
                    r = self.root(x["a"])
                    if r: self.add(r, f, x["b"])
                elif k in ("call", "ctor"):
                    if x.get("f"):
                        called.add(id(x))
                        self.callers.setdefault(x["f"], []).append((f, x))
                    nm = norm_name(x.get("n") or "")
                    short = nm.rpartition("::")[2]
                    if k == "call" and x.get("obj") is not None and x.get("ext") and short in ADD:
                        r = self.root(x["obj"])
                        if r:
                            for a in x["a"]:
                                self.add(r, f, a)
                    if k == "call" and short == "operator<<" and x.get("ext"):
                        args = ([x["obj"]] if x.get("obj") else []) + x["a"]
                        r = self.root(args[0])
                        if r and len(args) == 2:
                            self.add(r, f, args[1])
                    if k == "call" and nm in ("std::make_unique", "std::make_shared"):
                        for g in self.made(f, x):
                            self.callers.setdefault(g["id"], []).append((f, x))
                    if k == "call" and nm in ("absl::StrAppend",) and x["a"]:
                        r = self.root(x["a"][0])
                        if r:
                            for a in x["a"][1:]:
                                self.add(r, f, a)
                    if k == "call" and nm in ("absl::StrReplaceAll",) and len(x["a"]) == 2 and x["a"][1].get("k") == "un":
                        r = self.root(x["a"][1])
                        if r: self.add(r, f, ("replace", x))
                    if k == "call" and nm in ("std::getline", "getline", "absl::SimpleAtoi", "fgets", "std::swap"):
                        for a in x["a"]:
                            r = self.root(a)
                            if r: self.add(r, f, ("unknown", nm, x))
                    if k == "call" and x.get("f") in p.functions:
                        callee = p.functions[x["f"]]
                        for a, q in zip(x["a"], callee["params"]):
                            t = callee["_types"][q["t"]]
                            if t["k"] in ("ref", "ptr") and not callee["_types"][t["to"]].get("const"):
                                r = self.root(a)
                                if r: self.add(r, f, ("out", callee, q["id"]))
                elif k == "ctor":
                    pass
            for i in f.get("inits", ()):
                if i.get("field") and i.get("e"):
                    self.add(("m", i["field"]), f, i["e"])
        for r in p.records.values():
            for fl in r["fields"]:
                if fl.get("init"):
                    self.add(("m", fl["id"]), {"_types": r["_types"], "file": r.get("file", "?"), "q": r["q"], "id": None}, fl["init"])

    def made_type(self, f, x):
        t = self.T(f, x)
        targ = (t.get("s") or t.get("q") or "").partition("<")[2]
        depth, out = 0, ""
        for ch in targ:
            if ch == "," and depth == 0: break
            if ch == ">" and depth == 0: break
            depth += ch == "<"; depth -= ch == ">"
            out += ch
        return norm_name(out.strip().replace("const ", ""))

    def made(self, f, x):
        """constructors of the program that make_unique / make_shared may call"""
        t = self.made_type(f, x)
        if not hasattr(self, "_ctors"):
            self._ctors = {}
            for g in self.p.functions.values():
                if g.get("ctor"): self._ctors.setdefault(norm_name(g.get("rec") or ""), []).append(g)
        return [g for g in self._ctors.get(t, ()) if len(g["params"]) >= len(x["a"])]

    def vdecl(self, f, v):
        if v.get("init"):
            self.add(("v", v["id"]), f, v["init"])
        else:
            self.defs.setdefault(("v", v["id"]), [])

    def add(self, r, f, e):
        self.defs.setdefault(r, []).append((f, e))

    def root(self, e):
        """the variable or member an lvalue belongs to"""
        while True:
            e = unload(e)
            if e is None:
                return None
            k = e.get("k")
            if k == "var":
                return ("v", e["id"]) if not e.get("glob") else ("g", e["glob"])
            if k == "mem":
                return ("m", e["f"])
            if k == "idx":
                e = e["b"]; continue
            if k == "call":
                nm = norm_name(e.get("n") or "")
                short = nm.rpartition("::")[2]
                if e.get("obj") is not None and e.get("ext") and (short in SELF or short in PASS or short == "operator<<"):
                    e = e["obj"]; continue
                if short == "operator<<" and e.get("ext") and e.get("a"):
                    e = e["a"][0]; continue
                if nm in PASSFN and e["a"]:
                    e = e["a"][0]; continue
            if k == "ctor" and e.get("cm_ctor") and e["a"]:
                e = e["a"][0]; continue
            return None

    # ------------------------------------------------------------ pieces
    def where(self, f, e):
        return "%s:%s" % (f.get("file", "?"), e.get("l", "?") if isinstance(e, dict) else "?")

    def T(self, f, e):
        t = e.get("t")
        return f["_types"][t] if t is not None and t >= 0 else {}

    def collapse(self, alts, f, e):
        """one piece standing for any of the alternatives"""
        raws = [x for a in alts for x in a if x[0] == "raw"]
        if raws:
            return [raws[0]]
        kinds = {x[0] for a in alts for x in a}
        if "q" in kinds: return [("q",)]
        if "trusted" in kinds: return [("trusted", "")]
        if len(alts) == 1: return alts[0]
        return [("const",)]

    def pieces(self, f, e, env=None, seen=(), depth=0):
        self.steps += 1
        env = env or {}
        raw = lambda why: [("raw", why, self.where(f, e))]
        if isinstance(e, tuple):
            if e[0] == "replace":
                return self.replace(f, e[1], env, seen, depth)
            if e[0] == "out":
                _, callee, pid = e
                return self.var(callee, ("v", pid), e, {}, seen, depth, "out parameter of " + callee["name"], skip_param=True)
            return [("raw", "text filled in by " + e[1], self.where(f, e[2]))]
        if e is None or depth > 80:
            return [("raw", "text of unknown origin", self.where(f, e or {}))]
        P = lambda x: self.pieces(f, x, env, seen, depth + 1)
        k = e.get("k")
        if k in ("ld", "cast"):
            return P(e["e"])
        if k == "str":
            return [("lit", e["v"])]
        if k in ("bool", "float", "nullp", "zero"):
            return [("num",)]
        if k == "int":
            return [("lit", chr(e["v"] & 255))] if e.get("chr") else [("num",)]
        t = self.T(f, e)
        if t.get("k") in ("int", "bool", "float", "enum") and not (t.get("k") == "int" and t.get("s", "").replace("const ", "").strip() in ("char", "unsigned char", "signed char")):
            return [("num",)]
        if k == "cond":
            return self.collapse([P(e["a"]), P(e["b"])], f, e)
        if k == "elvis":
            return self.collapse([P(e["c"]), P(e["f"])], f, e)
        if k == "init":
            return self.collapse([P(x) for x in e["es"]], f, e) if e["es"] else []
        if k == "ctor":
            rq = norm_name(e.get("rq") or "")
            if e.get("f") in self.p.functions and not e.get("ext") and not e.get("cm_ctor"):
                return self.collapse([P(x) for x in ctor_arg(e)], f, e) if e["a"] else []
            a = ctor_arg(e)
            if not a: return []
            if rq == "std::basic_string" and len(a) == 2 and self.T(f, a[0]).get("k") == "int":
                return P(a[1])
            if len(a) == 2 and self.T(f, a[1]).get("k") in ("int",):
                return P(a[0])
            if len(a) == 1:
                return P(a[0])
            return self.collapse([P(x) for x in a], f, e)
        if k == "un":
            return P(e["e"])
        if k == "idx":
            return P(e["b"])
        if k == "bin" and e.get("op") in ("+", "-"):
            return P(e["a"]) if self.T(f, e["a"]).get("k") in ("ptr", "arr") else P(e["b"])
        if k == "var":
            if e.get("glob"):
                g = next((g for g in self.p.globals.values() if g.get("q") == e["glob"] or g["id"] == e.get("id")), None)
                if g is not None and g.get("init") and (g["_types"][g["type"]].get("const") if "type" in g else g.get("const")):
                    return self.pieces({"_types": g["_types"], "file": g.get("file", "?"), "id": None}, g["init"], {}, seen, depth + 1) or [("const",)]
                w = self.trusted("global", e["glob"])
                if w: return [("trusted", w)]
                return raw("global %s" % e["glob"])
            return self.var(f, ("v", e["id"]), e, env, seen, depth, e.get("n", "?"))
        if k == "mem":
            w = self.trusted("field", e["f"])
            if w: return [("trusted", w)]
            b = unload(e.get("b") or {})
            if b.get("k") == "var" and b.get("glob"):
                g = next((g for g in self.p.globals.values() if g["id"] == b.get("id") or g.get("q") == b["glob"]), None)
                if g is not None and g.get("init"):
                    return [("const",)]
            if e.get("bind") or e["f"].startswith("std::pair"):
                return P(e["b"])
            return self.var(f, ("m", e["f"]), e, env, seen, depth, e.get("n", "?"))
        if k == "call":
            return self.call(f, e, env, seen, depth)
        if k == "lambda":
            return raw("a function")
        if k == "other":
            return self.collapse([P(x) for x in e.get("es", ())], f, e) if e.get("es") else raw("unknown expression")
        return raw("text of unknown origin (%s)" % k)

    def var(self, f, key, e, env, seen, depth, name, skip_param=False):
        if key in seen:
            return []          # least fixpoint: contributes nothing by itself
        seen = seen + (key,)
        w = self.trusted("var", key[1])
        if w: return [("trusted", w)]
        if key in env:
            g, x, genv = env[key]
            r = self.pieces(g, x, genv, seen, depth + 1)
            more = [self.pieces(h, d, env, seen, depth + 1) for h, d in self.defs.get(key, ())]
            return self.collapse([r] + more, f, e) if more else r
        alts = []
        ds = self.defs.get(key, ())
        for h, d in ds:
            alts.append(self.pieces(h, d, env, seen, depth + 1))
        if key[0] == "v" and key[1] in self.params and not skip_param:
            owners = self.params[key[1]]
            owners = [o for o in owners if o[0]["id"] == (f or {}).get("id")] or owners
            for h, i in owners:
                w = self.trusted("param", (h, i))
                if w: return [("trusted", w)]
            cs = [(g, call, i) for h, i in owners for g, call in self.callers.get(h["id"], ())]
            if not cs:
                return [("raw", "parameter %s" % name, self.where(f, e) if isinstance(e, dict) else f.get("file", "?"))]
            for g, call, i in cs:
                args = call["a"]
                if i < len(args):
                    alts.append(self.pieces(g, args[i], {}, seen, depth + 1))
        if not alts:
            return [] if ds == [] or key in self.defs else [("raw", name, self.where(f, e) if isinstance(e, dict) else "?")]
        if len(alts) == 1:
            return alts[0]
        r = self.collapse(alts, f, e)
        return r

    def replace(self, f, e, env, seen, depth):
        return [("raw", "replaced text", self.where(f, e))]

    def call(self, f, e, env, seen, depth):
        P = lambda x: self.pieces(f, x, env, seen, depth + 1)
        raw = lambda why: [("raw", why, self.where(f, e))]
        nm = norm_name(e.get("n") or "")
        short = nm.rpartition("::")[2]
        if self.quoter(e, f):
            return [("q",)]
        w = self.trusted("call", nm)
        if w: return [("trusted", w)]
        if nm == "absl::StrReplaceAll":
            return self.replace(f, e, env, seen, depth)
        if nm in CATFN or short == "operator+" and e.get("ext"):
            r = []
            for a in ([e["obj"]] if e.get("obj") else []) + e["a"]:
                r += P(a)
            return r
        if nm in ("std::to_string", "std::basic_string::size", "std::basic_string::length"):
            return [("num",)]
        if nm in ("absl::StrJoin",):
            return self.collapse([P(e["a"][0]), P(e["a"][1])], f, e)
        if nm in PASSFN and e["a"] and (nm not in ("std::make_unique", "std::make_shared") or len(e["a"]) == 1):
            return self.collapse([P(a) for a in e["a"]], f, e)
        callee = self.p.functions.get(e.get("f"))
        if callee is not None and callee.get("body"):
            ret = callee["_types"][callee["ret"]] if callee.get("ret") is not None and callee["ret"] >= 0 else {}
            if ("f", callee["id"]) in seen:
                return []
            self.analysed.add(callee["id"])
            env2 = {}
            for a, q in zip(e["a"], callee["params"]):
                env2[("v", q["id"])] = (f, a, env)
            lam = set()
            for x in fn_nodes(callee):
                if x.get("k") == "lambda":
                    lam |= set()
            alts = [self.pieces(callee, x["e"], env2, seen + (("f", callee["id"]),), depth + 1)
                    for x in fn_nodes(callee) if x.get("k") == "ret" and x.get("e")]
            return self.collapse(alts, f, e) if alts else raw("result of " + nm)
        if e.get("obj") is not None and e.get("ext"):
            if short in SELF or short == "operator<<":
                r = self.root(e["obj"])
                base = P(e["obj"])
                if r is not None:
                    return base
                for a in e["a"]:
                    base = base + P(a)
                return base
            if short in PASS:
                return P(e["obj"])
        if short == "operator<<" and e.get("ext") and len(e["a"]) == 2:
            return P(e["a"][0])
        return raw("result of %s" % (nm or "a call"))


def context(ps):
    """quoted pieces that stand inside quotes opened by literal text -> first offending index"""
    sq = dq = False
    for i, x in enumerate(ps):
        if x[0] == "lit":
            j = 0
            s = x[1]
            while j < len(s):
                ch = s[j]
                if ch == "\\" and not sq:
                    j += 2; continue
                if ch == "'" and not dq: sq = not sq
                elif ch == '"' and not sq: dq = not dq
                j += 1
        elif x[0] == "q" and (sq or dq):
            return i
    return None


# ---------------------------------------------------------------- verified shell quoting
HARMLESS = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789@%_-+=:,./")


class QuoteRule(OutputRule):
    """summarises a routine that may quote its argument for the shell"""
    def __init__(self):
        self.rounds = {}     # loop symbol of the text -> list of (appended pieces, ok)
        self.entry = {}
        self.bad = []

    def inline(self, eng, fn, fr):
        return True

    def pre_call(self, eng, st, call):
        r = super().pre_call(eng, st, call)
        if r is not None: return r
        nm = call.name or ""
        if nm == "std::basic_string::basic_string" or (call.node["k"] == "ctor" and norm_name(call.node.get("rq") or "") == "std::basic_string"):
            a = call.node.get("a", [])
            if len(call.args) >= 2 and eng.typ(call.fr, a[0].get("t")).get("k") == "int" and call.args[0] == ("c", 1):
                return [(st, ("cat", norm(vpieces(call.args[1], {"k": "int", "bits": 8, "s": "char"}))))]
            if len(call.args) >= 1 and a:
                t = eng.typ(call.fr, a[0].get("t"))
                v = eng.rval(st, call.args[0], a[0])
                if t.get("k") in ("ptr", "arr", "rec") and v[0] in ("str", "cat"):
                    return [(st, ("cat", norm(vpieces(v, t))))]
            return None
        if nm == "absl::StrReplaceAll" and len(call.args) == 2:
            strs = [x["v"] for x in walk(call.node["a"][1]) if x.get("k") == "str"]
            return [(st, ("esc", eng.rval(st, call.args[0], call.node["a"][0]), tuple(strs)))]
        return None

    def on_loop_entry(self, eng, entries, node, fr):
        self.entry.setdefault((node.get("_id"), fr.ctx), []).extend(s.copy() for s in entries)

    def on_loop_round(self, eng, head, backs, node, fr):
        for addr, v in head.store.items():
            if v[0] != "phi":
                continue
            for b in backs:
                w = b.store.get(addr)
                if w is None or w[0] != "cat":
                    continue
                ps = w[1]
                if not ps or ps[0] != ("s", v):
                    self.rounds.setdefault(v, []).append((ps, None))
                    continue
                self.rounds.setdefault(v, []).append((ps[1:], b))


def is_quote39(st):
    """a character known to be ' on the path"""
    for f, v in st.facts.items():
        if v and f[0] == "eq0" and f[1][0] == "lin" and abs(f[1][1]) == 39 and len(f[1][2]) == 1:
            return True
    return False


def not39(st, term):
    return st.facts.get(eq0(lin.add(term, c(-39)))) is False


def shell_quoter(p, f, cache):
    """does f return its one text argument quoted such that the shell takes it literally?"""
    if f["id"] in cache:
        return cache[f["id"]]
    cache[f["id"]] = False
    T = f["_types"]
    def istext(t):
        while t.get("k") in ("ref", "rref", "ptr"):
            t = T[t["to"]]
        return (t.get("k") == "rec" and norm_name(t.get("q") or "") in TEXT) or (t.get("k") == "int" and t.get("bits") == 8)
    if len(f["params"]) != 1 or not f.get("body") or f.get("ret") is None or f["ret"] < 0:
        return False
    if not istext(T[f["params"][0]["t"]]) or not istext(T[f["ret"]]):
        return False
    rule = QuoteRule()
    e = Engine(p, rule, max_steps=60000)
    try:
        res = e.run(f)
    except Exception:
        return False
    pv = ("param", f["id"], f["params"][0]["id"])
    def is_param(v):
        return v == pv or (v[0] == "ld" and v[1] == pv) or (v[0] == "ctor" and len(v[2]) == 1 and is_param(v[2][0])) or (v[0] == "sv" and v[1] == ("data", pv))
    def loop_ok(sym):
        rs = rule.rounds.get(sym)
        if not rs: return False
        for ps, b in rs:
            if b is None: return False
            txt = "".join(x[1] for x in ps) if all(x[0] == "t" for x in ps) else None
            if txt is not None:
                if txt not in ("'\\''", "'\"'\"'") or not is_quote39(b): return False
            elif len(ps) == 1 and ps[0][0] == "x" and ps[0][1][0] == "char":
                if not not39(b, ps[0][1][1]): return False
            else:
                return False
        return True
    if not res: return False
    for st, v in res:
        if v is None: return False
        v = e.load(st, v) if v[0] in ("&v", "&t", "&f") else v
        if is_param(v):
            # unchanged only if nothing in it means anything to the shell
            ok = False
            for ft, val in st.facts.items():
                if ft[0] == "eq0" and val:
                    for x in sub(ft[1]):
                        if x[0] == "call" and x[1].endswith("find_first_not_of") and len(x[2]) >= 2 and is_param(x[2][0]):
                            s = x[2][1]
                            while s[0] == "ctor" and len(s[2]) == 1: s = s[2][0]
                            if s[0] == "str" and set(s[1]) <= HARMLESS: ok = True
            if not ok: return False
            continue
        if v[0] != "cat": return False
        ps = v[1]
        if ps == (("t", "''"),):      # nothing to quote
            continue
        if len(ps) == 3 and ps[0] == ("t", "'") and ps[2] == ("t", "'") and ps[1][1][0] == "esc" and is_param(ps[1][1][1]) and ps[1][1][2] in (("'", "'\\''"), ("'", "'\"'\"'")):
            continue
        # loop symbol starts with the opening quote on entry
        if len(ps) == 2 and ps[1] == ("t", "'") and ps[0][0] == "s" and loop_ok(ps[0][1]) and opens(e, ps[0][1]):
            continue
        if len(ps) == 3 and ps[0] == ("t", "'") and ps[2] == ("t", "'") and ps[1][0] == "s" and loop_ok(ps[1][1]) and opens(e, ps[1][1], ""):
            continue
        return False
    cache[f["id"]] = True
    return True


def opens(e, sym, want="'"):
    """on entry of the loop the text is the opening quote"""
    es = e.rule.entry.get(sym[1][0], ())
    if not es: return False
    for s in es:
        ps = vpieces(e.load(s, sym[2]), {"k": "rec"})
        if norm(ps) != norm((("t", want),)): return False
    return True


def sub(t):
    if isinstance(t, tuple) and t:
        if isinstance(t[0], str) and len(t) > 1:
            yield t
        for x in t:
            if isinstance(x, tuple):
                yield from sub(x)


# ---------------------------------------------------------------- verified regular-expression quoting
REGEX_SPECIAL = set("^$\\.*+?()[]{}|")


def regex_quoter(p, f, cache):
    """does f return its one text argument with every special character escaped?"""
    if f["id"] in cache:
        return cache[f["id"]]
    cache[f["id"]] = False
    T = f["_types"]
    if len(f["params"]) != 1 or not f.get("body") or f.get("ret") is None or f["ret"] < 0 or norm_name(T[f["ret"]].get("q") or "") != "std::basic_string":
        return False
    if not any(x.get("k") in ("for", "foreach", "while") for x in fn_nodes(f)):
        return False
    rule = QuoteRule()
    e = Engine(p, rule, max_steps=60000)
    try:
        res = e.run(f)
    except Exception:
        return False
    def round_ok(ps, b):
        if b is None: return False
        esc = ps and ps[0] == ("t", "\\")
        body = ps[1:] if esc else ps
        if esc and len(ps) == 1: return False
        if len(body) != 1 or body[0][0] != "x" or body[0][1][0] != "char": return False
        ch = body[0][1][1]
        if esc: return True
        # not escaped: the path must exclude every special character
        known = set()
        for ft, val in b.facts.items():
            for x in sub(ft):
                if x[0] == "call" and x[1].rpartition("::")[2] in ("strchr", "find", "contains", "find_first_of"):
                    s = next((y[1] for y in sub(x) if y[0] == "str"), None)
                    absent = (x[1].endswith("strchr") and val is True and ft[0] == "eq0") or (x[1].endswith("strchr") and val is False and ft == x) or \
                        (x[1].endswith("contains") and not val) or (x[1].endswith(("find", "find_first_of")) and ft[0] == "eq0" and val)
                    if s is not None and absent and any(y == ch for y in sub(x)): known |= set(s)
                if x[0] == "call" and x[1] in ("isalnum", "std::isalnum", "absl::ascii_isalnum", "isalpha", "std::isalpha") and ((ft == x and val) or (ft[0] == "eq0" and not val)):
                    known |= REGEX_SPECIAL
            if ft[0] == "eq0" and not val and ft[1][0] == "lin" and len(ft[1][2]) == 1 and ft[1][2][0][0] == ch:
                known.add(chr(abs(ft[1][1]) & 255))
        return REGEX_SPECIAL <= known
    ok = bool(res)
    for st, v in res:
        v = e.load(st, v) if v and v[0] in ("&v", "&t", "&f") else v
        if v is None: return False
        ps = vpieces(v, {"k": "rec"})
        if ps == (): continue
        if len(ps) != 1 or ps[0][0] != "s" or ps[0][1][0] != "phi": return False
        rs = rule.rounds.get(ps[0][1])
        if not rs or not all(round_ok(a, b) for a, b in rs) or not opens(e, ps[0][1], ""): return False
    cache[f["id"]] = ok
    return ok


def unquotes_only_wildcards(strs):
    """replacements applied to quoted text: (old, new, ...) only wildcards lose their quoting"""
    if len(strs) < 2 or len(strs) % 2: return "replacement that is not a list of literals"
    for old, new in zip(strs[::2], strs[1::2]):
        rest = old.replace("\\*", "").replace("\\/", "").replace("/", "")
        if rest: return "replacement of %r takes away the quoting of something other than a wildcard" % old
        if "\\*" not in old and old not in new: return "replacement of %r" % old
        if not old: return "empty replacement"
    return None
