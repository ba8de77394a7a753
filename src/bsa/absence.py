"""Results that may be absent: optional values, pointers that are null for 'none', iterators that may be at the end.

Every function is interpreted from an unknown state; each use of such a result must be on a
path that has established its presence.  Parameters are asked at their call sites and results
at the returns of the callee; only what can be traced to an absent value is reported."""
from .engine import Engine, Rule, St, c, C0, C1, eq0, show, neg
from .prog import AnalysisError, norm_name, fn_nodes, walk
from .cmdline import production, strip
from .nulls import Tree

FINDERS = {"find", "lower_bound", "upper_bound", "find_if", "find_first_of", "search", "adjacent_find", "find_if_not", "find_end"}
NULLABLE = {"popen", "fdopen", "freopen", "tmpfile", "std::tmpfile", "getenv", "std::getenv", "fopen", "opendir", "readdir", "strchr", "strrchr", "strstr", "memchr", "realpath", "std::strchr", "std::strstr", "std::memchr", "std::fopen", "std::get_if", "std::any_cast", "secure_getenv"}
# library functions that need the file, directory or text they are given
TAKERS = {"fclose", "pclose", "fread", "fwrite", "fgets", "fputs", "fputc", "fgetc", "getc", "putc", "fprintf", "vfprintf", "fscanf", "getline", "fseek", "ftell", "rewind", "feof", "ferror", "fileno", "setvbuf", "readdir", "closedir", "rewinddir", "dirfd",
          "strlen", "strcmp", "strncmp", "strcasecmp", "strcpy", "strcat", "strdup", "strchr", "strrchr", "strstr", "atoi", "atol", "atof", "strtol", "strtoul", "strtod", "open", "fopen", "popen", "opendir", "stat", "lstat", "access", "unlink", "mkdir", "rename", "chdir", "system",
          "memcpy", "memmove", "memcmp", "memset", "operator<<"}
TEXTS = {"std::basic_string", "std::basic_string_view", "absl::AlphaNum", "std::filesystem::path"}
SMARTP = {"std::unique_ptr", "std::shared_ptr"}


class Uses(Rule):
    peel = False

    def __init__(self, ab, fn):
        self.ab, self.fn = ab, fn
        self.origin = {}

    def inline(self, eng, fn, fr): return self.ab.inlined(fn)

    # ------------------------------------------------------------- status
    def status(self, eng, st, v, seen=()):
        """what the presence of this pointer depends on; () if present"""
        k = eng.truth(st, eq0(v))
        if k is False: return ()
        if k is True: return (("absent", "null"),)
        if v in seen: return ()
        if v in self.origin: return (self.origin[v],)
        if v[0] == "get":
            return self.owned(eng, st, v[1], seen + (v,))
        if v[0] == "phi" and v in eng.phi_src:
            r = []
            for x in eng.phi_src[v]: r += self.status(eng, st, x, seen + (v,))
            return tuple(dict.fromkeys(r))
        if v[0] == "ite": return tuple(dict.fromkeys(self.status(eng, st, v[2], seen + (v,)) + self.status(eng, st, v[3], seen + (v,))))
        if v[0] == "param": return (("param", v[1], v[2], "ptr"),)
        return ()

    def owned(self, eng, st, v, seen=()):
        """a smart pointer"""
        if v[0] == "ctor" and v[1] in SMARTP: return self.status(eng, st, v[2][0], seen) if v[2] else (("absent", "empty"),)
        if v in self.origin: return (self.origin[v],)
        if v[0] == "phi" and v in eng.phi_src and v not in seen:
            r = []
            for x in eng.phi_src[v]: r += self.owned(eng, st, x, seen + (v,))
            return tuple(dict.fromkeys(r))
        return ()

    def filled(self, eng, st, v, seen=()):
        """an optional value"""
        t = ("has", v)
        k = eng.has_known(v)
        if k is True: return ()
        if k is False: return (("absent", "empty"),)
        k = eng.truth(st, t)
        if k is True: return ()
        if v in seen: return ()
        if k is False: return (("absent", "empty"),)
        if v in self.origin: return (self.origin[v],)
        if v[0] == "phi" and v in eng.phi_src:
            r = []
            for x in eng.phi_src[v]: r += self.filled(eng, st, x, seen + (v,))
            return tuple(dict.fromkeys(r))
        if v[0] == "param": return (("param", v[1], v[2], "opt"),)
        if v[0] == "ld" and v[1][0] == "param": return (("param", v[1][1], v[1][2], "opt"),)
        return (("absent", "an optional that may be empty (%s)" % show(v)[:60]),)

    def found(self, eng, st, v, seen=()):
        """an iterator"""
        if v in self.origin:
            if any(t[0] == "eq" and v in t[1:] and any(x[0] == "end" for x in t[1:]) and not k for t, k in st.facts.items()): return ()
            return (self.origin[v],)
        if v[0] == "phi" and v in eng.phi_src and v not in seen:
            r = []
            for x in eng.phi_src[v]: r += self.found(eng, st, x, seen + (v,))
            return tuple(dict.fromkeys(r))
        if v[0] == "end": return (("absent", "at the end"),)
        if v[0] != "found": return ()
        k = eng.truth(st, eng.eqterm(v, ("end", v[1]), numeric=False))
        if k is False: return ()
        return (("absent", "%s may have found nothing" % v[2]),)

    # ------------------------------------------------------------- uses
    def use(self, kind, d, node, fr, what):
        self.ab.uses.setdefault((fr.fn["id"], kind, node.get("_id")), []).append((d, fr.where(node), what))

    def on_deref(self, eng, st, ptr, node, fr):
        b = node.get("obj") if node["k"] == "call" else node.get("b") if node["k"] == "mem" else node.get("e")
        if b is None or ptr[0] in ("this", "&v", "&f", "&t", "&i", "&g", "new"): return
        t = fr.types[b["t"]] if b.get("t", -1) >= 0 else {}
        while t.get("k") in ("ref", "rref"): t = fr.types[t["to"]]
        if t.get("k") == "ptr":
            to = fr.types[t["to"]]
            if to.get("rec") in self.ab.tree.classes or to.get("k") == "int" and "char" in (to.get("s") or ""): return
        elif norm_name(t.get("q") or "") in SMARTP:
            if any(x in (t.get("s") or "") for x in self.ab.treenames): return
        else: return
        self.use("pointer", self.status(eng, st, ptr), node, fr, self.say(b))
        eng.assume(st, eq0(ptr), False)

    def on_optional(self, eng, st, val, node, fr):
        self.use("optional", self.filled(eng, st, val), node, fr, self.say(node.get("obj")))
        if eng.has_known(val) is None: eng.assume(st, ("has", val), True)

    def say(self, b):
        for x in walk(b):
            if x.get("k") in ("var", "mem"): return (x.get("n") or "value").split("::")[-1]
            if x.get("k") == "call": return norm_name(x.get("n") or "call").split("::")[-1]
        return "value"

    # ------------------------------------------------------------- calls
    def pre_call(self, eng, st, call):
        n, nm = call.node, norm_name(call.name or "")
        short = nm.rpartition("::")[2]
        ext = n.get("ext") or call.fid not in self.ab.p.functions
        rt = call.fr.types[n["t"]] if n.get("t", -1) >= 0 else {}
        if ext and call.obj is not None and short in ("end", "cend", "begin", "cbegin") and not call.args and not nm.startswith("std::basic_string_view"):
            return [(st, (short[-5:] if short.endswith("begin") else "end", call.obj))]
        if ext and short in FINDERS and not nm.startswith(("std::basic_string", "absl::str", "re2")) and rt.get("k") != "int":
            if call.obj is not None:
                key = (eng.rval(st, call.args[0], n["a"][0]) if n["a"][0].get("lv") else call.args[0]) if len(call.args) == 1 else None
                return [(st, ("found", call.obj, short, n.get("_id"), call.fr.ctx, key))]
            ends = [v for v in (eng.rval(st, a, d) if d.get("lv") else a for a, d in zip(call.args, n["a"])) if v[0] == "end"]
            if ends: return [(st, ("found", ends[0][1], short, n.get("_id"), call.fr.ctx))]
            return None
        if ext and nm in ("std::next",) and n["a"]:
            v = eng.rval(st, call.args[0], n["a"][0]) if n["a"][0].get("lv") else call.args[0]
            if v[0] == "found": return [(st, ("found", v[1], "the next of what %s found" % v[2], n.get("_id"), call.fr.ctx))]
            return None
        if ext and short in ("operator->", "operator*") and (call.obj is not None or len(call.args) == 1) and norm_name(n.get("rq") or "") not in SMARTP | {"std::optional"}:
            d = n["obj"] if call.obj is not None else n["a"][0]
            v = eng.load(st, call.obj) if call.obj is not None else eng.rval(st, call.args[0], d)
            dep = self.found(eng, st, v)
            if v[0] == "found" or v in self.origin: self.use("iterator", dep, n, call.fr, self.say(d))
            if v[0] == "found":
                eng.assume(st, eng.eqterm(v, ("end", v[1]), numeric=False), False)
                return [(st, ("&t", call.fr.ctx, ("elem", v)))]
            return None
        if ext and n["k"] == "call" and (nm in TAKERS or nm.startswith("std::") and nm[5:] in TAKERS) or call.ctor_of is not None and norm_name(call.ctor_of) in TEXTS:
            for a, nd in zip(call.args, n.get("a", ())):
                t = call.fr.types[nd["t"]] if nd.get("t", -1) >= 0 else {}
                while t.get("k") in ("ref", "rref"): t = call.fr.types[t["to"]]
                if t.get("k") == "ptr":
                    v = eng.rval(st, a, nd) if nd.get("lv") else a
                    if v[0] not in ("&v", "&f", "&t", "&i", "&g", "new", "str"): self.use("pointer", self.status(eng, st, v), nd if nd.get("_id") else n, call.fr, self.say(nd))
        fn = self.ab.p.functions.get(call.fid)
        if call.fid and (fn is None or n.get("virt") or not eng.can_inline(fn, call.fr)): self.pass_args(eng, st, call)
        return None

    def pass_args(self, eng, st, call):
        n = call.node
        for i, (a, nd) in enumerate(zip(call.args, n.get("a", ()))):
            pts = n.get("pt") or []
            pt = pts[i] if i < len(pts) else -1
            if pt is None or pt < 0: continue
            t = call.fr.types[pt]
            v = a
            if t.get("k") in ("ref", "rref"):
                t = call.fr.types[t["to"]]
                v = eng.load(st, a) if t.get("k") != "rec" or norm_name(t.get("q") or "") in SMARTP | {"std::optional"} else a
            elif nd.get("lv"): v = eng.rval(st, a, nd)
            q = norm_name(t.get("q") or "")
            if t.get("k") == "ptr": d = self.status(eng, st, v)
            elif q == "std::optional": d = self.filled(eng, st, v)
            elif q in SMARTP: d = self.owned(eng, st, v)
            else: continue
            self.ab.args.setdefault((call.fid, i), []).append((d, call.where()))

    def post_call(self, eng, st, call, ret):
        if ret is None or ret[0] not in ("sym", "call"): return
        nm = norm_name(call.name or "")
        rt = call.fr.types[call.node["t"]] if call.node.get("t", -1) >= 0 else {}
        q = norm_name(rt.get("q") or "")
        if rt.get("k") == "ptr":
            if call.fid in self.ab.p.functions: self.origin.setdefault(ret, ("ret", call.fid, "ptr") + self.listed_args(eng, st, call))
            elif nm in NULLABLE: self.origin.setdefault(ret, ("absent", "%s may find nothing" % nm))
        elif "iterator" in q and call.fid in self.ab.p.functions: self.origin.setdefault(ret, ("ret", call.fid, "it"))
        elif q in SMARTP and call.fid in self.ab.p.functions: self.origin.setdefault(ret, ("ret", call.fid, "own"))
        elif q == "std::optional":
            if call.fid in self.ab.p.functions: self.origin.setdefault(ret, ("ret", call.fid, "opt") + self.listed_args(eng, st, call))
            else: self.origin.setdefault(ret, ("absent", "result of %s may be empty" % nm))


    def listed_args(self, eng, st, call):
        """arguments that are elements of a sequence member of the object asked: (position, member)"""
        if call.obj is None: return ()
        r = []
        for i, (a, nd) in enumerate(zip(call.args, call.node.get("a", ()))):
            v = eng.rval(st, a, nd) if nd.get("lv") else a
            if v[0] == "ld" and v[1][0] == "deref": v = v[1][1]
            for x in eng.phi_src.get(v, ()) if v[0] == "phi" else (v,):
                if x[0] == "begin" and x[1][0] == "&f" and x[1][1] == call.obj: r.append((i, x[1][2]))
        return tuple(r)

    def lookup(self, eng, st):
        """(member, parameter) if the path went on because that member has no such key"""
        for t, k in st.facts.items():
            if not k: continue
            for x in (y for y in t if isinstance(y, tuple) and y and y[0] == "found"):
                if x[5:] and x[5] and x[1][0] == "&f" and x[1][1][0] == "this":
                    i = next((i for i, q in enumerate(self.fn["params"]) if any(z == ("param", self.fn["id"], q["id"]) for z in subterms(x[5]))), None)
                    if i is not None and t == eng.eqterm(x, ("end", x[1]), numeric=False): return ("lookup", x[1][2], i)
        return None


def subterms(v):
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            yield x
            todo += x


class Absence:
    def __init__(self, p, rep=None, K=60):
        self.p, self.rep, self.K = p, rep, K
        self.tree = Tree(p)
        self.treenames = [x.rpartition("::")[2] + ">" for x in self.tree.classes]
        self.uses, self.args, self.rets = {}, {}, {}
        self.callers, self.keyed = {}, {}
        for f in p.functions.values():
            if "_test" in f["file"]: continue
            for x, n in p.calls.get(f["id"], ()): self.callers.setdefault(x, []).append((f["id"], n))
        self.fns = [f for f in p.functions.values() if (production(f) or f["file"].startswith("scripts/")) and (f.get("body") or f.get("ctor")) and not f.get("implicit") and not f["id"].startswith("lambda@") and not self.covered(f)]
        for f in self.fns: self.analyse(f)

    def interesting(self, ty, t):
        if t is None or t < 0: return None
        t = ty[t]
        while t.get("k") in ("ref", "rref"): t = ty[t["to"]]
        if t.get("k") == "ptr": return "ptr"
        q = norm_name(t.get("q") or "")
        return "opt" if q == "std::optional" else "own" if q in SMARTP else "it" if "iterator" in q and "::" in q and "bant" not in q else None

    def inlined(self, fn):
        if fn["id"].startswith("lambda@"): return True
        if fn.get("virtual") or fn.get("ctor"): return False
        t = fn["_types"][fn["ret"]] if fn.get("ret") is not None and fn["ret"] >= 0 else {}
        if self.getter(fn): return True
        return t.get("k") == "bool" and len(list(fn_nodes(fn))) < 60 and any(self.interesting(fn["_types"], q["t"]) for q in fn["params"])

    def covered(self, f):
        cs = self.callers.get(f["id"])
        return bool(cs) and self.inlined(f) and all(n["k"] in ("call", "ctor") for _, n in cs) and not any(x == f["id"] for x, _ in cs)

    def analyse(self, f):
        rule = Uses(self, f)
        e = Engine(self.p, rule, K=self.K, max_depth=6)
        this = ("this", f.get("rec")) if f.get("rec") and not f.get("static") else None
        outs = e.run(f, this=this)
        kind = self.interesting(f["_types"], f.get("ret"))
        if kind:
            ask = {"ptr": rule.status, "opt": rule.filled, "own": rule.owned, "it": rule.found}[kind]
            r = self.rets.setdefault(f["id"], {})
            for s, v in outs:
                if v is None: continue
                d = ask(e, s, v)
                if d and d[0][0] == "absent": d = (rule.lookup(e, s) or d[0],) + d[1:]
                r[d] = "%s:%s" % (f["file"], f["line"])
        if self.rep: self.rep.eng(e)

    def getter(self, fn):
        """returns (a reference to) a member, and nothing else"""
        ns = [n for n in fn_nodes(fn) if n.get("k") is not None and n["k"] not in ("block", "ret", "cast", "ld", "this")]
        return bool(fn.get("rec")) and not fn["params"] and len(ns) == 1 and ns[0]["k"] == "mem"

    def keys_of(self, seq, mapping):
        """every element of the member seq is a key of the member mapping: added only together, never taken out"""
        key = (seq, mapping)
        if key in self.keyed: return self.keyed[key]
        good, added = True, 0
        for f in self.p.functions.values():
            if not f["file"].startswith("bant/"): continue
            ns = [n for n in fn_nodes(f) if "k" in n]
            if not any(n["k"] == "mem" and n.get("f") in key for n in ns): continue
            on = [(n, strip(n["obj"])) for n in ns if n["k"] == "call" and isinstance(n.get("obj"), dict)]
            on = [(n, b["f"], b) for n, b in on if b.get("k") == "mem" and b.get("f") in key]
            known = {id(b) for _, _, b in on}
            for n in ns:
                if n["k"] == "mem" and n.get("f") in key and id(n) not in known and not (n["f"] == seq and (self.getter(f) or f.get("ctor") or f.get("implicit"))) and not f.get("implicit"): good = False
            for i, (n, m, _) in enumerate(on):
                short = norm_name(n.get("n") or "").rpartition("::")[2]
                if short in ("begin", "end", "cbegin", "cend", "size", "empty", "find", "contains", "count"): continue
                if m == mapping and short in ("insert", "emplace", "try_emplace", "operator[]"): continue
                if m == seq and short in ("push_back", "emplace_back"):
                    vs = {x.get("id") for a in n["a"] for x in walk(a) if x["k"] == "var"}
                    if vs and any(m2 == mapping and vs & {x.get("id") for a in n2["a"] for x in walk(a) if x["k"] == "var"} for n2, m2, _ in on[:i]):
                        added += 1
                        continue
                good = False
        self.keyed[key] = good and added > 0
        return self.keyed[key]

    def implementations(self, fid):
        res, todo = set(), [fid]
        while todo:
            x = todo.pop()
            if x in res: continue
            res.add(x)
            todo += self.p.overriders.get(x, ())
        return res

    def bases_of(self, fid):
        res, todo = set(), [fid]
        while todo:
            x = todo.pop()
            if x in res: continue
            res.add(x)
            todo += (self.p.functions.get(x) or {}).get("overrides", ())
        return res

    def solve(self, deps):
        seen, todo = set(), [(d, ()) for d in deps]
        while todo:
            o, path = todo.pop(0)
            if o in seen: continue
            seen.add(o)
            if o[0] == "absent": return o[1] + "".join(" <- " + x for x in path)
            if o[0] == "param":
                f = self.p.functions[o[1]]
                i = next((i for i, q in enumerate(f["params"]) if q["id"] == o[2]), None)
                if i is None: continue
                for b in self.bases_of(o[1]):
                    for d, w in self.args.get((b, i), ()):
                        todo += [(x, path + ("argument %s at %s" % (o[2].split(":")[-1], w),)) for x in d]
            elif o[0] == "ret":
                for x in self.implementations(o[1]):
                    g = self.p.functions.get(x)
                    for d, w in self.rets.get(x, {}).items():
                        todo += [(("absent", "nothing found"), path + ("result of %s" % norm_name(g["q"]),)) if y[0] == "lookup" else (y, path + ("result of %s" % norm_name(g["q"]),)) for y in d if not (y[0] == "lookup" and any(i == y[2] and self.keys_of(q, y[1]) for i, q in o[3:]))]
        return None
