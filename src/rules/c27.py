"""C27: objects others point into can not be copied or relocated."""
from bsa.engine import Engine, Rule, St, C0
from bsa.prog import AnalysisError, norm_name, fn_nodes, walk
from bsa.textflow import unload

TECHNIQUE = "type-level analysis: for every class, which members can hold addresses of the object itself or of what it owns (from all initialisers and assignments), against the special member functions the compiler provides"
NOTE = ("Which copy and move operations exist, and which of them are deleted, is taken from the compiler. User-written operations are judged by what they do with the members concerned. Pointers kept outside the class are covered for the classes the "
        "property names: source locators that hand out views of text they hold themselves, and objects whose address is registered.")
EXPLANATION = ("(1) A class that stores, in one of its members, an address of or a view into itself must not offer memberwise copy or move. (2) A class that keeps a plain pointer into memory another of its members owns must not offer memberwise copy or move, "
               "unless the operation clears the pointer in the source. (3) A source locator that hands out views of text it holds in place must be neither copyable nor movable. (4) Text others hold views of is never modified, and is initialised before views "
               "of it are made. (5) A locator or text registered with the project is not a local object.")
UNITS = ["bant/frontend/parsed-project.cc", "bant/frontend/elaboration.cc"]

VIEWS = {"std::basic_string_view", "std::span", "std::reference_wrapper", "__gnu_cxx::__normal_iterator", "std::weak_ptr"}
OWN = {"std::unique_ptr", "std::shared_ptr", "std::vector", "std::deque", "std::list", "std::basic_string", "std::map", "std::set"}
INPLACE = {"std::basic_string", "std::array", "std::optional"}
OPS = {"copyctor": "copy-constructed", "movector": "move-constructed", "copyassign": "copy-assigned", "moveassign": "move-assigned"}


def holds(p, T, t, seen=()):
    """values of this type may hold an address"""
    if t is None: return False
    k = t.get("k")
    if k in ("ptr", "ref"): return True
    if k == "arr": return holds(p, T, T[t["to"]], seen)
    q = norm_name(t.get("q") or "")
    if q in VIEWS: return True
    r = p.records.get(t.get("rec"))
    if r is not None:
        if r["id"] in seen: return False
        return any(holds(p, r["_types"], r["_types"][x["type"]], seen + (r["id"],)) for x in r["fields"]) or \
            any(holds(p, r["_types"], r["_types"][b], seen + (r["id"],)) for b in r["bases"])
    if q in OWN or q.startswith(("std::vector", "absl::")):
        return "iterator" in t.get("s", "") or "string_view" in t.get("s", "")
    return False


def own_member(e, this=True):
    """member of the object itself an lvalue denotes (or is inside of)"""
    last = None
    while e is not None:
        k = e.get("k")
        if k in ("cast",): e = e["e"]; continue
        if k == "mem":
            last = e["f"]; b = e.get("b")
            while b is not None and b.get("k") == "cast": b = b["e"]
            if b is not None and b.get("k") == "this": return last
            if e.get("arrow"): return None
            e = e.get("b"); continue
        if k == "idx": 
            e = e["b"]; continue
        return None
    return None


def into_self(e, T=None):
    """members of the object itself whose address or a view of which an expression yields: [(field, node)]"""
    out = []
    def go(x, lvalue_counts):
        if x is None: return
        k = x.get("k")
        if T is not None and k in ("ld", "cast", "call", "bin") and x.get("t") is not None and T[x["t"]].get("k") in ("int", "bool", "float", "enum"): return   # a number
        if k == "ld":
            y = x["e"]
            while y.get("k") == "cast": y = y["e"]
            if y.get("k") in ("call", "ctor"): go(y, lvalue_counts)
            return          # a copied value; what it points to is not the object itself
        if k == "mem":
            f = own_member(x)
            if f is not None and lvalue_counts: out.append((f, x))
            return
        if k == "un" and x.get("op") == "&":
            f = own_member(x["e"])
            if f is not None: out.append((f, x))
            elif x["e"].get("k") == "un" and x["e"].get("op") == "*" and x["e"]["e"].get("k") == "this": out.append((None, x))
            return
        if k == "this":
            out.append((None, x)); return
        if k == "un" and x.get("op") == "*" and x["e"].get("k") == "this":
            if lvalue_counts: out.append((None, x))
            return
        if k == "cast" and x.get("ck") == "ArrayToPointerDecay":
            go(x["e"], True); return
        if k in ("cast", "un"): go(x["e"], lvalue_counts); return
        if k == "call":
            o = x.get("obj")
            short = norm_name(x.get("n") or "").rpartition("::")[2]
            if o is not None and short in ("operator basic_string_view", "data", "c_str", "begin", "end", "cbegin", "cend", "get", "front", "back", "operator[]", "at", "find", "substr"):
                q = norm_name(x.get("rq") or x.get("n") or "")
                if short == "substr" and not q.startswith("std::basic_string_view"): return
                if q.startswith(("std::unique_ptr", "std::shared_ptr")): return     # what it owns is not part of the object
                go(o, "string_view" not in q.split("::operator")[0] and "unique_ptr" not in q)
            for a in x.get("a", ()): go(a, True)
            return
        if k == "ctor":
            if x.get("cm_ctor"):
                return
            for a in x.get("a", ()): go(a, True)
            return
        if k in ("cond", "elvis"):
            for kk in ("a", "b", "t", "f"):
                if isinstance(x.get(kk), dict): go(x[kk], lvalue_counts)
            return
        if k == "init":
            for y in x.get("es", ()): go(y, lvalue_counts)
            return
        if k == "bin" and x.get("op") in ("+", "-"):
            go(x["a"], lvalue_counts); go(x["b"], lvalue_counts)
    go(e, False)
    return out


def specials(r):
    return {m["special"]: m for m in r["methods"] if m.get("special") in OPS}


def stores(p, r):
    """(field, expression, function, is initialiser) for everything stored into members of r"""
    for f in p.functions.values():
        if f.get("rec") != r["id"] or f["id"].startswith("lambda@") or f.get("implicit"): continue
        for i in f.get("inits", ()):
            if i.get("field") and i.get("e"): yield i["field"], i["e"], f, True
        locs = {}
        for x in fn_nodes(f):
            if x.get("k") == "decl":
                for v in x["vars"]:
                    if v.get("init"): locs[v["id"]] = v["init"]
            elif x.get("k") == "asg":
                m = own_member(x["a"])
                if m: yield m, resolve(x["b"], locs), f, False
            elif x.get("k") == "call" and x.get("obj") is not None and norm_name(x.get("n") or "").rpartition("::")[2] in ("operator=", "reset", "push_back", "emplace_back", "emplace", "insert", "assign"):
                m = own_member(x["obj"])
                if m:
                    for a in x["a"]: yield m, resolve(a, locs), f, False
    for x in r["fields"]:
        if x.get("init"): yield x["id"], x["init"], None, True


def resolve(e, locs, hops=0):
    """the expression with local variables replaced by what they were initialised with"""
    if not isinstance(e, dict) or hops > 6: return e
    if e.get("k") == "ld" and e["e"].get("k") == "var" and e["e"].get("id") in locs: return resolve(locs[e["e"]["id"]], locs, hops + 1)
    if e.get("k") in ("cast", "un", "ld"): return dict(e, e=resolve(e["e"], locs, hops))
    if e.get("k") == "bin": return dict(e, a=resolve(e["a"], locs, hops), b=resolve(e["b"], locs, hops))
    return e


def owner_of(e, r, p=None, fn=None, known=None, seen=()):
    """members owning the memory a pointer expression is taken from: followed through local variables (what they are
    initialised with or assigned, and the owner they are handed to), the class's own methods and its other pointers"""
    own = {x["id"] for x in r["fields"] if norm_name(r["_types"][x["type"]].get("q") or "") in OWN}
    again = lambda x, g=fn: owner_of(x, r, p, g, known, seen)
    while isinstance(e, dict):
        k = e.get("k")
        if k in ("cast", "ld"): e = e["e"]; continue
        if k == "un" and e.get("op") in ("*", "&"): e = e["e"]; continue
        if k == "bin" and e.get("op") in ("+", "-"): e = e["a"]; continue
        if k == "asg": e = e["b"]; continue
        if k == "idx": e = e["b"]; continue
        if k == "cond": return again(e["a"]) | again(e["b"])
        if k == "ctor" and len(e.get("a") or ()) == 1: e = e["a"][0]; continue
        if k == "mem":
            f = own_member(e)
            if f in own: return {f}
            return set((known or {}).get(f, ())) if f is not None else again(e["b"]) if isinstance(e.get("b"), dict) else set()
        if k == "call":
            g = p.functions.get(e.get("f")) if p else None
            if g is not None and g.get("rec") == r["id"] and g.get("body") and g["id"] not in seen:
                res = set()
                for x in fn_nodes(g):
                    if x.get("k") == "ret" and isinstance(x.get("e"), dict): res |= owner_of(x["e"], r, p, g, known, seen + (g["id"],))
                if res: return res
            if e.get("obj") is not None: e = e["obj"]; continue
            if norm_name(e.get("n") or "") in ("std::exchange", "std::move", "std::forward", "std::addressof", "std::next", "std::launder") and e.get("a"): e = e["a"][0]; continue
            return set()
        if k == "var" and fn is not None and ("v", e["id"]) not in seen:
            seen = seen + (("v", e["id"]),)
            res = set()
            for x in fn_nodes(fn):
                if x.get("k") == "decl":
                    for v in x["vars"]:
                        if v["id"] == e["id"] and isinstance(v.get("init"), dict): res |= owner_of(v["init"], r, p, fn, known, seen)
                elif x.get("k") == "foreach" and (x.get("var") or {}).get("id") == e["id"]: res |= owner_of(x["range"], r, p, fn, known, seen)
                elif x.get("k") == "asg" and isinstance(x.get("a"), dict):
                    if x["a"].get("k") == "var" and x["a"].get("id") == e["id"]: res |= owner_of(x["b"], r, p, fn, known, seen)
                    elif own_member(x["a"]) in own and any(y.get("k") == "var" and y.get("id") == e["id"] for y in walk(x["b"])): res.add(own_member(x["a"]))
                elif x.get("k") == "call" and x.get("obj") is not None and own_member(x["obj"]) in own and any(y.get("k") == "var" and y.get("id") == e["id"] for a in x.get("a") or () for y in walk(a)):
                    if handed(r, fn, e["id"]): res.add(own_member(x["obj"]))
            return res
        return set()
    return set()


def handed(r, fn, v):
    """a variable that owns memory, or that memory was allocated for: giving it away makes the receiver the owner"""
    for x in fn_nodes(fn):
        if x.get("k") == "decl":
            for d in x["vars"]:
                if d["id"] == v:
                    if norm_name(fn["_types"][d["t"]].get("q") or "") in OWN: return True
                    if isinstance(d.get("init"), dict) and any(y.get("k") == "new" for y in walk(d["init"])): return True
        if x.get("k") == "asg" and isinstance(x.get("a"), dict) and x["a"].get("k") == "var" and x["a"].get("id") == v and any(y.get("k") == "new" for y in walk(x["b"])): return True
    return False


def check(p, rep, tier):
    recs = [r for r in p.records.values() if (r["file"].startswith("bant/")) and not r["id"].startswith("lambda@") and not r["file"].endswith("_test.cc")]
    selfp = 0
    shown = set()
    for r in sorted(recs, key=lambda r: r["id"]):
        rep.functions.add(r["id"])
        F = {x["id"]: (i, x) for i, x in enumerate(r["fields"])}
        T = r["_types"]
        sp = specials(r)
        where = "%s:%s" % (r["file"], r["line"])
        name = r["q"].replace("(anonymous namespace)::", "")
        mine, owned = {}, {}
        for f, e, fn, isinit in stores(p, r):
            if f not in F or not holds(p, T, T[F[f][1]["type"]]): continue
            for g, node in into_self(e, fn['_types'] if fn else T):
                if g is not None and g not in F: g = None
                if g is not None and not carries(p, T, T[F[g][1]["type"]], T[F[f][1]["type"]]): continue
                mine.setdefault(f, []).append((g, node, fn, isinit))
        for _ in range(3):
            for f, e, fn, isinit in stores(p, r):
                if f in F and T[F[f][1]["type"]].get("k") == "ptr":
                    o = owner_of(e, r, p, fn, owned)
                    if o: owned.setdefault(f, set()).update(o)
        for f, src in mine.items():
            selfp += 1
            for kind, what in OPS.items():
                m = sp.get(kind)
                ok = m is None or m["deleted"] or (m["provided"] and not keeps(p, m, f))
                rep.ob("self-pointing", "%s::%s %s" % (name, F[f][1]["name"], kind), where, ok, "can be %s, which leaves %s pointing into the other object" % (what, F[f][1]["name"]))
            for g, node, fn, isinit in src:
                if g is None: continue
                if isinit and g != f:
                    rep.ob("initialised-first", "%s::%s" % (name, F[f][1]["name"]), "%s:%s" % (r["file"], F[f][1]["line"]), F[g][0] < F[f][0] or not reads(T[F[f][1]["type"]]), "is made from %s, which is only initialised later" % F[g][1]["name"])
                if norm_name(T[F[g][1]["type"]].get("q") or "") in OWN:
                    bad = changed(p, r, g)
                    rep.ob("text-unchanged", "%s::%s" % (name, F[g][1]["name"]), where, bad is None, "is modified at %s, although views into it are held" % bad)
        for f, os in owned.items():
            for kind, what in OPS.items():
                m = sp.get(kind)
                ok = m is None or m["deleted"] or (m["provided"] and clears(p, m, f, kind, r))
                rep.ob("points-to-owned", "%s::%s %s" % (name, F[f][1]["name"], kind), where, ok, "can be %s, which leaves two objects pointing into memory only one of them owns" % what)
    # ---- source locators
    base = [r for r in recs if any(m["pure"] for m in r["methods"]) and any(m["name"] == "GetLocation" or "FileLocation (" in m["type"] for m in r["methods"] if m["pure"])]
    if not base: raise AnalysisError("interface of source locators not found")
    bases = {r["id"] for r in base}
    loc = [r for r in recs if derives(p, r, bases) and r["id"] not in bases]
    for r in loc:
        where = "%s:%s" % (r["file"], r["line"])
        inplace = [x for x in r["fields"] if norm_name(r["_types"][x["type"]].get("q") or "") in INPLACE]
        handed = [x for x in inplace if gives(p, r, x["id"])]
        sp = specials(r)
        for x in handed:
            for kind, what in OPS.items():
                m = sp.get(kind)
                rep.ob("locator-stays", "%s::%s %s" % (r["q"], x["name"], kind), where, m is None or m["deleted"], "a source locator that hands out views of its %s can be %s" % (x["name"], what))
    # ---- what is registered
    regs = registrars(p, bases)
    nreg = 0
    for f in sorted(p.functions.values(), key=lambda f: (f["file"], f["line"])):
        if not f["file"].startswith("bant/") or f["file"].endswith("_test.cc") or not f.get("body"): continue
        for x in fn_nodes(f):
            if x.get("k") != "call" or x.get("f") not in regs: continue
            li, ti = regs[x["f"]]
            where = "%s:%s" % (f["file"], x["l"])
            nreg += 1
            v = local(x["a"][li])
            rep.ob("registered-lives", "%s: locator" % f["q"], where, v is None, "registers the address of local object %s" % v)
            if ti is not None:
                v = localtext(p, f, x["a"][ti])
                rep.ob("registered-lives", "%s: text" % f["q"], where, v is None, "registers text held by local object %s" % v)
    rep.notes.append("%d classes, %d members pointing into their own object, %d source locators, %d registrations" % (len(recs), selfp, len(loc), nreg))
    if len(recs) < 40: raise AnalysisError("only %d classes found" % len(recs))
    rep.require("self-pointing", 4)
    rep.require("registered-lives", 2)


def reads(t):
    """initialising something of this type from a member looks at the member's value, not only at its place"""
    return t.get("k") not in ("ptr", "ref")


def carries(p, T, g, f):
    """a view or pointer of type f may refer to storage of type g (not just copy its value)"""
    return g.get("k") not in ("int", "bool", "enum", "float", "ptr", "ref") or f.get("k") in ("ptr", "ref")


def keeps(p, m, f):
    """a user-written copy or move takes over the member of the other object"""
    fn = p.functions.get(m["id"])
    if fn is None: return True
    for i in fn.get("inits", ()):
        if i.get("field") == f and i.get("e"): return not own(i["e"])
    for x in fn_nodes(fn):
        if x.get("k") == "asg" and own_member(x["a"]) == f and own(x["b"]): return False
    return any(x.get("k") == "asg" and own_member(x["a"]) == f for x in fn_nodes(fn)) or m["special"].endswith("assign") is False and not any(i.get("field") == f for i in fn.get("inits", ()))


def own(e):
    return bool(into_self(e))


class Move(Rule):
    def inline(self, eng, fn, fr): return fn["file"].startswith("bant/")


def clears(p, m, f, kind, r):
    """after the operation the source does not point into what it gave away"""
    fn = p.functions.get(m["id"])
    if fn is None or not fn.get("params"): return False
    e = Engine(p, Move())
    this = e.created(("&t", ("new object",))) if kind.endswith("ctor") else ("this", r["id"])
    other = ("param", fn["id"], fn["params"][0]["id"])
    st = St()
    before = e.load(st, ("&f", other, f))
    mine0 = e.load(st, ("&f", this, f))
    for s, _ in e.run(fn, st, this=this):
        src = e.load(s, ("&f", other, f))
        dst = e.load(s, ("&f", this, f))
        if kind.startswith("copy"):
            if dst == before: return False
        elif src != C0 and src != mine0: return False
    return True


def changed(p, r, g):
    """where a member is modified after construction"""
    fld = next(x for x in r["fields"] if x["id"] == g)
    if r["_types"][fld["type"]].get("const") or r["_types"][fld["type"]].get("s", "").startswith("const "): return None
    MUT = {"append", "push_back", "operator+=", "operator=", "assign", "clear", "erase", "insert", "resize", "reserve", "replace", "swap", "pop_back", "shrink_to_fit", "resize_and_overwrite", "emplace_back", "emplace", "reset"}
    for f in p.functions.values():
        if f["file"].endswith("_test.cc") or not f.get("body"): continue
        for x in fn_nodes(f):
            if x.get("k") == "call" and x.get("obj") is not None and norm_name(x.get("n") or "").rpartition("::")[2] in MUT:
                y = unload(x["obj"])
                if y is not None and y.get("k") == "mem" and y.get("f") == g: return "%s:%s" % (f["file"], x["l"])
            if x.get("k") == "call" and norm_name(x.get("n") or "") in ("std::move", "std::swap", "std::exchange"):
                for a in x["a"]:
                    y = unload(a)
                    if y is not None and y.get("k") == "mem" and y.get("f") == g: return "%s:%s" % (f["file"], x["l"])
    return None


def derives(p, r, bases, seen=()):
    if r["id"] in bases: return True
    for b in r["bases"]:
        x = p.records.get(r["_types"][b].get("rec"))
        if x is not None and derives(p, x, bases): return True
    return False


def gives(p, r, fid):
    """some method returns a view of, or an aggregate with a view of, the member"""
    for f in p.functions.values():
        if f.get("rec") != r["id"] or f.get("ctor") or f.get("dtor") or f.get("implicit") or not f.get("body"): continue
        if not holds(p, f["_types"], f["_types"][f["ret"]]): continue
        for x in fn_nodes(f):
            if x.get("k") == "mem" and x.get("f") == fid: return True
    return False


def registrars(p, bases):
    """functions that keep a pointer to a locator they are given: id -> (locator parameter, text parameter)"""
    out = {}
    for f in p.functions.values():
        if not f["file"].startswith("bant/") or not f.get("rec") or f.get("ctor") or not f.get("body"): continue
        li = [i for i, q in enumerate(f["params"]) if f["_types"][q["t"]].get("k") == "ptr" and f["_types"][f["_types"][q["t"]]["to"]].get("rec") in p.records and derives(p, p.records[f["_types"][f["_types"][q["t"]]["to"]]["rec"]], bases)]
        if len(li) != 1: continue
        pid = f["params"][li[0]]["id"]
        kept = any(x.get("k") in ("call", "asg") and any(isinstance(y, dict) and y.get("k") == "var" and y.get("id") == pid for a in (x.get("a") if isinstance(x.get("a"), list) else [x.get("b")]) for y in walk(a)) and
                   (own_member(x.get("obj") or {}) or own_member(x["a"] if isinstance(x.get("a"), dict) else {})) for x in fn_nodes(f))
        if not kept: continue
        ti = [i for i, q in enumerate(f["params"]) if norm_name(f["_types"][q["t"]].get("q") or "") == "std::basic_string_view"]
        out[f["id"]] = (li[0], ti[0] if len(ti) == 1 else None)
    return out


def local(e):
    """name of the local object (not a pointer to elsewhere) whose address an argument is"""
    while e is not None and e.get("k") in ("cast", "ld"): e = e["e"]
    if e is not None and e.get("k") == "un" and e.get("op") == "&":
        e = e["e"]
        while e is not None and (e.get("k") == "cast" or (e.get("k") == "mem" and not e.get("arrow"))): e = e.get("b") if e.get("k") == "mem" else e["e"]
        if e is not None and e.get("k") == "var" and not e.get("glob") and not e.get("isref") and str(e.get("id", "")).startswith("v:"):
            return e.get("n")
    return None


def localtext(p, f, e, hops=0):
    """name of the local string an argument is a view of"""
    decls = {}
    for x in fn_nodes(f):
        if x.get("k") == "decl":
            for v in x["vars"]: decls[v["id"]] = v
    while e is not None and hops < 20:
        hops += 1
        k = e.get("k")
        if k in ("cast", "ld"): e = e["e"]; continue
        if k == "init" and len(e.get("es", ())) == 1: e = e["es"][0]; continue
        if k == "ctor" and e.get("a"):
            if norm_name(e.get("rq") or "") == "std::basic_string": return "a temporary"
            e = e["a"][0]; continue
        if k == "call" and e.get("obj") is not None and norm_name(e.get("n") or "").rpartition("::")[2] in ("operator basic_string_view", "substr", "data", "c_str"): e = e["obj"]; continue
        if k == "var" and e.get("id") in decls and not e.get("isref"):
            v = decls[e["id"]]
            t = f["_types"][v["t"]]
            q = norm_name(t.get("q") or "")
            if q == "std::basic_string" and not v.get("static"): return v.get("n")
            if q == "std::basic_string_view" and v.get("init"): e = v["init"]; continue
            if t.get("k") == "arr": return v.get("n")
        return None
    return None
