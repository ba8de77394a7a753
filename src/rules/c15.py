"""C15: background prewarming is race-free and always shut down."""
import re
from bsa.engine import NONMUT
from bsa.pool import analyse_class, tq, CVS
from bsa.prog import AnalysisError, norm_name, fn_nodes, walk
from bsa.worker import MUTEX
from bsa.scriptrule import reach

TECHNIQUE = "lockset and condition-variable analysis over all paths of the pool class (abstract interpretation with havoc at every lock acquisition), capture and effect analysis of the work items"
NOTE = ("Interleavings are over-approximated: at every lock acquisition and wait, all shared members may have changed. Fields are shared if a worker reaches them. Assumes the library's mutex, condition variable and thread behave as "
        "specified, that one pool object is not destroyed twice, and that the object owning the pool is created once.")
EXPLANATION = ("For every class of bant that starts threads: the thread function, the constructor, the destructor and every externally called method are followed on all paths. Obligations: accesses to members workers use happen with one "
               "common lock held; waits hold the lock, block only when there is no work and no stop was requested; items are taken only when known present and run with no lock held from the worker's own copy; every change a waiter waits for is "
               "followed by a notification (all waiters for the stop flag); the destructor requests the stop, wakes all and joins every thread without holding the lock; an object holding the pool is owned by something that destroys it; work items capture no locals by reference and use no unsynchronised data.")
UNITS = ["bant/util/filesystem-prewarm-cache.cc"]


def spawning_records(p):
    out = {}
    for f in p.functions.values():
        if not f["file"].startswith("bant/") or f["file"].endswith("_test.cc") or not f.get("body"): continue
        for x in fn_nodes(f):
            if x.get("k") not in ("call", "ctor"): continue
            nm = norm_name(x.get("n") or "")
            sp = x.get("k") == "ctor" and nm in ("std::thread::thread", "std::jthread::jthread") and x.get("a") and not x.get("cm_ctor")
            raw = x.get("n") or ""
            sp = sp or (x.get("k") == "call" and nm.endswith(("::emplace_back",)) and "<std::thread" in raw.replace("std::jthread", "std::thread"))
            sp = sp or (x.get("k") == "call" and nm in ("std::make_unique", "std::make_shared") and x.get("a") and "thread>" in str(types_of(f, x.get("t")).get("s") or types_of(f, x.get("t")).get("q")))
            if not sp: continue
            r = f.get("rec")
            if r and not f["id"].startswith("lambda@"):
                out.setdefault(r, f)
            else:
                out.setdefault(None, f)
    return out


def types_of(f, t):
    return f["_types"][t] if t is not None and t >= 0 else {}


def is_write(f, parents, m):
    """member node m is written in this expression"""
    n, child = parents.get(id(m)), m
    while n is not None:
        k = n.get("k")
        if k == "mem" and n.get("b") is child and not n.get("arrow"):
            n, child = parents.get(id(n)), n; continue
        if k == "ld": return False
        if k == "asg": return n.get("a") is child
        if k == "un" and n.get("op") in ("++", "--", "post++", "post--", "&"): return True
        if k == "call" and n.get("obj") is child:
            return not (n.get("cm") or (n.get("n") or "").rpartition("::")[2].split("<")[0] in NONMUT)
        if k in ("call", "ctor"):
            for i, a in enumerate(n.get("a", [])):
                if a is child:
                    pt = n.get("pt") or []
                    t = types_of(f, pt[i]) if i < len(pt) else {}
                    return t.get("k") in ("ref", "ptr", "rref") and not types_of(f, t["to"]).get("const")
            return False
        if k == "cast":
            n, child = parents.get(id(n)), n; continue
        return False
    return False


def parent_map(f):
    r = {}
    def go(n):
        if isinstance(n, dict):
            for v in n.values():
                for c_ in (v if isinstance(v, list) else [v]):
                    if isinstance(c_, dict):
                        if c_.get("k"): r[id(c_)] = n if n.get("k") else r.get(id(n))
                        go(c_)
                    elif isinstance(c_, list):
                        for y in c_:
                            if isinstance(y, dict): r[id(y)] = n; go(y)
    go(f.get("body")); 
    for i in f.get("inits", ()): go(i)
    return r


def field_uses(p, f, synced=()):
    """(field id, written, node) for members of program records not belonging to a local object"""
    pm = parent_map(f)
    for x in fn_nodes(f):
        if x.get("k") != "mem" or x.get("f") not in p.field_types: continue
        b = x.get("b") or {}
        while b.get("k") == "mem" and not b.get("arrow"): b = b.get("b") or {}
        if b.get("k") == "var" and not b.get("cap") and not b.get("isref") and not x.get("arrow") and b.get("glob") is None: continue
        yield x["f"], is_write(f, pm, x), x


def check_jobs(p, rep, rid, rec):
    methods = {f["id"]: f for f in p.functions.values() if f.get("rec") == rid}
    pool_fns = set(methods)
    for m in methods: pool_fns |= {i for i in reach(p, m) if i.startswith("lambda@")}
    nsub = 0
    for G in list(p.functions.values()):
        if G["id"] in pool_fns or not G["file"].startswith("bant/") or G["file"].endswith("_test.cc") or not G.get("body"): continue
        subs = []
        for x in fn_nodes(G):
            if x.get("k") == "call" and x.get("f") in methods and x.get("a"):
                lams = [y for a in x["a"] for y in walk(a) if y.get("k") == "lambda"]
                # a lambda or function object held in a variable
                for a in x["a"]:
                    for y in walk(a):
                        if y.get("k") == "var":
                            for z in fn_nodes(G):
                                if z.get("k") == "decl":
                                    for v in z["vars"]:
                                        if v["id"] == y.get("id") and v.get("init"): lams += [w for w in walk(v["init"]) if w.get("k") == "lambda"]
                fns = [y["f"] for a in x["a"] for y in walk(a) if y.get("k") == "fn"]
                if lams or fns: subs.append((x, lams, fns))
        if not subs: continue
        order = {id(x): i for i, x in enumerate(fn_nodes(G))}
        first_sub = min(order[id(x)] for x, _, _ in subs)
        decls = {v["id"]: v for z in fn_nodes(G) if z.get("k") == "decl" for v in z["vars"]}
        inits = {v["id"]: v for v in decls.values()}
        statics = {k for k, v in decls.items() if v.get("static")}
        used = {}          # field -> where
        for x, lams, fns in subs:
            where = "%s:%s" % (G["file"], x.get("l"))
            po = x.get("obj") or {}
            pool_local = po.get("k") == "var" and po.get("id") in decls and po["id"] not in statics
            pool_at = order.get(id(po), 0)
            bodies = list(fns)
            for lm in lams:
                nsub += 1
                bodies.append(lm["f"])
                for cp in lm["caps"]:
                    if cp.get("this"): continue
                    v = cp.get("var")
                    nm = cp.get("n") or v
                    if cp.get("ref"):
                        rep.ob("captures", "work item %s" % nm, where, v in statics or (pool_local and outlives(G, v, po["id"])),
                               "a work item refers to the local variable %s, which may be gone when it runs" % nm)
                        continue
                    T = G["_types"]
                    d = decls.get(v) or next((q for q in G["params"] if q["id"] == v), None)
                    ini = cp.get("init") or (d or {}).get("init")
                    t = types_of(G, (ini or d or {}).get("t")) if not (d and not cp.get("init")) else types_of(G, d["t"])
                    viewy = t.get("k") in ("ptr", "ref") or any(s in t.get("s", "") for s in ("string_view", "span<", "reference_wrapper"))
                    bad = False
                    if viewy:
                        src = (d or {}).get("init") or ini
                        seen = set()
                        todo = [src] if src else []
                        while todo:
                            e = todo.pop()
                            for y in walk(e):
                                if y.get("k") == "var" and y.get("id") not in seen:
                                    seen.add(y["id"])
                                    dd = decls.get(y["id"])
                                    tt = types_of(G, y.get("t"))
                                    if dd and dd["id"] not in statics and tt.get("k") == "rec" and not any(s in tt.get("s", "") for s in ("string_view", "span<")):
                                        bad = True
                                    if dd and dd.get("init"): todo.append(dd["init"])
                        if d is not None and d["id"] not in decls and not cp.get("init"): bad = False
                    rep.ob("captures", "work item %s" % nm, where, not bad, "a work item keeps a pointer or view (%s) into a local variable" % nm)
            for b in bodies:
                for i in reach(p, b):
                    if i in pool_fns or i not in p.functions: continue
                    h = p.functions[i]
                    if not h["file"].startswith("bant/"): continue
                    rep.functions.add(i)
                    pm = parent_map(h)
                    for fl, w, nd in field_uses(p, h):
                        r, fd = p.field_types[fl]
                        if r["id"] == rid or r["file"].startswith("/"): continue
                        tt = r["_types"][fd["type"]]
                        if tq(tt) in MUTEX + CVS or tq(tt).startswith("std::atomic"): continue
                        used.setdefault(fl, []).append((w, "%s:%s" % (h["file"], nd.get("l")), h))
                    for nd in fn_nodes(h):
                        if nd.get("k") == "var" and nd.get("glob") is not None and not types_of(h, nd.get("t")).get("const") and not tq(types_of(h, nd.get("t"))).startswith("std::atomic"):
                            w = is_write(h, pm, nd)
                            rep.ob("job-data", "global %s" % nd.get("n"), "%s:%s" % (h["file"], nd.get("l")), not w, "a work item changes a global variable without a lock")
        # who else touches what the work items use
        for fl, us in used.items():
            r, fd = p.field_types[fl]
            name = "%s::%s" % (r["name"], fd["name"])
            own = [u for u in us if u[0]]
            lock = all(locks_in(u[2]) for u in us)
            rep.ob("job-data", name, us[0][1], not own or lock, "work items change %s without a lock" % name)
            bad = None
            for H in p.functions.values():
                if H["file"].endswith("_test.cc") or not H.get("body") or H["id"] in pool_fns: continue
                if H.get("ctor") and H.get("rec") == r["id"]: continue
                oh = {id(y): i for i, y in enumerate(fn_nodes(H))}
                for f2, w, nd in field_uses(p, H):
                    if f2 != fl or not w: continue
                    if H["id"] == G["id"] and oh[id(nd)] < first_sub and not same_loop(G, nd, subs[0][0]): continue
                    if lock and locks_in(H): continue
                    bad = "%s:%s" % (H["file"], nd.get("l"))
            rep.ob("job-data", name + " unchanged", us[0][1], bad is None, "work items use %s while it is changed at %s" % (name, bad))
            # destroyed before the pool?
            owner = next((q for q in p.records.values() if q["id"] == r["id"]), None)
            if owner:
                ids = [z["id"] for z in owner["fields"]]
                pf = [z["id"] for z in owner["fields"] if rec["name"] in owner["_types"][z["type"]].get("s", "") and ("unique_ptr" in owner["_types"][z["type"]].get("s", "") or owner["_types"][z["type"]].get("rec") == rid)]
                if pf:
                    rep.ob("job-data", name + " lifetime", us[0][1], ids.index(fl) <= min(ids.index(z) for z in pf), "%s is destroyed before the workers using it are joined" % name)
    return nsub


def outlives(G, v, pool):
    """variable v is declared before the pool, in an enclosing or the same block"""
    if any(q["id"] == v for q in G["params"]): return True
    def find(n, scope):
        for x in n.get("b", []) if n.get("k") == "block" else []:
            yield x, scope
    path = {}
    def go(n, stack, pos):
        if isinstance(n, list):
            for x in n: go(x, stack, pos)
            return
        if not isinstance(n, dict): return
        if n.get("k") == "block": stack = stack + (n.get("_id"),)
        if n.get("k") == "decl":
            for d in n["vars"]:
                pos[0] += 1; path[d["id"]] = (stack, pos[0])
        for x in n.values():
            if isinstance(x, (dict, list)): go(x, stack, pos)
    go(G["body"], (), [0])
    if v not in path or pool not in path: return False
    (sv, iv), (sp, ip) = path[v], path[pool]
    return iv < ip and sp[:len(sv)] == sv


def locks_in(f):
    return any(x.get("k") == "ctor" and norm_name(x.get("rq") or "") in ("std::lock_guard", "std::unique_lock", "std::scoped_lock") for x in fn_nodes(f))


def same_loop(G, a, b):
    for x in fn_nodes(G):
        if x.get("k") in ("for", "while", "do", "foreach"):
            ids = {id(y) for y in walk(x)}
            if id(a) in ids and id(b) in ids: return True
    return False


def check_owners(p, rep, rid):
    """an object holding the pool is not created in a way that it never goes away"""
    own = {p.records[rid]["name"]}
    for r in p.records.values():
        T = r.get("_types")
        if T and r["name"] not in own and any(re.search(r"\b%s\b" % re.escape(p.records[rid]["name"]), T[x["type"]].get("s") or T[x["type"]].get("q") or "") for x in r["fields"]):
            own.add(r["name"])
    pat = re.compile(r"(^|[:\s])(%s)( \*)?$" % "|".join(map(re.escape, sorted(own))))
    fns = [f for f in p.functions.values() if f["file"].startswith("bant/") and not f["file"].endswith("_test.cc") and f.get("body")]
    for f in fns:
        news = [x for x in fn_nodes(f) if x.get("k") == "new" and not x.get("pl") and pat.search(types_of(f, x.get("t")).get("s") or "")]
        if not news: continue
        par = parent_map(f)
        for x in news:
            n, kept = x, False
            while n is not None:
                n = par.get(id(n))
                if n is None or n.get("k") not in ("cast", "ld", "ctor", "call", "paren", "tmp", "bind"): break
                if n.get("k") in ("ctor", "call"):
                    kept = "_ptr" in (n.get("n") or "") or n.get("k") == "call"
                    break
            deleted = any(y.get("k") == "delete" and any(pat.search(types_of(g, z.get("t")).get("s") or "") for z in walk(y)) for g in fns for y in fn_nodes(g))
            rep.ob("workers-joined", "%s: created by %s" % (sorted(own)[0], f["name"]), "%s:%s" % (f["file"], x.get("l")), kept or deleted,
                   "an object holding the worker threads is created, but never destroyed: the workers still run when the program's data goes away")


def check(p, rep, tier):
    recs = spawning_records(p)
    if None in recs:
        raise AnalysisError("thread started outside a class in %s: not modelled" % recs[None]["q"])
    if not recs:
        raise AnalysisError("no class starting threads found")
    n = 0
    for rid in recs:
        rec = p.records[rid]
        analyse_class(p, rep, rec)
        n += check_jobs(p, rep, rid, rec)
        check_owners(p, rep, rid)
    if not n: raise AnalysisError("no work items found")
    rep.require("shared-locked", 3)
    rep.require("workers-joined", 1)
