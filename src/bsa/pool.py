"""Lock and lifetime discipline of classes that run worker threads (C15)."""
from . import lin
from .engine import Engine, Rule, St, c, eq0, neg, C0, C1, NONMUT, show
from .prog import AnalysisError, norm_name, fn_nodes, walk
from .worker import Worker, LOCKS, MUTEX, QUEUES
from .scriptrule import ScriptRule, reach

CVS = ("std::condition_variable", "std::condition_variable_any")
THREAD = ("std::thread", "std::jthread")
INSERT = {"push_back", "emplace_back", "push_front", "emplace_front", "push", "emplace", "insert", "splice", "assign", "operator=", "swap", "append_range"}
UNKNOWN_SYNC = ("std::counting_semaphore", "std::latch", "std::barrier", "std::shared_lock", "std::future", "std::promise", "std::stop_token")


def tq(t):
    return norm_name(t.get("q") or "")


class Pool(Rule):
    fval, cont_of = Worker.fval, Worker.cont_of
    joined, all_joined, on_join, index_loop = Worker.joined, Worker.all_joined, Worker.on_join, Worker.index_loop
    val = ScriptRule.val

    def __init__(self, p, rep, rec):
        self.p, self.rep, self.rec = p, rep, rec
        self.this = ("this", rec["id"])
        self.types = {f["id"]: rec["_types"][f["type"]] for f in rec["fields"]}
        self.sync = {f for f, t in self.types.items() if tq(t) in MUTEX + CVS}
        self.atomic = {f for f, t in self.types.items() if tq(t).startswith("std::atomic")}
        self.acc = []            # (field, write, mutexes, phase, where, key, root)
        self.thread_fields = set()
        self.stop = {}           # field -> value set before the workers are joined
        self.blocking = []       # (state, where, key, cv)
        self.loops = {}
        self.popped = set()
        self.waited = set()
        self.pred_fields = set()
        self.spawns = 0
        self.tests = 0
        self.root = ""
        self.inwait = None
        self.jthread_fields = {f for f, t in self.types.items() if "std::jthread" in t.get("s", "")}

    # -------------------------------------------------------- helpers
    def inline(self, eng, fn, fr):
        return fn["file"] == self.rec["file"]

    def ob(self, rule, key, where, ok, d=""):
        self.rep.ob(rule, "%s: %s" % (self.rec["name"], key), where, ok, d)

    def field(self, addr):
        """member of the pool object addr lies in"""
        while isinstance(addr, tuple) and addr and addr[0] in ("&f", "&i", "&e") and len(addr) > 2:
            if addr[1] == self.this and addr[2] in self.types:
                return addr[2]
            addr = addr[1]
        return None

    def short(self, f):
        return f.rpartition("::")[2]

    def held(self, st): return st.props.get("held", ())

    def acquire(self, eng, st, lock, mutex, where, node, fr):
        if any(m == mutex for _, m in self.held(st)) and mutex != ("?",):
            self.ob("no-double-lock", self.root, where, False, "the lock is taken while already held (never continues)")
        st.props["held"] = self.held(st) + ((lock, mutex),)
        self.others(eng, st, node, fr)

    def others(self, eng, st, node, fr):
        """whatever other threads may have done in the meantime"""
        for f in self.types:
            if f not in self.sync:
                a = ("&f", self.this, f)
                eng.havoc_addr(st, a, eng.fresh("shared:" + self.short(f), node, fr))

    def release(self, st, lock):
        st.props["held"] = tuple(x for x in self.held(st) if x[0] != lock)
        if not st.props["held"]:
            st.props.pop("early", None)

    # -------------------------------------------------------- accesses
    def access(self, eng, st, f, write, node, fr):
        if f in self.sync: return
        phase = "thread" if st.props.get("thr") else "ctor" if st.props.get("ctor") and not st.props.get("spawned") else \
            "dtor" if st.props.get("dtor") and self.safe(st) else "run"
        self.acc.append((f, write, frozenset(m for _, m in self.held(st)), phase, fr.where(node), "%s %s" % ("write to" if write else "read of", self.short(f)), self.root))
        if st.props.get("thr"): self.thread_fields.add(f)
        if self.inwait is not None and not write: self.pred_fields.add(f)

    def safe(self, st):
        """no worker is running any more"""
        al = set(self.all_joined(st))
        return bool(al) and all(x in al for x in self.containers)

    containers = ()

    def on_load(self, eng, st, addr, node, fr):
        f = self.field(addr)
        if f is None: return
        self.access(eng, st, f, False, node, fr)
        if f in self.stop and st.props.get("thr"):
            st.props["test"] = (f, eng.load(st, addr))
            self.tests += 1

    def on_store(self, eng, st, addr, val, node, fr):
        f = self.field(addr)
        if f is None or f in self.sync: return
        self.access(eng, st, f, True, node, fr)
        if st.props.get("ctor") and not st.props.get("spawned"): return
        if addr == ("&f", self.this, f) and self.types[f]["k"] in ("bool", "int", "enum"):
            if st.props.get("dtor") and val[0] == "c":
                st.props["stopval"] = tuple(sorted(set(st.props.get("stopval", ())) | {(f, val)}, key=repr))
            self.changed(st, f, "all")

    def changed(self, st, f, kind):
        if st.props.get("early") in ("all", kind): return
        st.props["tell"] = tuple(sorted(set(st.props.get("tell", ())) | {(f, kind)}))

    def told(self, st, cv, kind, looped):
        k = "all" if kind == "notify_all" or looped else "one"
        st.props["tell"] = tuple(x for x in st.props.get("tell", ()) if not (k == "all" or x[1] == "one"))
        if self.held(st): st.props["early"] = k
        self.notified.add(cv)

    notified = set()

    # -------------------------------------------------------- calls
    def pre_call(self, eng, st, call):
        n, nm = call.node, norm_name(call.name or "")
        cls, _, short = nm.rpartition("::")
        rq = norm_name(n.get("n") or "").rpartition("::")[0]
        rawq = n.get("n") or ""
        fr = call.fr
        if nm.startswith("std::") and any(cls == u or cls.startswith(u) for u in UNKNOWN_SYNC):
            raise AnalysisError("synchronisation by %s at %s is not modelled" % (cls, call.where()))
        # ---- threads
        if nm in ("std::make_unique", "std::make_shared") and call.args and "thread>" in str(eng.typ(fr, n.get("t")).get("s") or eng.typ(fr, n.get("t")).get("q")).split(",")[0] + ">":
            t = eng.fresh("thread", n, fr, "new")
            self.spawn(eng, st, call, t, self.fval(eng, st, call, 0), call.args[1:])
            st.props["lastthread"] = t
            return [(st, ("ctor", "std::unique_ptr", (t,)))]
        if cls in THREAD and n["k"] == "ctor" and call.args and not n.get("cm_ctor") and not self.moved(call):
            fv = self.fval(eng, st, call, 0)
            self.spawn(eng, st, call, call.obj, fv, call.args[1:])
            st.props["lastthread"] = call.obj
            return [(st, ("ctor", cls, (("thread", call.obj),)))]
        if cls in ("std::vector", "std::list", "std::deque", "std::array") and "thread" in rawq and short in ("emplace_back", "push_back"):
            v = self.fval(eng, st, call, 0)
            f = self.field(call.obj)
            if f: self.access(eng, st, f, True, n, fr)
            if v[0] in ("lam", "&fn", "bound", "memptr"):
                self.spawn(eng, st, call, call.obj, v, call.args[1:])
            else:
                lt = st.props.get("lastthread")
                sp = [x for x in st.props.get("spawned", ()) if x != lt]
                st.props["spawned"] = tuple(sorted(set(sp) | {call.obj}, key=repr))
            return [(st, eng.fresh("elem", n, fr))]
        if cls in THREAD:
            if short == "join":
                self.before_join(eng, st, call)
                self.on_join(eng, st, call)
                return [(st, C0)]
            if short == "joinable": return [(st, C1)]
            if short == "detach":
                self.ob("workers-joined", "detach", call.where(), False, "worker thread is detached")
                return [(st, C0)]
        if nm == "std::async":
            raise AnalysisError("std::async at %s is not modelled" % call.where())
        if nm in ("std::for_each", "std::ranges::for_each") and len(call.args) == 3:
            cont = self.cont_of(eng, st, call, 0)
            f = self.fval(eng, st, call, 2)
            if f[0] == "lam" and cont is not None and "thread" in rawq:
                it = eng.fresh("each", n, fr)
                st.props["each"] = (it, cont)
                outs = eng.call_lambda(f, st, [it], fr, n)
                for s, _ in outs:
                    if s.props.get("jn") == it: self.joined(s, cont)
                    s.props.pop("jn", None)
                return [(s, C0) for s, _ in outs]
        # ---- locks
        if cls in LOCKS and n["k"] == "ctor" and not n.get("cm_ctor"):
            if call.args:
                defer = any("defer_lock" in eng.typ(fr, a.get("t")).get("s", "") or "try_to_lock" in eng.typ(fr, a.get("t")).get("s", "") for a in n["a"][1:])
                st.props[("mx", call.obj)] = call.args[0]
                if not defer and not (n.get("tmp") or call.obj[0] == "&t"):
                    self.acquire(eng, st, call.obj, call.args[0], call.where(), n, fr)
            return [(st, ("ctor", cls, tuple(call.args)))]
        if cls in LOCKS and short == "lock":
            self.acquire(eng, st, call.obj, st.props.get(("mx", call.obj), ("?",)), call.where(), n, fr)
            return [(st, C0)]
        if cls in LOCKS and short in ("unlock", "release"):
            self.release(st, call.obj); return [(st, C0)]
        if cls in LOCKS and short in ("owns_lock", "operator bool"):
            return [(st, C1 if any(l == call.obj for l, _ in self.held(st)) else C0)]
        if cls in MUTEX and n["k"] != "ctor":
            if short == "lock":
                self.acquire(eng, st, ("raw", call.obj), call.obj, call.where(), n, fr); return [(st, C0)]
            if short == "unlock":
                if not any(l == ("raw", call.obj) for l, _ in self.held(st)):
                    self.ob("lock-released", "unlock in " + self.root, call.where(), False, "unlocks a lock that is not held")
                self.release(st, ("raw", call.obj)); return [(st, C0)]
            if short == "try_lock":
                raise AnalysisError("try_lock at %s is not modelled" % call.where())
        # ---- condition variables
        if cls in CVS and n["k"] != "ctor":
            if short in ("notify_one", "notify_all"):
                looped = any(x.get("k") in ("for", "foreach", "while", "do") and any(y is n for y in walk(x)) for x in fn_nodes(fr.fn))
                self.told(st, self.field(call.obj), short, looped)
                return [(st, C0)]
            if short in ("wait", "wait_for", "wait_until"):
                return self.wait(eng, st, call, short)
        # ---- the pool's own members
        f = self.field(call.obj) if call.obj is not None else None
        if f is not None and n["k"] != "ctor" and f not in self.sync:
            t = self.types[f]
            if f in self.atomic:
                return self.atomic_op(eng, st, call, f, short)
            if tq(t) in QUEUES and cls in QUEUES and call.obj == ("&f", self.this, f):
                r = self.queue_op(eng, st, call, f, short)
                if r is not None: return r
            self.access(eng, st, f, not (n.get("cm") or short in NONMUT), n, fr)
            return None
        # members passed by reference
        for i, a in enumerate(call.args):
            g = self.field(a) if isinstance(a, tuple) else None
            if g is not None and g not in self.sync and n.get("ext") and i < len(n.get("a", ())) and n["a"][i].get("lv"):
                pt = eng.typ(fr, n["pt"][i]) if i < len(n.get("pt") or ()) and n["pt"][i] >= 0 else {}
                ro = pt.get("k") not in ("ref", "ptr", "rref") or eng.typ(fr, pt["to"]).get("const")
                self.access(eng, st, g, not ro, n, fr)
                if not ro and short in ("swap", "move") and nm != "std::move": self.changed(st, g, "one") if not st.props.get("thr") else None
        # ---- running a work item
        if nm == "std::function::operator()" and st.props.get("thr"):
            self.run_item(eng, st, call, call.obj)
            return None
        return None

    def run_item(self, eng, st, call, obj):
        self.ob("work-unlocked", "work item", call.where(), not self.held(st), "a work item is run while the lock is held")
        if obj is not None and obj[0] == "param" and obj[1] == "item":
            self.ob("work-owned", "work item", call.where(), bool(st.props.get("unpopped") == obj and self.held(st)),
                    "the work item is run in the shared queue's memory instead of being taken out of it")
        elif obj is not None and self.field(obj):
            self.ob("work-owned", "work item", call.where(), False, "the work item is run in the shared queue's memory")
        else:
            self.ob("work-owned", "work item", call.where(), True)
        self.items += 1

    items = 0

    def moved(self, call):
        n = call.node
        return bool(call.args) and len(call.args) == 1 and n["a"] and "std::thread" == norm_name((self.p and call.fr.fn["_types"][n["a"][0]["t"]].get("q")) or "")

    def spawn(self, eng, st, call, container, fv, args):
        self.spawns += 1
        s2 = St()
        s2.props = {"thr": True}
        keep, self.root = self.root, "worker"
        fns = None
        if fv[0] == "lam":
            for a, v in st.store.items():
                if a[0] in ("&v", "&t"): s2.store[a] = v
            outs = eng.call_lambda(fv, s2, args, call.fr, call.node)
        elif fv[0] in ("&fn", "bound", "memptr"):
            fn = self.p.functions.get(fv[1] if fv[0] == "&fn" else fv[1] if isinstance(fv[1], str) else fv[2][1])
            if fn is None: raise AnalysisError("thread function not found at " + call.where())
            a = list(args)
            this = fv[1] if fv[0] == "memptr" else a.pop(0) if fn.get("rec") and not fn.get("static") and fv[0] == "&fn" else fv[2] if fv[0] == "bound" else None
            if this is not None and this[0] in ("&v", "&t"): this = eng.load(st, this)
            outs = eng.inline(fn, s2, this, a, call.fr, call.node)
        else:
            raise AnalysisError("thread function not understood at " + call.where())
        self.root = keep
        if outs is None: raise AnalysisError("thread function not analysed at " + call.where())
        for s, _ in outs:
            self.ob("lock-released", "worker end", call.where(), not self.held(s), "a worker ends while holding the lock")
        self.worker_ends = getattr(self, "worker_ends", 0) + len(outs)
        st.props["spawned"] = tuple(sorted(set(st.props.get("spawned", ())) | {container}, key=repr))

    def before_join(self, eng, st, call):
        held = self.held(st)
        self.ob("join-unlocked", "join in " + self.root, call.where(), not held, "waits for the workers while holding the lock they need")
        self.joinstates.append((dict(st.props.get("stopval", ())), st.props.get("tell", ()), call.where(), self.root))

    joinstates = None

    # -------------------------------------------------------- queue
    def queue_op(self, eng, st, call, f, short):
        n, fr = call.node, call.fr
        q = call.obj
        thr = st.props.get("thr")
        ro = n.get("cm") or short in NONMUT
        self.access(eng, st, f, not ro, n, fr)
        if thr and short in ("front", "back", "top", "pop", "pop_front", "pop_back"):
            t = eng.truth(st, eq0(("size", eng.load(st, q))))
            self.ob("checked-not-empty", "worker: " + short, call.where(), t is False,
                    "an item is taken without knowing, since the lock was taken, that there is one")
            self.popped.add(f)
            if short in ("front", "back", "top"):
                a = ("param", "item", repr(n.get("_id")))
                st.props["unpopped"] = a
                return [(st, a)]
            st.props.pop("unpopped", None)
            st.props["took"] = True
            eng.havoc_addr(st, q, eng.fresh("queue", n, fr))
            return [(st, C0)]
        if short in INSERT and not thr and not (st.props.get("ctor") and not st.props.get("spawned")):
            self.changed(st, f, "one" if short in ("push_back", "emplace_back", "push_front", "emplace_front", "push", "emplace") else "all")
        if thr and short in ("swap", "clear", "erase", "begin", "splice"):
            self.popped.add(f)
            st.props["took"] = True
        return None

    def atomic_op(self, eng, st, call, f, short):
        n = call.node
        w = short in ("store", "operator=", "exchange", "fetch_add", "fetch_sub", "operator++", "operator--", "compare_exchange_strong", "compare_exchange_weak", "test_and_set", "clear")
        self.access(eng, st, f, w, n, call.fr)
        if w and call.args:
            v = self.val(eng, st, call, 0)
            if st.props.get("dtor") and v[0] == "c":
                st.props["stopval"] = tuple(sorted(set(st.props.get("stopval", ())) | {(f, v)}, key=repr))
            self.changed(st, f, "all")
            eng.write(st, call.obj, v)
            return [(st, v)]
        if short in ("load",) or short.startswith("operator "):
            # only changed under the lock (shared-locked): stable while it is held
            v = eng.load(st, call.obj) if self.held(st) else eng.fresh("atomic:" + self.short(f), n, call.fr)
            if "bool" in self.types[f].get("s", ""): eng.boolv.add(v)
            if f in self.stop and st.props.get("thr"):
                st.props["test"] = (f, v)
                self.tests += 1
            st.props["atom"] = tuple(x for x in st.props.get("atom", ()) if x[0] != f) + ((f, v),)
            return [(st, v)]
        return None

    # -------------------------------------------------------- waiting
    def wait(self, eng, st, call, short):
        n, fr = call.node, call.fr
        key = "%s: %s" % (self.root, short)
        cv = self.field(call.obj)
        lk = call.args[0]
        locks = {l for l, _ in self.held(st)}
        mx = [m for l, m in self.held(st) if l == lk]
        self.ob("wait-locked", key, call.where(), bool(mx) or lk in locks, "waits without holding the lock that is given")
        self.ob("wait-locked", key + " (other locks)", call.where(), len(self.held(st)) <= 1, "waits while another lock is held")
        self.waited.add(cv)
        timed = short != "wait"
        npred = 1 if not timed else 2
        outs = []
        if len(call.args) > npred:
            fv = self.fval(eng, st, call, npred)
            if fv[0] not in ("lam", "&fn"):
                raise AnalysisError("condition of wait at %s not understood" % call.where())
            self.others(eng, st, n, fr)
            self.inwait = cv
            r = eng.call_lambda(fv, st, [], fr, n) if fv[0] == "lam" else eng.call_value(n, st, fv, [], fr, call)
            self.inwait = None
            for s, v in r or ():
                t = eng.truth(s, neg(eq0(v)))
                if t is not False:
                    s1 = s.copy()
                    eng.assume(s1, neg(eq0(v)), True)
                    outs.append((s1, C1 if timed else C0))
                if t is not True:
                    s2 = s.copy()
                    eng.assume(s2, neg(eq0(v)), False)
                    if timed: outs.append((s2, C0))
                    else: self.blocking.append((s2, call.where(), key))
            return outs
        if not timed:
            self.blocking.append((st.copy(), call.where(), key))
        self.bare_waits.append(key)
        self.others(eng, st, n, fr)
        return [(st, eng.fresh("waited", n, fr))]

    bare_waits = None

    # -------------------------------------------------------- scopes and loops
    def on_dtor(self, eng, st, addr, typ, node, fr):
        q = tq(typ)
        if q in LOCKS: self.release(st, addr)
        if q == "std::jthread" or (q in ("std::vector", "std::deque", "std::list") and "std::jthread" in typ.get("s", "")):
            self.joined(st, addr)

    def on_loop_entry(self, eng, entries, node, fr):
        Worker.on_loop_entry(self, eng, entries, node, fr)

    def on_loop_round(self, eng, head, backs, node, fr):
        Worker.on_loop_round(self, eng, head, backs, node, fr)

    def on_loop_back(self, eng, head, st, node, fr):
        if not st.props.get("thr"): return
        ws = [x for x in walk(node["b"]) if x.get("k") == "call" and norm_name(x.get("n") or "").rpartition("::")[0] in CVS]
        if not ws and not st.props.get("took"): return
        if not self.final: return
        t = st.props.get("test")
        ok = bool(st.props.get("took"))
        if t is not None and not ok:
            ok = self.differs(eng, st, t[0], t[1], self.stop[t[0]])
        self.ob("worker-stops", "loop of " + fr.fn["name"], fr.where(node), ok or not self.stop,
                "a worker may go round again without work although it was told to stop")
        st.props.pop("took", None)
        st.props.pop("test", None)

    final = False

    def differs(self, eng, st, f, t, v):
        """member value t is known not to be v"""
        if self.types[f]["k"] == "bool" or "bool" in self.types[f].get("s", ""):
            x = eng.truth(st, t)
            if x is None:
                x = eng.truth(st, neg(eq0(t)))
            return x is False if v != C0 else x is True
        return eng.truth(st, eq0(lin.add(t, v, -1))) is False


def analyse_class(p, rep, rec):
    R = rec["id"]
    methods = [f for f in p.functions.values() if f.get("rec") == R and f.get("body") is not None]
    inner = {cid for f in methods for cid, _ in p.calls.get(f["id"], ())}
    # lambdas of the class's own methods do not count as outside callers
    own = {f["id"] for f in methods}
    own |= {i for f in methods for i in reach(p, f["id"]) if i.startswith("lambda@")}
    outer = {cid for i, cs in p.calls.items() if i not in own for cid, _ in cs}
    dt = [f for f in methods if f.get("dtor")]
    ct = [f for f in methods if f.get("ctor") and not f.get("implicit")]
    rest = [f for f in methods if not f.get("dtor") and not f.get("ctor") and not f.get("implicit") and (f["id"] not in inner or f["id"] in outer)]
    rule = Pool(p, rep, rec)
    rule.joinstates, rule.bare_waits, rule.notified = [], [], set()
    rule.this_cls = R
    where0 = "%s:%s" % (rec["file"], rec["line"])
    spawner_methods = []
    stops_all = None

    def run(f, props):
        e = Engine(p, rule)
        st = St()
        st.props = dict(props)
        rule.root = f["name"]
        res = e.run(f, st, this=rule.this)
        rep.eng(e)
        return e, res

    # containers of threads: where spawned threads end up
    rule.final = False
    conts = set()
    obs0 = len(rep.obs)
    for f in ct + rest:
        e, res = run(f, {"ctor": bool(f.get("ctor"))})
        for s, _ in res:
            conts |= {x for x in s.props.get("spawned", ()) if rule.field(x)}
    del rep.obs[obs0:]
    rule.containers = tuple(conts)
    rule.acc, rule.blocking, rule.joinstates, rule.loops, rule.bare_waits = [], [], [], {}, []

    ends = []
    for f in dt:
        e, res = run(f, {"dtor": True})
        ends += [(f, s) for s, _ in res]
    # what tells the workers to stop
    sv = None
    for vals, tell, where, root in rule.joinstates:
        sv = dict(vals) if sv is None else {k: v for k, v in sv.items() if vals.get(k) == v}
    rule.stop = {k: v for k, v in (sv or {}).items() if k in rule.thread_fields or True}
    rule.final = True
    for f in ct + rest:
        props = {"ctor": bool(f.get("ctor"))}
        e, res = run(f, props)
        ends += [(f, s) for s, _ in res]
    if not rule.spawns:
        raise AnalysisError("%s: thread creation not recognised" % rec["name"])
    # only flags the workers look at count
    rule.stop = {k: v for k, v in rule.stop.items() if k in rule.thread_fields}
    for vals, tell, where, root in rule.joinstates:
        have = [k for k in rule.stop if vals.get(k) == rule.stop[k]]
        if root.startswith("~") or rule.stop:
            rule.ob("told-to-stop", "join in " + root, where, bool(have), "workers are waited for without having been told to stop")
        bad = [x for x in tell if x[1] == "all"]
        rule.ob("woken", "join in " + root, where, not bad, "workers are waited for although sleeping ones were not all woken")
    # joined
    if not rule.jthread_fields:
        rule.ob("workers-joined", "destructor", where0, bool(dt), "no destructor waits for the workers")
    for f, s in ends:
        w = "%s:%s" % (f["file"], f["line"])
        rule.ob("lock-released", f["name"], w, not rule.held(s), "returns while holding the lock")
        tell = s.props.get("tell", ())
        if not f.get("dtor"):
            rule.ob("woken", f["name"], w, not tell, "changes %s without waking %s" % (", ".join(rule.short(x[0]) for x in tell), "the workers" if any(x[1] == "all" for x in tell) else "a worker"))
        if f.get("dtor"):
            miss = [x for x in rule.containers if x not in rule.all_joined(s) and rule.field(x) not in rule.jthread_fields]
            rule.ob("workers-joined", f["name"], w, not miss, "destroys the shared data while workers may still run")
    # members joined implicitly are destroyed in reverse order of declaration
    order = [x["id"] for x in rec["fields"]]
    for x in rule.containers:
        jf = rule.field(x)
        if jf in rule.jthread_fields and not all(x in rule.all_joined(s) for f, s in ends if f.get("dtor")) or (jf in rule.jthread_fields and not dt):
            later = [g for g in order[order.index(jf) + 1:] if g in rule.thread_fields or g in rule.sync]
            rule.ob("workers-joined", "member order", where0, not later, "%s is destroyed before the workers are joined" % ", ".join(map(rule.short, later)))
    # accesses
    writes = {a[0] for a in rule.acc if a[1] and a[3] != "ctor" and a[3] != "dtor"}
    for f in rule.thread_fields:
        mine = [a for a in rule.acc if a[0] == f and a[3] not in ("ctor", "dtor")]
        if f not in writes: continue
        cond = f in rule.pred_fields or f in rule.stop or f in rule.popped
        common = None
        for _, w, ms, ph, wh, k, root in mine:
            if f in rule.atomic and not (w and cond and rule.waited): continue
            rule.ob("shared-locked", "%s: %s" % ("worker" if ph == "thread" else root, k), wh, bool(ms), "shared with other threads, but accessed without holding a lock")
            if ms: common = ms if common is None else common & ms
        if common is not None:
            rule.ob("common-lock", rule.short(f), where0, bool(common), "%s is not always protected by the same lock" % rule.short(f))
            rule.ob("common-lock", rule.short(f) + " (member)", where0, any(rule.field(m) for m in common) or not common, "the lock is not shared by all workers")
    # waiting
    for st, where, key in rule.blocking:
        e = Engine(p, rule)
        for f in rule.popped:
            t = e.truth(st, eq0(("size", e.load(st, ("&f", rule.this, f)))))
            rule.ob("waits-only-idle", key + ": " + rule.short(f), where, t is True, "a worker may sleep although there is work in %s" % rule.short(f))
        for f, v in rule.stop.items():
            cur = dict(st.props.get("atom", ())).get(f) if f in rule.atomic else e.load(st, ("&f", rule.this, f))
            rule.ob("waits-only-idle", key + ": " + rule.short(f), where, cur is not None and rule.differs(e, st, f, cur, v), "a worker may go to sleep although it was told to stop")
    if rule.waited:
        rule.ob("woken", "condition variable", where0, rule.waited <= rule.notified, "the workers wait for a condition variable nobody notifies")
    if not rule.popped:
        raise AnalysisError("%s: taking of work not recognised" % rec["name"])
    return rule
