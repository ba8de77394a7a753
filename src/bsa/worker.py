"""Analysis of the parallel part of scripts/run-clang-tidy-cached.cc (shared by C16 and C17):
the routine that starts the worker threads and one worker, on every path."""
from . import lin
from .engine import Engine, St, c, show, eq0, fld, C0, C1, neg, subst, toks
from .outputs import norm, pieces, shows
from .prog import AnalysisError, norm_name, fn_nodes, walk
from .scriptrule import ScriptRule, script_fns, reach, names_called, UNIT, LOCKS, FS, FILESTREAMS

QUEUES = ("std::list", "std::__cxx11::list", "std::deque", "std::vector", "std::queue", "std::stack", "std::forward_list")
MUTEX = ("std::mutex", "std::recursive_mutex", "std::timed_mutex", "std::shared_mutex")
WRITE = {"rename", "copy_file", "copy"}
STOP = {2: "SIGINT", 3: "SIGQUIT", 131: "SIGQUIT with core dump"}
KILL = {9: "SIGKILL", 15: "SIGTERM", 11: "SIGSEGV", 139: "SIGSEGV with core dump", 6: "SIGABRT", -1: "not started"}


def subterms(t):
    yield t
    for x in t:
        if isinstance(x, tuple):
            yield from subterms(x)


def occurs(t, target, blockers=()):
    """target inside t, but not only under calls named in blockers"""
    if t == target:
        return True
    if not isinstance(t, tuple):
        return False
    if t and t[0] == "call" and t[1] in blockers:
        return False
    return any(occurs(x, target, blockers) for x in t if isinstance(x, tuple))


def possible(st, r, k):
    """path conditions of st still satisfiable (not refuted) if r is k"""
    m = {r: c(k)}
    memo = {}
    for f, v in st.facts.items():
        x = subst(f, m, memo)
        if x[0] == "c" and bool(x[1]) != v:
            return False
    for l in st.lin:
        x = subst(l, m, memo)
        if x[0] == "c" and x[1] < 0:
            return False
    return True


class Worker(ScriptRule):
    def __init__(self, p, rep16, rep17, rep18=None):
        super().__init__(p)
        self.r18 = rep18
        self.r16, self.r17 = rep16, rep17
        self.cmds, self.dsts = [], []
        self.seen = {"rename": 0, "take": 0, "system": 0, "spawn": 0, "qops": 0}
        self.loops = {}      # loop node id -> (container, ok)
        self.mutexes = []

    def o16(self, rule, key, call, ok, d=""):
        self.r16.ob(rule, key, call.where(), ok, d)

    def o17(self, rule, key, call, ok, d=""):
        self.r17.ob(rule, key, call.where(), ok, d)

    # ------------------------------------------------------------ helpers
    def is_queue(self, call, cls):
        rq = call.node.get("n") or ""
        return cls in QUEUES and "filesystem" in rq and "pair<" in rq

    def holding(self, st):
        return st.props.get("held", ())

    def acquire(self, eng, st, lock, mutex, call):
        st.props["held"] = self.holding(st) + ((lock, mutex),)
        self.refresh(eng, st, call)

    def release(self, eng, st, lock, where):
        h = self.holding(st)
        n = tuple(x for x in h if x[0] != lock)
        if n == h:
            return
        st.props["held"] = n
        self.end_section(st, where)

    def refresh(self, eng, st, call):
        """other threads may have changed the queue"""
        for q in st.props.get("queues", ()):
            eng.havoc_addr(st, q, eng.fresh("queue", call.node, call.fr))

    def end_section(self, st, where):
        fr_, pop = st.props.get("front"), st.props.get("pop")
        if fr_ or pop:
            self.r17.ob("take-and-remove", "critical section", where, bool(fr_) and pop == fr_[1],
                        "item is %s in the critical section" % ("taken but not removed" if fr_ and not pop else
                         "removed but not taken" if pop and not fr_ else "taken from one end, removed from the other"))
            if fr_ and pop:
                self.seen["take"] += 1
        st.props.pop("front", None); st.props.pop("pop", None)

    def on_dtor(self, eng, st, addr, typ, node, fr):
        q = norm_name(typ.get("q") or "")
        if q in LOCKS:
            self.release(eng, st, addr, fr.where(node))
        if q in FILESTREAMS:
            self.close(st, addr)
        if q in ("std::jthread",) or (q == "std::vector" and "std::jthread" in typ.get("s", "")):
            self.joined(st, addr)

    def close(self, st, addr):
        o = st.props.get("open", {})
        if addr in dict(o):
            st.props["open"] = tuple(x for x in o if x[0] != addr)
            st.props["closed"] = st.props.get("closed", ()) + ((addr, dict(o)[addr]),)

    def joined(self, st, addr):
        st.props["joined"] = tuple(sorted(set(st.props.get("joined", ())) | {addr}, key=repr))

    # ------------------------------------------------------------ the worker
    def spawn(self, eng, st, call, container, fv, args):
        self.seen["spawn"] += 1
        s2 = st.copy()
        s2.props = {"thr": True, "queues": st.props.get("queues", ())}
        self.wctx = call.fr.ctx
        self.depth0 = len(call.fr.ctx)
        fns = None
        if fv[0] == "lam":
            outs = eng.call_lambda(fv, s2, args, call.fr, call.node)
        elif fv[0] in ("&fn", "bound", "memptr"):
            fn = self.p.functions.get(fv[1])
            if fn is None:
                raise AnalysisError("thread function not found at " + call.where())
            a = list(args)
            this = a.pop(0) if fn.get("rec") and not fn.get("static") else None
            outs = eng.inline(fn, s2, this, a, call.fr, call.node)
        else:
            raise AnalysisError("thread function not understood at " + call.where())
        if outs is None:
            raise AnalysisError("thread function not analysed at " + call.where())
        for s, _ in outs:
            self.o17("lock-released", "worker end", call, not self.holding(s), "a worker ends while holding the lock")
        st.props["spawned"] = tuple(sorted(set(st.props.get("spawned", ())) | {container}, key=repr))

    def special(self, eng, st, call, nm, cls, short):
        n = call.node
        rawq = n.get("n") or ""
        # ---- threads
        if nm in ("std::make_unique", "std::make_shared") and call.args and "thread>" in str(eng.typ(call.fr, n.get("t")).get("s") or eng.typ(call.fr, n.get("t")).get("q")).split(",")[0] + ">":
            t = eng.fresh("thread", n, call.fr, "new")
            self.spawn(eng, st, call, t, self.fval(eng, st, call, 0), call.args[1:])
            st.props["lastthread"] = t
            return [(st, ("ctor", "std::unique_ptr", (t,)))]
        if cls in ("std::thread", "std::jthread") and n["k"] == "ctor" and call.args and not n.get("cm_ctor"):
            fv = self.fval(eng, st, call, 0)
            self.spawn(eng, st, call, call.obj, fv, call.args[1:])
            st.props["lastthread"] = call.obj
            return [(st, ("ctor", cls, (("thread", call.obj),)))]
        if cls in ("std::vector", "std::list", "std::deque") and "thread" in rawq and "std::" in rawq and short in ("emplace_back", "push_back"):
            v = self.fval(eng, st, call, 0)
            if v[0] in ("lam", "&fn", "bound", "memptr"):
                self.spawn(eng, st, call, call.obj, v, call.args[1:])
            else:
                lt = st.props.get("lastthread")
                sp = [x for x in st.props.get("spawned", ()) if x != lt]
                st.props["spawned"] = tuple(sorted(set(sp) | {call.obj}, key=repr))
            return [(st, eng.fresh("elem", n, call.fr))]
        if cls in ("std::vector", "std::list", "std::deque") and "thread" in rawq and call.obj is not None and call.obj[0] == "&v" and short in ("reserve", "size", "empty"):
            if short == "reserve": return [(st, C0)]
            if call.obj not in st.props.get("spawned", ()):
                return [(st, C0 if short == "size" else C1)]
            if short == "empty": return [(st, C0)]
            v = eng.fresh("threads", n, call.fr)
            st.lin.append(lin.add(v, c(-1)))
            return [(st, v)]
        if cls in ("std::thread", "std::jthread"):
            if short == "join":
                self.on_join(eng, st, call)
                return [(st, C0)]
            if short == "joinable":
                return [(st, C1)]
            if short == "detach":
                self.o17("workers-joined", "detach", call, False, "worker thread is detached")
                return [(st, C0)]
        if nm in ("std::async",):
            raise AnalysisError("std::async at %s is not modelled" % call.where())
        if nm in ("std::for_each",) and len(call.args) == 3:
            b, e = (self.val(eng, st, call, i) for i in (0, 1))
            f = self.fval(eng, st, call, 2)
            if f[0] == "lam" and b[0] == "call" and e[0] == "call" and b[2] == e[2]:
                cont = self.cont_of(eng, st, call, 0)
                it = eng.fresh("each", n, call.fr)
                st.props["each"] = (it, cont)
                outs = eng.call_lambda(f, st, [it], call.fr, n)
                for s, _ in outs:
                    if s.props.get("jn") == it:
                        self.joined(s, cont)
                    s.props.pop("jn", None)
                return [(s, C0) for s, _ in outs]
        if nm == "std::min" and len(call.args) == 2:
            a, b = (self.val(eng, st, call, i) for i in (0, 1))
            s2 = st.copy()
            st.lin.append(lin.add(b, a, -1))
            s2.lin.append(lin.add(lin.add(a, b, -1), c(-1)))
            if not n.get("lv"):
                return [(st, a), (s2, b)]
            t = eng.created(("&t", (n.get("_id", 0), call.fr.ctx)))
            eng.write(st, t, a)
            eng.write(s2, t, b)
            return [(st, t), (s2, t)]
        # ---- locks
        if cls in LOCKS and n["k"] == "ctor" and not n.get("cm_ctor"):
            if call.args:
                defer = any("defer_lock" in eng.typ(call.fr, a.get("t")).get("s", "") or "try_to_lock" in eng.typ(call.fr, a.get("t")).get("s", "") for a in n["a"][1:])
                st.props[("mx", call.obj)] = call.args[0]
                if any("adopt_lock" in eng.typ(call.fr, a.get("t")).get("s", "") for a in n["a"][1:]):
                    # takes over a lock taken before, does not take one
                    raw = ("raw", call.args[0])
                    st.props["held"] = tuple((call.obj, m) if l == raw else (l, m) for l, m in self.holding(st))
                elif not defer:
                    if n.get("tmp") or call.obj[0] == "&t":
                        pass       # a temporary is gone at the end of the statement: protects nothing
                    else:
                        self.acquire(eng, st, call.obj, call.args[0], call)
            return [(st, ("ctor", cls, tuple(call.args)))]
        if cls in LOCKS and short == "lock":
            self.acquire(eng, st, call.obj, st.props.get(("mx", call.obj), ("?",)), call)
            return [(st, C0)]
        if cls in LOCKS and short in ("unlock", "release"):
            self.release(eng, st, call.obj, call.where())
            return [(st, C0)]
        if cls in MUTEX and n["k"] != "ctor":
            if short == "lock":
                self.acquire(eng, st, ("raw", call.obj), call.obj, call); return [(st, C0)]
            if short == "unlock":
                self.release(eng, st, ("raw", call.obj), call.where()); return [(st, C0)]
        # ---- queue
        if self.is_queue(call, cls) and call.obj is not None and n["k"] != "ctor" and self.shared(st, call.obj):
            return self.queue_op(eng, st, call, cls, short)
        if short in ("operator*", "operator->") and call.obj is not None and not call.args:
            v = eng.load(st, call.obj)
            while v[0] == "ctor" and len(v[2]) == 1:
                v = v[2][0]
            if v[0] == "qbegin" and st.props.get("thr"):
                self.nonempty(eng, st, v[1], call, "*begin")
                a = ("param", "item", repr(n.get("_id")))
                st.props["front"] = (True, "front", a)
                st.props["item"] = a
                return [(st, a)]
        # ---- processes and files
        if nm in ("system", "std::system"):
            return self.system(eng, st, call)
        if nm in (FS + "rename", "rename", "std::rename"):
            self.rename(eng, st, call)
            return [(st, eng.fresh("renamed", n, call.fr))]
        if nm in (FS + "copy_file", FS + "copy", FS + "create_hard_link", FS + "create_symlink", "link", "symlink"):
            self.write_to(eng, st, self.text(eng, st, call, 1), call)
            return None
        if cls in FILESTREAMS and n["k"] == "ctor" and call.args and not n.get("cm_ctor"):
            ps = self.text(eng, st, call, 0)
            self.write_to(eng, st, ps, call)
            self.mode(eng, st, call, cls)
            st.props["open"] = tuple(x for x in st.props.get("open", ()) if x[0] != call.obj) + ((call.obj, ps),)
            return [(st, ("ctor", cls, ()))]
        if cls in FILESTREAMS and short == "open":
            ps = self.text(eng, st, call, 0)
            self.write_to(eng, st, ps, call)
            self.mode(eng, st, call, cls)
            st.props["open"] = tuple(x for x in st.props.get("open", ()) if x[0] != call.obj) + ((call.obj, ps),)
            return [(st, C0)]
        if cls in FILESTREAMS + ("std::basic_ios",) and short in ("clear", "setstate", "exceptions") and call.obj is not None:
            st.props["cleared"] = st.props.get("cleared", ()) + (call.obj, )
            return [(st, C0)]
        if cls in FILESTREAMS and short == "close":
            self.close(st, call.obj)
            return [(st, C0)]
        if cls in FILESTREAMS + ("std::basic_ios",) and short in ("good", "fail", "bad", "operator bool", "operator!") and call.obj is not None:
            for a, ps in st.props.get("closed", ()):
                if short == "bad" or call.obj in st.props.get("cleared", ()):
                    break       # tells nothing about opening and closing; or forgot
                if a == call.obj or (call.obj[0] == "&f" and call.obj[1] == a):
                    t = ("wok", a)
                    eng.boolv.add(t)
                    t = neg(neg(eq0(t)))
                    t = neg(t)
                    return [(st, t if short in ("good", "operator bool") else neg(t))]
            return [(st, eng.fresh("streamstate", n, call.fr))]
        if nm in ("fopen", "std::fopen", "open", "creat") and len(call.args) >= 1:
            mode = self.val(eng, st, call, 1) if len(call.args) > 1 else ("str", "w")
            if mode[0] != "str" or any(x in mode[1] for x in "wa+"):
                ps = self.text(eng, st, call, 0)
                self.write_to(eng, st, ps, call)
                h = eng.fresh("FILE", n, call.fr)
                st.props["open"] = st.props.get("open", ()) + ((h, ps),)
                return [(st, h)]
            return None
        if nm in ("fclose", "std::fclose") and call.args:
            self.close(st, call.args[0])
            return None
        return None

    def mode(self, eng, st, call, cls):
        """is a file opened for writing that keeps what was in it?"""
        a = call.node["a"]
        m = None                    # in, out, trunc, app as far as known
        if len(a) < 2 or a[1].get("k") in ("defarg", "default"):
            m = {"in", "out"} if cls == "std::basic_fstream" else {"out", "trunc"}
        else:
            names = {(x.get("n") or x.get("name") or "").split("::")[-1] for x in walk(a[1])} & {"in", "out", "trunc", "app"}
            v = self.val(eng, st, call, 1)
            if names:
                m = names
            elif v[0] == "c":
                m = {k for k, bit in (("app", 1), ("in", 8), ("out", 16), ("trunc", 32)) if v[1] & bit}
            elif cls == "std::basic_fstream" and "default" in repr(a[1].get("k")):
                m = {"in", "out"}
        keeps = m is not None and ("app" in m or ("in" in m and "trunc" not in m))
        st.props[("keeps", call.obj)] = keeps

    def fval(self, eng, st, call, i):
        v = self.val(eng, st, call, i)
        if v[0] not in ("lam", "&fn", "bound", "memptr"):
            v2 = eng.load(st, v)
            if v2[0] in ("lam", "&fn"):
                return v2
        return v

    def shared(self, st, addr):
        """not a local list of this very thread"""
        if st.props.get("thr"):
            return not (addr[0] == "&v" and len(addr[1]) > self.depth0)
        return True

    def cont_of(self, eng, st, call, i):
        nd = call.node["a"][i]
        for x in walk(nd):
            if x.get("k") == "call" and (x.get("n") or "").endswith("::begin") and x.get("obj"):
                for s, a in eng.eval(x["obj"], st.copy(), call.fr):
                    return a
        return None

    # ------------------------------------------------------------ queue
    def queue_op(self, eng, st, call, cls, short):
        n = call.node
        q = call.obj
        thr = st.props.get("thr")
        if q not in st.props.get("queues", ()):
            st.props["queues"] = st.props.get("queues", ()) + (q,)
        if not thr:
            sp = set(st.props.get("spawned", ())) - set(self.all_joined(st))
            if sp:
                self.o17("queue-locked", "starter: " + short, call, bool(self.holding(st)),
                         "the starting thread touches the work queue while workers may run, without the lock")
            return None
        self.seen["qops"] += 1
        held = self.holding(st)
        ms = {m for _, m in held}
        key = "worker: queue " + short
        self.o17("queue-locked", key, call, bool(held), "worker touches the work queue without holding its lock")
        if held:
            self.mutexes.append((call, ms))
            good = [m for m in ms if not (m[0] == "&v" and len(m[1]) > self.depth0)]
            self.o17("common-lock", key, call, bool(good), "the lock held is a variable of the single worker, not shared by all")
        if short in ("front", "back", "top"):
            self.nonempty(eng, st, q, call, short)
            a = ("param", "item", repr(n.get("_id")))
            if st.props.get("front"):
                a = st.props["front"][2]
            st.props["front"] = (True, {"front": "front", "back": "back", "top": "top"}[short], a)
            st.props["item"] = a
            return [(st, a)]
        if short in ("pop_front", "pop_back", "pop"):
            self.nonempty(eng, st, q, call, short)
            if st.props.get("pop"):
                self.o17("take-and-remove", "critical section", call, False, "two items are removed at once")
            side = {"pop_front": "front", "pop_back": "back", "pop": "top" if (st.props.get("front") or (0, "top"))[1] == "top" else "front"}[short]
            st.props["pop"] = side
            eng.havoc_addr(st, q, eng.fresh("queue", n, call.fr))
            return [(st, C0)]
        if short in ("begin", "cbegin") and cls != "std::stack":
            self.nonempty_later = True
            return [(st, ("qbegin", q))]
        if short == "erase" and call.args:
            v = self.val(eng, st, call, 0)
            while v[0] == "ctor" and len(v[2]) == 1:
                v = v[2][0]
            if v == ("qbegin", q):
                self.nonempty(eng, st, q, call, short)
                st.props["pop"] = "front"
                eng.havoc_addr(st, q, eng.fresh("queue", n, call.fr))
                return [(st, eng.fresh("it", n, call.fr))]
        return None

    def nonempty(self, eng, st, q, call, short):
        t = eng.truth(st, eq0(("size", eng.load(st, q))))
        self.o17("checked-not-empty", "worker: " + short, call, t is False,
                 "item taken without knowing, in the same critical section, that the queue is not empty")

    def on_deref(self, eng, st, ptr, node, fr):
        pass

    # ------------------------------------------------------------ joins
    def on_join(self, eng, st, call):
        obj = call.obj
        each = st.props.get("each")
        if each and obj == each[0]:
            st.props["jn"] = obj
            return
        if obj[0] in ("&v", "&f"):
            self.joined(st, obj)
        st.props["jn"] = obj

    def all_joined(self, st):
        r = set(st.props.get("joined", ()))
        for l in st.props.get("jloops", ()):
            x = self.loops.get(l)
            if x and x[1]:
                r.add(x[0])
        return r

    def on_loop_entry(self, eng, entries, node, fr):
        if any(x.get("k") == "call" and (x.get("n") or "").endswith("thread::join") for x in walk(node)):
            lid = (node.get("_id"), fr.ctx)
            for s in entries:
                s.props["jloops"] = tuple(sorted(set(s.props.get("jloops", ())) | {lid}, key=repr))
                s.props.pop("jn", None)

    def on_loop_round(self, eng, head, backs, node, fr):
        lid = (node.get("_id"), fr.ctx)
        if lid in (head.props.get("jloops") or ()) or any(lid in (b.props.get("jloops") or ()) for b in backs):
            cont, ok = None, True
            if node["k"] == "foreach":
                a = ("&v", fr.ctx, node["range"]["id"])
                cont = eng.load(head, a)
                rev = False
            else:
                cont = self.index_loop(eng, head, backs, node, fr)
            if cont is None:
                ok = False
            for b in backs:
                if "jn" not in b.props:
                    ok = False
                b.props.pop("jn", None)
            if any(x.get("k") in ("break", "ret") for x in walk(node["b"])):
                ok = False
            old = self.loops.get(lid)
            self.loops[lid] = (cont, ok and (old is None or old[1]))

    def index_loop(self, eng, head, backs, node, fr):
        """for (i = 0; i < C.size(); ++i) C[i].join()  or the same with iterators"""
        c_ = node.get("c")
        if c_ is None or node["k"] != "for":
            return None
        conts = set()
        for x in walk(node):
            if x.get("k") == "call" and x.get("obj") and (x.get("n") or "").split("::")[-1] in ("size", "end", "cend", "begin"):
                if "thread" in (x.get("n") or ""):
                    for s, a in eng.eval(x["obj"], head.copy(), fr):
                        conts.add(a)
        lits = [x for x in walk(node["init"])] if node.get("init") else []
        zero = any(x.get("k") == "int" and x.get("v") == 0 for x in lits) or any((x.get("n") or "").endswith("::begin") for x in lits if x.get("k") == "call")
        inc = node.get("inc") or {}
        step = (inc.get("k") == "un" and inc.get("op") == "++") or (inc.get("k") == "call" and (inc.get("n") or "").endswith("operator++"))
        other = [x for x in walk(node["c"]) if x.get("k") == "bin" and x.get("op") in ("&&", "||")]
        op = next((x.get("op") for x in walk(node["c"]) if x.get("k") == "bin"), None)
        if op is None and any((x.get("n") or "").endswith(("operator!=", "operator==")) for x in walk(node["c"]) if x.get("k") == "call"):
            op = "!="
        nums = [x for x in walk(node["c"]) if x.get("k") == "int"]
        if len(conts) == 1 and zero and step and not other and not nums and op in ("<", "!="):
            return conts.pop()
        return None

    def on_loop_back(self, eng, head, st, node, fr):
        if st.props.get("thr") and node["k"] in ("for", "while", "do", "foreach"):
            if st.props.get("item") is not None:
                if self.r18 is not None and st.props.get("sys"):
                    r, _ = st.props["sys"][-1]
                    failed = any(eng.truth(st, eq0(("wok", a))) is True for a, _ in st.props.get("closed", ()))
                    bad = [k for k in (0, 256) if possible(st, r, k)]
                    self.r18.ob("result-kept", "worker", fr.where(node), bool(st.props.get("renamed")) or failed or not bad,
                                "the tool finished (status %s), but its result does not replace what was stored before" % (bad[:1] or [""])[0])
                for k in [k for k in st.props if k not in ("thr", "queues", "held", "front", "pop") and not (isinstance(k, tuple) and k[0] == "mx")]:
                    del st.props[k]

    # ------------------------------------------------------------ tool and result files
    def post_call(self, eng, st, call, ret):
        f = self.p.functions.get(call.fid)
        if f is None or f["file"] != UNIT or not f.get("rec"):
            return
        T = f["_types"]
        rt = T[f["ret"]] if f.get("ret") is not None and f["ret"] >= 0 else {}
        if norm_name(rt.get("q") or "") == "std::filesystem::path" and any("pair" in T[q["t"]].get("s", "") or "filepath" in T[q["t"]].get("s", "") for q in f["params"]):
            v = ret
            if ret[0] in ("&t", "&v"):
                v = eng.load(st, ret)
            st.props["finals"] = tuple(sorted(set(st.props.get("finals", ())) | {pieces(v, {"k": "rec"})}, key=repr))

    def system(self, eng, st, call):
        r = eng.fresh("status", call.node, call.fr)
        ps = self.text(eng, st, call, 0)
        self.seen["system"] += 1
        self.cmds.append((ps, call))
        if st.props.get("thr"):
            self.o17("tool-unlocked", "worker: tool", call, not self.holding(st), "the tool runs while the queue lock is held")
        st.props["sys"] = st.props.get("sys", ()) + ((r, ps),)
        # result directly redirected to a final name
        for fin in st.props.get("finals", ()):
            quoted = ("s", ("call", "quote", fin))
            if self.redirect_to(ps, fin):
                self.o16("no-direct-write", "tool output", call, False, "the tool writes directly to the final name of the result")
        return [(st, r)]

    def unquote(self, ps):
        """expand pieces of quoting helpers: a shell-quoted string stands for its argument"""
        out = []
        for x in ps:
            if x[0] == "s" and x[1][0] == "call" and x[1][1].startswith("fn:") and len(x[1][2]) == 1 and "quot" in x[1][1].lower():
                out += [("t", "'")] + list(pieces(x[1][2][0], {"k": "rec"})) + [("t", "'")]
            else:
                out.append(x)
        return norm(tuple(out))

    def redirect_to(self, ps, target):
        """command ps redirects standard output to the file named target (quoted or not)"""
        ps = self.unquote(ps)
        k = len(target)
        for q in ("'", '"', ""):
            t = norm((("t", q),) + tuple(target) + (("t", q),)) if q else tuple(target)
            flat = norm((("t", "> "),) + t)
            # compare as sequences with text merged
            if self.contains(ps, norm((("t", ">"),) + t)) or self.contains(ps, flat):
                return True
        return False

    @staticmethod
    def contains(ps, sub):
        """sub (merged) appears in ps (merged): first/last text may be a suffix/prefix"""
        n, k = len(ps), len(sub)
        for i in range(n - k + 1):
            ok = True
            for j in range(k):
                a, b = ps[i + j], sub[j]
                if a == b:
                    continue
                if a[0] == "t" and b[0] == "t":
                    if j == 0 and j == k - 1 and b[1] in a[1].replace(">>", "\0"): continue
                    if j == 0 and a[1].endswith(b[1]) and not a[1][:-len(b[1])].endswith(">"): continue
                    if j == k - 1 and a[1].startswith(b[1]): continue
                ok = False
                break
            if ok:
                return True
        return False

    def write_to(self, eng, st, ps, call):
        ps = norm(tuple(ps))
        for fin in st.props.get("finals", ()):
            self.o16("no-direct-write", "%s" % (call.name or "").split("::")[-1], call, ps != fin,
                     "the final name of a result is opened for writing; only a rename may bring it into existence")

    def rename(self, eng, st, call):
        self.seen["rename"] += 1
        st.props["renamed"] = True
        self.dsts.append((norm(self.text(eng, st, call, 1)), call))
        src, dst = norm(self.text(eng, st, call, 0)), norm(self.text(eng, st, call, 1))
        K = "publish"
        finals = st.props.get("finals", ())
        self.o16("published-name", K, call, dst in finals, "the renamed-to name %s is not the name under which the result is looked up" % shows(dst)[:200])
        self.o16("temporary", K, call, src != dst, "result is not written to a temporary name first")
        sys_ = st.props.get("sys", ())
        self.o16("tool-ran", K, call, bool(sys_), "published before the tool was run")
        # same directory
        d1, r1 = self.split(src)
        d2, r2 = self.split(dst)
        free = lambda x: x[0] == "n" or (x[0] == "t" and "/" not in x[1]) or x in r2 or self.slash_free(x)
        self.o16("same-directory", K, call, d1 == d2 and all(free(x) for x in r1), "temporary %s and final name %s are not certain to be in the same directory" % (shows(src)[:150], shows(dst)[:150]))
        if sys_:
            r, ps = sys_[-1]
            txt = "".join(x[1] for x in ps if x[0] == "t")
            import re
            bg = re.sub(r"[0-9]*>&[0-9-]*|&>|&&", "", txt)
            tail = re.sub(r"'[^']*'|\"[^\"]*\"", "", "".join(x[1] if x[0] == "t" else "x" for x in ps)).strip()
            self.o16("tool-status", K, call, "|" not in tail and ";" not in tail and "\n" not in tail,
                     "the status and output looked at are those of another command than the tool (%s)" % tail[-60:])
            self.o16("tool-not-limited", K, call, not re.search(r"(^|[\s;(])timeout\s", tail), "the tool is ended after some time, which the status does not tell as a signal")
            self.o16("tool-foreground", K, call, "&" not in bg, "the tool is started in the background, so its output may be incomplete")
            self.o16("tool-writes-temporary", K, call, self.redirect_to(ps, src), "the tool's output does not go to the renamed file %s" % shows(src)[:150])
            bad = [v for k, v in STOP.items() if possible(st, r, k)]
            self.o16("interrupted", K, call, not bad, "published although the tool ended by %s" % ", ".join(bad))
            bad = [v for k, v in KILL.items() if possible(st, r, k)]
            self.o16("tool-finished", K, call, not bad, "published although the tool ended by %s" % ", ".join(bad))
            if not (possible(st, r, 0)):
                pass
        op = [x for x in st.props.get("open", ()) if norm(x[1]) == src]
        self.o16("written-out", K, call, not op, "the file is published while the stream writing it is still open")
        for a, ps in st.props.get("closed", ()):
            if norm(ps) == src and a[0] != "sym":
                t = ("wok", a)
                ok = eng.truth(st, eq0(t)) is False
                self.o16("file-replaced", K, call, not st.props.get(("keeps", a)), "what was in the temporary file before is not removed when it is written again")
                self.o16("write-checked", K, call, ok, "published without a check that everything could be written")
        item = st.props.get("item")
        if item is not None:
            T = [x for x in subterms(src) if isinstance(x, tuple) and x and x[0] in ("ld", "fld", "sym", "call", "param")]
            block = tuple("std::filesystem::path::" + x for x in ("filename", "stem", "extension", "parent_path"))
            whole = any(self.mentions(src, item, block) for _ in (0,))
            uniq = any(x[0] == "sym" and any(k in repr(x[1])[:60] for k in ("mkstemp", "tmpnam", "get_id", "fetch_add", "rand", "thread")) for x in T) or \
                any(x[0] == "call" and ("get_id" in x[1] or "gettid" in x[1]) for x in T)
            self.o16("own-temporary", K, call, whole or uniq, "two work items with the same name and content would write the same temporary file at the same time")

    def mentions(self, t, item, block):
        """the path of the work item occurs whole (its first member, not only its basename or hash)"""
        if not isinstance(t, tuple):
            return False
        if t and t[0] == "call" and t[1] in block:
            return False
        if t and t[0] == "ld" and t[1][0] == "&f" and t[1][1] == item:
            return str(t[1][2]).endswith("first")
        if t and t[0] == "fld" and str(t[2]).endswith("first") and occurs(t[1], item):
            return True
        return any(self.mentions(x, item, block) for x in t if isinstance(x, tuple))

    def slash_free(self, x):
        v = x[1]
        if x[0] == "s" and v[0] == "call":
            if v[1].startswith("fn:"):
                f = next((g for g in script_fns(self.p) if "fn:" + g["q"] == v[1]), None)
                if f:
                    strs = [y["v"] for y in fn_nodes(f) if y.get("k") == "str"]
                    ps = [f["_types"][q["t"]]["k"] for q in f["params"]]
                    return all(k == "int" for k in ps) and not any("/" in s for s in strs)
            return v[1] in ("std::filesystem::path::filename", "std::filesystem::path::stem")
        return False

    @staticmethod
    def split(ps):
        """(directory pieces, rest) at the last '/' in literal text"""
        for i in range(len(ps) - 1, -1, -1):
            if ps[i][0] == "t" and "/" in ps[i][1]:
                k = ps[i][1].rindex("/") + 1
                return norm(ps[:i] + (("t", ps[i][1][:k]),)), norm((("t", ps[i][1][k:]),) + ps[i + 1:])
        return (), ps


def maxrows(a):
    if a[0] == "call" and a[1] == "std::max" and len(a[2]) == 2:
        return [lin.parts(lin.add(a, x, -1)) for x in a[2] if x[0] != "c" or True]
    return []


def analyse(p, r16, r17, r18=None):
    fns = script_fns(p)
    if not fns:
        raise AnalysisError("%s not analysed" % UNIT)
    mains = [f for f in fns if f["name"] == "main"]
    if len(mains) != 1:
        raise AnalysisError("main of the script not found")
    sysfn = {f["id"] for f in fns if names_called(f) & {"system", "std::system"}}
    roots = []
    for cid, _ in p.calls[mains[0]["id"]]:
        if cid in p.functions and reach(p, cid) & sysfn and p.functions[cid] not in roots:
            roots.append(p.functions[cid])
    if len(roots) != 1:
        raise AnalysisError("routine running the tool not identified (%d candidates)" % len(roots))
    rule = Worker(p, r16, r17, r18)
    e = Engine(p, rule)
    e.axioms.append(maxrows)
    st = St()
    res = e.run(roots[0], st)
    for rep in (r16, r17):
        rep.eng(e)
    root = roots[0]
    where = "%s:%s" % (root["file"], root["line"])
    if rule.seen["spawn"] == 0 or rule.seen["qops"] == 0:
        raise AnalysisError("worker threads or their queue not recognised")
    if rule.seen["take"] == 0 and not any(not o[3] for o in r17.obs):
        raise AnalysisError("taking of work items not recognised")
    for s, _ in res:
        sp = set(s.props.get("spawned", ()))
        miss = sp - rule.all_joined(s)
        r17.ob("workers-joined", root["name"], where, not miss, "returns while workers may still be running")
        if not sp:
            qs = s.props.get("queues", ())
            em = any(e.truth(s, eq0(("size", e.load(s, q)))) is True for q in qs)
            r17.ob("workers-started", root["name"], where, em, "there is work, but no worker may be started (e.g. unknown number of processors)")
    common = None
    for call, ms in rule.mutexes:
        common = ms if common is None else common & ms
    if rule.mutexes:
        r17.ob("common-lock", "all queue accesses", where, bool(common), "queue accesses are protected by different locks")
    return rule
