"""Path-sensitive abstract interpreter over the exported trees.

States map abstract addresses to symbolic value terms (value numbering), hold
boolean facts and linear inequalities over those terms, and per-rule automaton
state (props).  Helpers are interpreted in place (context-sensitive inlining);
loops are run to a fixpoint in which changed locations become loop symbols and
only facts that hold on entry and on every back edge survive.  Nothing is
executed and no paths are handed to a solver: a loop is covered by its
fixpoint, a join by a merge.
"""
from . import lin
from .prog import AnalysisError, norm_name, fn_nodes, walk

C0, C1 = ("c", 0), ("c", 1)
NPOS = ("c", (1 << 64) - 1)


FORWARDING = {"emplace_back", "emplace_front", "push_back", "emplace", "insert", "try_emplace", "insert_or_assign", "make_pair", "make_unique", "make_shared", "push"}


def c(v):
    return ("c", int(v))


# ---------------------------------------------------------------- terms
_toks = {}
CREATED = {"sym", "phi", "&t", "new", "ep"}

def toks(t):
    """creation tokens inside term t"""
    if not isinstance(t, tuple):
        return frozenset()
    r = _toks.get(t)
    if r is None:
        s = set()
        if t and t[0] in CREATED:
            s.add(t)
        for x in t:
            if isinstance(x, tuple):
                s |= toks(x)
        r = frozenset(s)
        _toks[t] = r
    return r


def subst(t, m, memo):
    """rewrite subterms of t by mapping m"""
    if not isinstance(t, tuple):
        return t
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    if t and t[0] == "lin":
        r = ("c", t[1])
        for a, k in t[2]:
            r = lin.add(r, subst(a, m, memo), k)
    else:
        n = tuple(subst(x, m, memo) if isinstance(x, tuple) else x for x in t)
        r = n if n != t else t
        if r is not t:
            r = simp(r)
    memo[t] = r
    return r


def simp(t):
    if t[0] == "ge0":
        return ge0(t[1])
    if t[0] == "eq0":
        return eq0(t[1])
    if t[0] == "not":
        return neg(t[1])
    if t[0] == "fld":
        return fld(t[1], t[2])
    if t[0] == "size":
        return size_of(t[1])
    if t[0] == "data":
        return data_of(t[1])
    if t[0] == "op" and t[2][0] == "c" and t[3][0] == "c":
        return fold(t[1], t[2], t[3]) or t
    if t[0] == "trunc" and t[2][0] == "c":
        v = t[2][1] & ((1 << t[1]) - 1)
        return c(v - (1 << t[1]) if t[3] and v >> (t[1] - 1) else v)
    return t


def fold(op, a, b):
    try:
        if op == "/": return c(int(a[1] / b[1]))
        if op == "%": return c(a[1] - b[1] * int(a[1] / b[1]))
        if op == "<<": return c(a[1] << b[1])
        if op == ">>": return c(a[1] >> b[1])
        if op == "&": return c(a[1] & b[1])
        if op == "|": return c(a[1] | b[1])
        if op == "^": return c(a[1] ^ b[1])
        if op == "*": return c(a[1] * b[1])
    except Exception:
        pass
    return None


def ge0(l):
    if l[0] == "c":
        return C1 if l[1] >= 0 else C0
    cst, d = lin.parts(l)
    cst, d = lin.norm_row(cst, d)
    return ("ge0", lin.mk(cst, d))


def eq0(l):
    if l[0] == "c":
        return C1 if l[1] == 0 else C0
    cst, d = lin.parts(l)
    first = min(d, key=lin.tid)
    if d[first] < 0:
        l = lin.scale(l, -1)
        cst, d = lin.parts(l)
    # known non-null objects
    if cst == 0 and len(d) == 1 and first[0] in ("&v", "&g", "&t", "&f", "&i", "new", "&fn", "str"):
        return C0
    return ("eq0", l)


def neg(t):
    if t[0] == "c":
        return C0 if t[1] else C1
    if t[0] == "not":
        return t[1]
    return ("not", t)


def fld(v, f):
    if v[0] == "ctor" and v[1] == "std::pair" and len(v[2]) == 2 and f.startswith("std::pair") and f.endswith(("first", "second")):
        return v[2][0 if f.endswith("first") else 1]
    if v[0] == "upd":
        for g, x in v[2]:
            if g == f:
                return x
        return fld(v[1], f)
    return ("fld", v, f)


def size_of(v):
    if v[0] == "str":
        return c(len(v[1].encode("utf-8", "surrogateescape")))
    if v[0] == "sv":
        return v[2]
    if v[0] == "substr" and v[3] == NPOS:
        return lin.add(size_of(v[1]), v[2], -1)
    if v[0] == "ctor" and len(v[2]) == 0:
        return C0
    return ("size", v)


def data_of(v):
    if v[0] == "sv":
        return v[1]
    if v[0] == "substr":
        return lin.add(data_of(v[1]), v[2])
    return ("data", v)


def show(t, depth=0):
    """compact human-readable form"""
    if not isinstance(t, tuple) or not t:
        return str(t)
    if depth > 6:
        return ".."
    k = t[0]
    s = lambda x: show(x, depth + 1)
    if k == "c": return str(t[1])
    if k == "str": return repr(t[1])
    if k == "lin":
        return "(" + " + ".join(([str(t[1])] if t[1] else []) + [("" if k2 == 1 else "%d*" % k2) + s(a) for a, k2 in t[2]]) + ")"
    if k == "&v": return "&" + t[2].split(":")[-1]
    if k == "&g": return "&" + t[1]
    if k == "&f": return s(t[1]) + "." + t[2].split("::")[-1]
    if k == "ld": return "*" + s(t[1])
    if k == "fld": return s(t[1]) + "." + t[2].split("::")[-1]
    if k == "call": return t[1].split("::")[-1] + "(" + ", ".join(s(x) for x in t[2]) + ")"
    if k == "ctor": return t[1] + "{" + ", ".join(s(x) for x in t[2]) + "}"
    if k == "sym": return "sym<%s>" % (t[1],)
    if k == "phi": return "phi<%s>" % s(t[2])
    if k == "upd": return s(t[1]) + "{..}"
    return str(k) + "(" + ", ".join(s(x) for x in t[1:]) + ")"


# ---------------------------------------------------------------- state
class St:
    __slots__ = ("store", "facts", "lin", "epochs", "props", "trace")

    def __init__(self):
        self.store, self.facts, self.lin, self.epochs, self.props, self.trace = {}, {}, [], {}, {}, ()

    def copy(self):
        s = St.__new__(St)
        s.store = dict(self.store)
        s.facts = dict(self.facts)
        s.lin = list(self.lin)
        s.epochs = dict(self.epochs)
        s.props = dict(self.props)
        s.trace = self.trace
        return s

    def key(self):
        return tuple(sorted((repr(k), repr(v)) for k, v in self.props.items()))


class Frame:
    __slots__ = ("fn", "ctx", "this", "caps", "depth", "stack", "types", "scopes", "site", "parent")

    def __init__(self, fn, ctx, this=None, caps=None, depth=0, stack=(), parent=None, site=None):
        self.fn, self.ctx, self.this, self.caps = fn, ctx, this, caps or {}
        self.depth, self.stack, self.types = depth, stack, fn["_types"]
        self.parent, self.site = parent, site

    def where(self, node):
        return "%s:%s" % (self.fn["file"], node.get("l", "?"))

    def chain(self):
        r, f = [], self
        while f is not None:
            r.append(f.fn["q"])
            f = f.parent
        return " <- ".join(r)


class Rule:
    """Hooks; all optional."""
    def pre_call(self, eng, st, call): return None
    def post_call(self, eng, st, call, ret): pass
    def on_deref(self, eng, st, ptr, node, fr): pass
    def on_downcast(self, eng, st, val, node, fr): pass
    def on_load(self, eng, st, addr, node, fr): pass
    def on_store(self, eng, st, addr, val, node, fr): pass
    def on_branch(self, eng, st, term, truth, node, fr): pass
    def on_dtor(self, eng, st, addr, typ, node, fr): pass
    def on_optional(self, eng, st, val, node, fr): pass
    def on_index(self, eng, st, val, idx, node, fr): pass
    def on_substr(self, eng, st, val, pos, node, fr): pass
    def on_loop_back(self, eng, head, st, node, fr): pass
    def on_loop_entry(self, eng, entries, node, fr): pass
    def on_loop_head(self, eng, head, node, fr): pass
    def on_loop_body(self, eng, st, node, fr): pass
    def on_break(self, eng, st, node, fr): pass
    def pre_lambda(self, eng, st, lam, args, fr, node): return None
    def on_loop_round(self, eng, head, backs, node, fr): pass
    def on_ret(self, eng, st, val, fr): pass
    def on_expr(self, eng, st, node, fr): pass
    def inline(self, eng, fn, fr): return True
    def virtual(self, eng, st, call): return None


class Call:
    __slots__ = ("node", "name", "fid", "obj", "args", "fr", "rq", "ctor_of", "upc")

    def __init__(self, node, name, fid, obj, args, fr, rq=None, ctor_of=None):
        self.node, self.name, self.fid, self.obj, self.args, self.fr = node, name, fid, obj, args, fr
        self.rq, self.ctor_of = rq, ctor_of

    def line(self):
        return self.node.get("l")

    def where(self):
        return self.fr.where(self.node)


SV = ("std::basic_string_view", "std::basic_string")
NONMUT = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "find", "data", "front", "back", "at", "get",
          "operator*", "operator->", "value", "c_str", "lower_bound", "upper_bound", "equal_range", "operator bool",
          "native_handle", "joinable", "str", "size", "length", "empty", "rdbuf", "good", "fail", "eof", "first", "last"}
SMART = ("std::unique_ptr", "std::shared_ptr")


class Engine:
    def __init__(self, prog, rule, max_depth=8, K=40, max_steps=400000):
        self.p, self.rule = prog, rule
        self.max_depth, self.K = max_depth, K
        self.dead = getattr(rule, "dead", None)
        self.logs = []
        self.statics = {}     # static local variables met: their addresses
        self.phi_src = {}     # merged symbol -> values it may stand for
        self.nonneg = set()
        self.boolv = set()
        self.mods_cache = {}
        self.steps = 0
        self.max_steps = max_steps
        self.visited_fns = set()
        self.visited_nodes = set()
        self.axioms = []     # functions(term) -> list of linear rows valid for the atom
        self.assume_checks = True
        self.trunc_bits = 8  # narrowing to at most this many bits is kept as an explicit operation

    # ------------------------------------------------------------ terms
    def must(self, t, pred, seen=()):
        """every value term t can stand for contains a subterm with pred"""
        if not isinstance(t, tuple) or not t:
            return False
        if t in seen:
            return True
        if isinstance(t[0], str) and len(t) > 1 and pred(t):
            return True
        if t[0] in CREATED:
            return t in self.phi_src and all(self.must(v, pred, seen + (t,)) for v in self.phi_src[t] if v != t)
        return any(self.must(x, pred, seen) for x in t if isinstance(x, tuple))

    def fresh(self, hint, node, fr, kind="sym"):
        site = node.get("_id", node.get("l", 0)) if isinstance(node, dict) else node
        t = (kind, (hint, site, fr.ctx if fr else ()))
        for l in self.logs:
            l.add(t)
        return t

    def created(self, t):
        for l in self.logs:
            l.add(t)
        return t

    # ------------------------------------------------------------ facts
    def rows_for(self, st, atoms, extra=()):
        rows = [lin.parts(l) for l in st.lin]
        rows += [lin.parts(e) for e in extra]
        rel, ats = lin.relevant(rows, atoms)
        more, done = [], set()
        for _ in range(6):
            new = [a for a in ats if a not in done]
            if not new:
                break
            add = []
            for a in new:
                done.add(a)
                add.extend(self.atom_rows(a))
            more += add
            nat = set()
            for _c, d in add:
                nat |= set(d)
            if not nat <= ats:
                rel, ats2 = lin.relevant(rows, set(ats) | nat)
                ats = set(ats) | set(ats2) | nat
        return rel + more

    def atom_rows(self, a):
        """linear facts that hold of an atom by what it denotes"""
        more = []
        if a[0] == "size" or a in self.nonneg:
            more.append((0, {a: 1}))
        for ax in self.axioms:
            more.extend(ax(a))
        if a[0] == "op" and a[1] == "<<" and a[2] == C1:
            more.append((-1, {a: 1}))
        if a[0] == "call" and a[1] == "std::max":
            for x in a[2]:
                more.append(lin.parts(lin.add(a, x, -1)))
        if a[0] == "call" and a[1] == "std::min":
            for x in a[2]:
                more.append(lin.parts(lin.add(x, a, -1)))
        if a[0] == "size" and a[1][0] == "substr":
            v = a[1]
            more.append(lin.parts(lin.add(lin.add(size_of(v[1]), v[2], -1), a, -1)))
            if v[3] != NPOS:
                more.append(lin.parts(lin.add(v[3], a, -1)))
        return more

    def entails(self, st, l, depth=0):
        """lin term l >= 0 in st?"""
        if l[0] == "c":
            return l[1] >= 0
        cst, d = lin.parts(l)
        rows = self.rows_for(st, d.keys())
        goal = (-cst - 1, {t: -k for t, k in d.items()})
        if lin.infeasible(rows + [goal]):
            return True
        # use disequalities to tighten
        ats = set(d)
        for r in rows:
            ats |= set(r[1])
        add = []
        for f, v in st.facts.items():
            if v is False and f[0] == "eq0":
                fc, fd = lin.parts(f[1])
                if not set(fd) <= ats:
                    continue
                for sg in (1, -1):
                    e = lin.scale(f[1], sg)
                    ec, ed = lin.parts(e)
                    if lin.infeasible(rows + [(-ec - 1, {t: -k for t, k in ed.items()})]):
                        add.append((ec - 1, ed))
                        break
        if add and lin.infeasible(rows + add + [goal]):
            return True
        return False

    def truth(self, st, t):
        if t[0] == "c":
            return t[1] != 0
        if t[0] == "not":
            r = self.truth(st, t[1])
            return None if r is None else not r
        if t in st.facts:
            return st.facts[t]
        if t[0] == "ge0":
            if self.entails(st, t[1]):
                return True
            if self.entails(st, lin.add(lin.scale(t[1], -1), c(-1))):
                return False
            return None
        if t[0] == "eq0":
            l = t[1]
            if self.entails(st, l):
                if self.entails(st, lin.scale(l, -1)):
                    return True
                if self.entails(st, lin.add(l, c(-1))):
                    return False
            elif self.entails(st, lin.add(lin.scale(l, -1), c(-1))):
                return False
            return None
        if t[0] == "eq":
            a, b = t[1], t[2]
            if a == b:
                return True
            if a[0] == "str" and b[0] == "str":
                return a[1] == b[1]
            return None
        if t[0] == "has":
            return self.has_known(t[1])
        return None

    @staticmethod
    def has_known(v):
        if v[0] == "ctor" and v[1] in ("std::optional",):
            if not v[2]:
                return False
            a = v[2][0]
            return not (a == ("nullopt",))
        return None

    def assume(self, st, t, truth):
        """refine st (in place); False if contradictory"""
        if t[0] == "c":
            return (t[1] != 0) == truth
        if t[0] == "not":
            return self.assume(st, t[1], not truth)
        k = self.truth(st, t)
        if k is not None:
            return k == truth
        if t[0] == "ge0":
            st.lin.append(t[1] if truth else lin.add(lin.scale(t[1], -1), c(-1)))
        elif t[0] == "eq0":
            if truth:
                st.lin.append(t[1])
                st.lin.append(lin.scale(t[1], -1))
                st.facts[t] = True
            else:
                st.facts[t] = False
        else:
            st.facts[t] = truth
        return True

    def eqterm(self, a, b, numeric=True):
        if a == b:
            return C1
        if numeric:
            # comparisons of a truth value with a constant
            for x, y in ((a, b), (b, a)):
                if y[0] == "c" and self.is_bool(x):
                    return x if y[1] else neg(x)
            return eq0(lin.add(a, b, -1))
        if lin.tid(a) > lin.tid(b):
            a, b = b, a
        if a[0] == "str" and b[0] == "str":
            return C1 if a[1] == b[1] else C0
        return ("eq", a, b)

    def is_bool(self, x):
        return x[0] in ("ge0", "eq0", "eq", "not", "has") or x in self.boolv

    # ------------------------------------------------------------ memory
    def epoch(self, st, addr):
        e = (st.epochs.get("*"), st.epochs.get(addr[2]) if addr[0] == "&f" else None)
        base = addr
        while base[0] == "&f":
            base = base[1]
        e2 = st.epochs.get(base)
        if e2 is not None:
            e = e + (e2,)
        return tuple(x for x in e if x is not None)

    def load(self, st, addr):
        if addr == ("nullopt",): return addr
        v = st.store.get(addr)
        if v is not None:
            return self.compose(st, addr, v)
        if addr[0] == "&f":
            w = self.lookup_whole(st, addr[1])
            if w is not None:
                return self.compose(st, addr, fld(w, addr[2]))
        return self.compose(st, addr, ("ld", addr, self.epoch(st, addr)))

    def lookup_whole(self, st, addr):
        v = st.store.get(addr)
        if v is not None:
            return v
        if addr[0] == "&f":
            w = self.lookup_whole(st, addr[1])
            if w is not None:
                return fld(w, addr[2])
        return None

    def compose(self, st, addr, base):
        """value of the object at addr, including separately written members"""
        subs = set()
        for a in st.store:
            while a[0] == "&f":
                if a[1] == addr:
                    subs.add((a[2], a))
                    break
                a = a[1]
        if not subs:
            return base
        d = []
        for f, a in sorted(subs):
            d.append((f, self.load(st, a)))
        return ("upd", base, tuple(d))

    def under(self, a, root):
        while True:
            if a == root:
                return True
            if a[0] in ("&f", "&i") :
                a = a[1]
                continue
            if a[0] == "lin" and len(a[2]) >= 1:
                # pointer arithmetic: base atom(s)
                return any(self.under(x, root) for x, _ in a[2] if x[0] in ("&i", "&f"))
            return False

    def write(self, st, addr, val):
        for a in [a for a in st.store if a != addr and self.under(a, addr)]:
            del st.store[a]
        # may-alias: same field of another object
        if addr[0] == "&f":
            for a in [a for a in st.store if a[0] == "&f" and a[2] == addr[2] and a != addr and self.may_alias(st, a[1], addr[1])]:
                st.store[a] = self.created(("sym", ("alias", lin.tid(a), lin.tid(addr), lin.tid(val))))
        elif addr[0] not in ("&v", "&g", "&t", "new", "&f"):
            for a in [a for a in st.store if a[0] not in ("&v", "&g", "&t", "new", "&f") and a != addr]:
                cst, d = lin.parts(lin.add(a, addr, -1)) if a[0] in ("lin",) or addr[0] in ("lin",) or True else (0, {})
                if not d and cst != 0:
                    continue  # provably different element
                if self.distinct_root(a, addr):
                    continue
                st.store[a] = self.created(("sym", ("alias", lin.tid(a), lin.tid(addr), lin.tid(val))))
        st.store[addr] = val

    @staticmethod
    def roots(a):
        """atoms an address is based on"""
        while a[0] in ("&f", "&i"):
            a = a[1]
        if a[0] == "lin":
            r = set()
            for x, k in a[2]:
                r |= Engine.roots(x)
            return r
        return {a}

    def distinct_root(self, a, b):
        ra, rb = self.roots(a), self.roots(b)
        known = ("&v", "&g", "&t", "new")
        ka = [x for x in ra if x[0] in known]
        kb = [x for x in rb if x[0] in known]
        if ka and kb:
            return not (set(ka) & set(kb))
        return False

    def may_alias(self, st, a, b):
        if a == b:
            return True
        loc = ("&v", "&g", "&t")
        ra, rb = a, b
        while ra[0] == "&f": ra = ra[1]
        while rb[0] == "&f": rb = rb[1]
        if ra[0] in loc or rb[0] in loc or (ra[0] == "new" and rb[0] == "new"):
            if ra[0] in loc and rb[0] in loc:
                return ra == rb and a == b
            # an unescaped local object is not reachable through unknown pointers
            return False
        if ra[0] == "new" and rb[0] == "ld" or ra[0] == "ld" and rb[0] == "new":
            return False
        if self.truth(st, eq0(lin.add(a, b, -1))) is False:
            return False
        return True

    def havoc_addr(self, st, addr, tok):
        for a in [a for a in st.store if a == addr or self.under(a, addr)]:
            del st.store[a]
        st.store[addr] = tok

    def havoc_fields(self, st, fields, node, fr):
        tok = self.fresh("mod", node, fr, "ep")
        for f in fields:
            st.epochs[f] = tok
        for a in list(st.store):
            x = a
            hit = False
            while x[0] in ("&f", "&i"):
                if x[0] == "&f" and x[2] in fields:
                    hit = True
                    break
                x = x[1]
            if hit and a in st.store:
                del st.store[a]

    def havoc_all(self, st, node, fr):
        tok = self.fresh("all", node, fr, "ep")
        st.epochs = {"*": tok}
        for a in list(st.store):
            x = a
            while x[0] in ("&f", "&i"):
                x = x[1]
            if x[0] not in ("&v", "&t"):
                del st.store[a]

    # ------------------------------------------------------------ mod summaries
    def mods(self, fid, seen=None):
        if fid in self.mods_cache:
            return self.mods_cache[fid]
        # closure over call graph
        res, star = set(), False
        stack, seen = [fid], set()
        while stack:
            f = stack.pop()
            if f in seen:
                continue
            seen.add(f)
            fn = self.p.functions.get(f)
            for o in self.p.overriders.get(f, ()):
                stack.append(o)
            if not fn:
                continue
            res |= self.direct_mods(fn)
            for cal, n in self.p.calls.get(f, ()):
                stack.append(cal)
            if self.has_indirect(fn):
                star = True
        r = (frozenset(res), star)
        self.mods_cache[fid] = r
        return r

    def has_indirect(self, fn):
        for n in fn_nodes(fn):
            if n.get("k") == "call" and n.get("n") and norm_name(n["n"]) == "std::function::operator()":
                return True
        return False

    def direct_mods(self, fn):
        if "_mods" in fn:
            return fn["_mods"]
        out = set()
        def lvfields(n):
            # fields on the path of an lvalue expression
            while isinstance(n, dict):
                if n.get("k") == "mem":
                    out.add(n["f"])
                    n = n.get("b")
                elif n.get("k") == "idx":
                    n = n.get("b")
                elif n.get("k") in ("cast", "ld", "un"):
                    n = n.get("e")
                elif n.get("k") == "call" and n.get("obj"):
                    n = n["obj"]
                else:
                    return
        for n in fn_nodes(fn):
            k = n.get("k")
            if k == "asg":
                lvfields(n["a"])
            elif k == "un" and n["op"] in ("++", "--"):
                lvfields(n["e"])
            elif k == "un" and n["op"] == "&":
                lvfields(n["e"])
            elif k in ("call", "ctor"):
                nm = norm_name(n.get("n") or "")
                if n.get("obj") and not n.get("cm") and nm.split("::")[-1] not in NONMUT and n.get("ext"):
                    lvfields(n["obj"])
                pts = n.get("pt") or []
                for i, a in enumerate(n.get("a", ())):
                    if i < len(pts) and pts[i] >= 0:
                        t = fn["_types"][pts[i]]
                        if t["k"] == "ref" and not fn["_types"][t["to"]].get("const"):
                            lvfields(a)
        fn["_mods"] = frozenset(out)
        return fn["_mods"]

    # ------------------------------------------------------------ expressions
    def typ(self, fr, tid):
        return fr.types[tid] if tid is not None and tid >= 0 else {"k": "other", "s": "?"}

    def seq(self, st, nodes, fr):
        """evaluate nodes in order -> [(st, [vals])]"""
        states = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in states:
                for s2, v in self.eval(n, s, fr):
                    nxt.append((s2, vs + [v]))
            states = nxt
        return states

    def eval(self, n, st, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise AnalysisError("abstract interpretation of %s exceeds its step bound" % fr.chain())
        self.visited_nodes.add(n.get("_id"))
        m = getattr(self, "e_" + n["k"], None)
        if m is None:
            raise AnalysisError("unsupported expression %s at %s" % (n["k"], fr.where(n)))
        r = m(n, st, fr)
        if n.get("tmp") and not n.get("lv") and n["k"] not in ("call", "ctor"):
            return [self.materialize(n, s, v, fr) for s, v in r]
        return r

    def materialize(self, n, st, v, fr):
        a = self.created(("&t", (n.get("_id", 0), fr.ctx)))
        self.write(st, a, v)
        return st, a

    def e_int(self, n, st, fr): return [(st, c(n["v"]))]
    def e_bool(self, n, st, fr): return [(st, c(1 if n["v"] else 0))]
    def e_float(self, n, st, fr): return [(st, ("flt", n["v"]))]
    def e_str(self, n, st, fr): return [(st, ("str", n["v"]))]
    def e_nullp(self, n, st, fr): return [(st, C0)]
    def e_zero(self, n, st, fr):
        t = self.typ(fr, n.get("t"))
        if t["k"] == "rec":
            return [(st, ("ctor", norm_name(t.get("q", t["s"])), ()))]
        return [(st, C0)]
    def e_this(self, n, st, fr): return [(st, fr.this or ("this0",))]

    def e_fn(self, n, st, fr):
        if n.get("b"):
            return [(s, ("bound", n["f"], v)) for s, v in self.eval(n["b"], st, fr)]
        return [(st, ("&fn", n["f"]))]

    def var_addr(self, n, st, fr):
        vid = n["id"]
        if n.get("glob") is not None:
            return ("&g", vid)
        f = fr
        if vid in f.caps:
            return f.caps[vid]
        if (fr.fn.get("file"), vid) in self.statics:       # of an enclosing function
            return self.statics[(fr.fn.get("file"), vid)]
        return ("&v", fr.ctx, vid)

    def e_var(self, n, st, fr):
        if n.get("glob") == "std::nullopt":
            return [(st, ("nullopt",))]
        if "cv" in n and not n.get("isref"):
            # integral constant: give its address a known content
            a = self.var_addr(n, st, fr)
            if a not in st.store:
                t = self.typ(fr, n.get("t"))
                st.store[a] = c(n["cv"] + (1 << t.get("bits", 64)) if n["cv"] < 0 and t["k"] == "int" and not t.get("signed") else n["cv"])
            return [(st, a)]
        a = self.var_addr(n, st, fr)
        if n.get("isref"):
            b = st.store.get(a)
            if b is None:
                b = ("ld", a, self.epoch(st, a))
            return [(st, b)]
        return [(st, a)]

    def e_mem(self, n, st, fr):
        out = []
        for s, b in self.eval(n["b"], st, fr):
            if n.get("arrow"):
                self.rule.on_deref(self, s, b, n, fr)
            elif not (n["b"].get("lv") or n["b"].get("tmp")):
                out.append((s, fld(b, n["f"])))
                continue
            a = ("&f", b, n["f"])
            if n.get("isref"):
                a = self.load(s, a)
            out.append((s, a))
        return out

    def e_ld(self, n, st, fr):
        out = []
        for s, a in self.eval(n["e"], st, fr):
            self.rule.on_load(self, s, a, n, fr)
            v = self.load(s, a)
            self.note_type(v, n, fr)
            out.append((s, v))
        return out

    def note_type(self, v, n, fr):
        if v[0] in ("c", "lin"):
            return
        t = self.typ(fr, n.get("t"))
        if t["k"] == "int" and not t.get("signed"):
            self.nonneg.add(v)
        elif t["k"] == "bool":
            self.boolv.add(v)

    def e_cast(self, n, st, fr):
        ck = n["ck"]
        out = []
        for s, v in self.eval(n["e"], st, fr):
            if ck in ("PointerToBoolean", "IntegralToBoolean"):
                v = v if self.is_bool(v) else neg(eq0(v))
            elif ck == "NullToPointer":
                v = C0
            elif ck == "ArrayToPointerDecay":
                v = v if v[0] == "str" else ("&i", v)
            elif ck == "IntegralCast":
                t = self.typ(fr, n.get("t"))
                src = self.typ(fr, n["e"].get("t"))
                if v == c(-1) and t["k"] == "int" and not t.get("signed") and t.get("bits"): v = c((1 << t["bits"]) - 1)
                if t["k"] == "int" and t.get("bits", 64) <= self.trunc_bits and v[0] != "c" and src.get("bits", 8) > t.get("bits", 64):
                    v = ("trunc", t["bits"], v, 1 if t.get("signed") else 0)
            elif ck in ("IntegralToFloating", "FloatingToIntegral", "FloatingCast"):
                v = v if v[0] == "c" and ck == "FloatingCast" else ("fcast", ck, v)
            elif ck == "FloatingToBoolean":
                v = ("fbool", v)
            elif ck == "BaseToDerived":
                self.rule.on_downcast(self, s, v, n, fr)
            out.append((s, v))
        return out

    def as_bool(self, v):
        if v[0] == "c" or self.is_bool(v):
            return v
        return v if v[0] in ("call", "sym", "ld", "phi", "fld") else v

    def e_un(self, n, st, fr):
        op = n["op"]
        out = []
        for s, v in self.eval(n["e"], st, fr):
            if op == "!":
                out.append((s, neg(v)))
            elif op == "*":
                self.rule.on_deref(self, s, v, n, fr)
                out.append((s, v))
            elif op == "&":
                out.append((s, v))
            elif op == "-":
                out.append((s, lin.scale(v, -1)))
            elif op == "+":
                out.append((s, v))
            elif op in ("++", "--"):
                old = self.load(s, v)
                self.note_type(old, n, fr)
                new = lin.add(old, c(1 if op == "++" else -1))
                self.do_store(s, v, new, n, fr)
                out.append((s, old if n.get("post") else v))
            elif op == "~":
                out.append((s, c(~v[1]) if v[0] == "c" else ("bitnot", v)))
            else:
                out.append((s, ("un", op, v)))
        return out

    def do_store(self, st, addr, val, n, fr):
        self.rule.on_store(self, st, addr, val, n, fr)
        self.write(st, addr, val)

    def arith(self, op, a, b):
        if op == "+":
            return lin.add(a, b)
        if op == "-":
            return lin.add(a, b, -1)
        if op == "*":
            if a[0] == "c": return lin.scale(b, a[1])
            if b[0] == "c": return lin.scale(a, b[1])
        if a[0] == "c" and b[0] == "c":
            r = fold(op, a, b)
            if r is not None:
                return r
        if op == "<<" and b[0] == "c" and 0 <= b[1] < 32:
            return lin.scale(a, 1 << b[1])
        if op == "<<" and a[0] == "c" and a[1] > 0:
            # const << x  ==  const * 2^k * (1 << x')
            k, m = lin.parts(b)
            if 0 <= k < 32:
                return lin.scale(("op", "<<", C1, lin.mk(0, m)), a[1] << k)
        if op in ("*", "&", "|", "^") and lin.tid(a) > lin.tid(b):
            a, b = b, a
        return ("op", op, a, b)

    def compare(self, op, a, b):
        if op == "==": return self.eqterm(a, b)
        if op == "!=": return neg(self.eqterm(a, b))
        if op == "<": return ge0(lin.add(lin.add(b, a, -1), c(-1)))
        if op == "<=": return ge0(lin.add(b, a, -1))
        if op == ">": return ge0(lin.add(lin.add(a, b, -1), c(-1)))
        if op == ">=": return ge0(lin.add(a, b, -1))

    def e_bin(self, n, st, fr):
        op = n["op"]
        if op in ("&&", "||"):
            out = []
            for s, t, truth in self.cond(n, st, fr):
                out.append((s, c(1 if truth else 0)))
            return out
        if op == ",":
            return [(s, vs[1]) for s, vs in self.seq(st, [n["a"], n["b"]], fr)]
        out = []
        for s, (a, b) in self.seq(st, [n["a"], n["b"]], fr):
            if op in ("==", "!=", "<", "<=", ">", ">="):
                ta = self.typ(fr, n["a"].get("t"))
                if ta["k"] == "float":
                    out.append((s, ("op", op, a, b)))
                else:
                    out.append((s, self.compare(op, a, b)))
            elif op in (".*", "->*"):
                out.append((s, ("memptr", a, b)))
            else:
                t = self.typ(fr, n.get("t"))
                v = self.arith(op, a, b) if t["k"] != "float" else ("op", op, a, b)
                if t["k"] == "int" and not t.get("signed") and v[0] not in ("c", "lin"):
                    self.nonneg.add(v)
                out.append((s, v))
        return out

    def e_asg(self, n, st, fr):
        op = n["op"]
        out = []
        if op == "=":
            order = [n["b"], n["a"]]
            for s, (v, a) in self.seq(st, order, fr):
                self.do_store(s, a, v, n, fr)
                out.append((s, a))
            return out
        bop = op[:-1]
        for s, (v, a) in self.seq(st, [n["b"], n["a"]], fr):
            old = self.load(s, a)
            self.note_type(old, n["a"], fr)
            t = self.typ(fr, n["a"].get("t"))
            if t["k"] == "bool" and bop in ("|", "&"):
                if old[0] == "c" and v[0] == "c":
                    nv = c((old[1] | v[1]) if bop == "|" else (old[1] & v[1]))
                    self.do_store(s, a, nv, n, fr); out.append((s, a)); continue
                # decide by cases
                for tv in (True, False):
                    s1 = s.copy()
                    if not self.assume(s1, v, tv): continue
                    nv = (C1 if tv else old) if bop == "|" else (old if tv else C0)
                    self.do_store(s1, a, nv, n, fr)
                    out.append((s1, a))
                continue
            nv = self.arith(bop, old, v) if t["k"] != "float" else ("op", bop, old, v)
            self.do_store(s, a, nv, n, fr)
            out.append((s, a))
        return out

    def e_cond(self, n, st, fr):
        out = []
        for s, t, truth in self.cond(n["c"], st, fr):
            out.extend(self.eval(n["a"] if truth else n["b"], s, fr))
        return out

    def e_elvis(self, n, st, fr):
        out = []
        for s, v in self.eval(n["c"], st, fr):
            s1, s2 = s, s.copy()
            tv = v if self.is_bool(v) else neg(eq0(v))
            if self.assume(s1, tv, True):
                out.append((s1, v))
            if self.assume(s2, tv, False):
                out.extend(self.eval(n["f"], s2, fr))
        return out

    def e_idx(self, n, st, fr):
        out = []
        for s, (b, i) in self.seq(st, [n["b"], n["i"]], fr):
            a = lin.add(b, i)
            self.rule.on_deref(self, s, a, n, fr)
            out.append((s, a))
        return out

    def e_init(self, n, st, fr):
        t = self.typ(fr, n.get("t"))
        out = []
        es = n["es"]
        for s, vs in self.seq(st, es, fr):
            vs = [self.rval(s, x, e) for x, e in zip(vs, es)]
            if t["k"] == "rec" and n.get("fs") is not None:
                nb = n.get("nbases", 0)
                items = tuple(sorted(zip(n["fs"], vs[nb:])))
                v = ("upd", ("agg", t["rec"]), items)
            elif t["k"] == "arr":
                v = ("arr", tuple(vs))
            elif len(vs) == 1:
                v = vs[0]
            elif not vs:
                v = C0 if t["k"] in ("int", "ptr", "bool", "enum") else ("ctor", t["s"], ())
            else:
                v = ("arr", tuple(vs))
            out.append((s, v))
        return out

    def rval(self, st, v, node):
        """value if the node denotes an object (glvalue of class type)"""
        if node.get("lv") or node.get("tmp"):
            return self.load(st, v)
        return v

    def e_lambda(self, n, st, fr):
        caps = []
        s = st
        states = [(st, [])]
        for cp in n["caps"]:
            nxt = []
            for s, cl in states:
                if cp.get("this"):
                    nxt.append((s, cl)); continue
                if cp.get("ref"):
                    fake = {"k": "var", "id": cp["var"]}
                    a = fr.caps.get(cp["var"], ("&v", fr.ctx, cp["var"]))
                    nxt.append((s, cl + [(cp["var"], "ref", a)]))
                else:
                    if cp.get("init"):
                        for s2, v in self.eval(cp["init"], s, fr):
                            v = self.rval(s2, v, cp["init"])
                            nxt.append((s2, cl + [(cp["var"], "val", v)]))
                    else:
                        a = fr.caps.get(cp["var"], ("&v", fr.ctx, cp["var"]))
                        nxt.append((s, cl + [(cp["var"], "val", self.load(s, a))]))
            states = nxt
        return [(s, ("lam", n["f"], tuple(cl), fr.this or ("this0",), fr.ctx)) for s, cl in states]

    def e_new(self, n, st, fr):
        out = []
        nodes = list(n["pl"])
        for s, pl in self.seq(st, nodes, fr):
            states = [(s, None)]
            if n.get("n"):
                states = self.eval(n["n"], s, fr)
            for s1, cnt in states:
                if pl and not (len(pl) == 1 and "nothrow" in str(n["pl"][0].get("n", ""))):
                    a = pl[0]
                else:
                    a = self.fresh("new", n, fr, "new")
                r = self.rule.pre_call(self, s1, Call(n, "operator new", None, None, [a] + ([cnt] if cnt else []), fr))
                if n.get("init") and not n.get("arr"):
                    for s2 in self.construct(n["init"], s1, a, fr):
                        out.append((s2, a))
                else:
                    out.append((s1, a))
        return out

    def e_delete(self, n, st, fr):
        out = []
        for s, v in self.eval(n["e"], st, fr):
            self.rule.pre_call(self, s, Call(n, "operator delete", None, None, [v], fr))
            out.append((s, C0))
        return out

    def e_throw(self, n, st, fr):
        return []

    def e_other(self, n, st, fr):
        out = []
        for s, vs in self.seq(st, n.get("es", []), fr):
            out.append((s, self.fresh("other", n, fr)))
        return out

    # ------------------------------------------------------------ conditions
    def cond(self, n, st, fr):
        """-> [(st, term, truth)] with the branch assumed"""
        if n["k"] == "bin" and n["op"] in ("&&", "||"):
            out = []
            for s, t, truth in self.cond(n["a"], st, fr):
                if truth == (n["op"] == "&&"):
                    out.extend(self.cond(n["b"], s, fr))
                else:
                    out.append((s, t, truth))
            return out
        if n["k"] == "un" and n["op"] == "!":
            return [(s, t, not truth) for s, t, truth in self.cond(n["e"], st, fr)]
        out = []
        for s, v in self.eval(n, st, fr):
            v = self.rval(s, v, n) if n.get("tmp") else v
            for truth in (True, False):
                s1 = s.copy() if truth else s
                if self.assume(s1, v, truth):
                    if v[0] != "c":
                        s1.trace = (s1.trace, (fr.fn["file"], n.get("l"), truth))
                    self.rule.on_branch(self, s1, v, truth, n, fr)
                    out.append((s1, v, truth))
        return out

    # ------------------------------------------------------------ construction
    def construct(self, n, st, addr, fr):
        """initialise object at addr from initializer n -> [st]"""
        t = self.typ(fr, n.get("t"))
        if n["k"] == "ctor":
            out = []
            for s, v in self.ctor(n, st, fr, addr):
                if v is not None:
                    self.do_store(s, addr, v, n, fr)
                out.append(s)
            return out
        if n["k"] == "init" and t["k"] == "rec" and n.get("fs") is not None:
            # aggregate: members in place
            states = [st]
            nb = n.get("nbases", 0)
            for s in states:
                self.write(s, addr, ("agg", t["rec"]))
            for fid, e in zip(n["fs"], n["es"][nb:]):
                nxt = []
                for s in states:
                    nxt.extend(self.construct(e, s, ("&f", addr, fid), fr))
                states = nxt
            return states
        out = []
        for s, v in self.eval(n, st, fr):
            v = self.rval(s, v, n)
            self.do_store(s, addr, v, n, fr)
            out.append(s)
        return out

    def e_ctor(self, n, st, fr):
        tmp = n.get("tmp")
        a = self.created(("&t", (n.get("_id", 0), fr.ctx)))
        out = []
        for s, v in self.ctor(n, st, fr, a):
            if v is None:
                if tmp:
                    out.append((s, a))
                else:
                    out.append((s, self.load(s, a)))
            else:
                if tmp:
                    self.write(s, a, v)
                    out.append((s, a))
                else:
                    out.append((s, v))
        return out

    def ctor(self, n, st, fr, addr):
        """-> [(st, value or None if constructed in place at addr)]"""
        rq = norm_name(n.get("rq") or n["rec"])
        args = n.get("a", [])
        if n.get("cm_ctor") and len(args) >= 1:
            out = []
            for s, v in self.eval(args[0], st, fr):
                src = v
                val = self.rval(s, v, args[0])
                call = Call(n, rq + "::" + n["cm_ctor"], n.get("f"), addr, [src], fr, rq, n["rec"])
                r = self.rule.pre_call(self, s, call)
                if n["cm_ctor"] == "move" and rq in SMART and (args[0].get("lv")):
                    self.write(s, src, ("ctor", rq, ()))
                if r is not None:
                    out.extend(r)
                else:
                    out.append((s, val))
            return out
        out = []
        for s, vs in self.seq(st, args, fr):
            call = Call(n, rq + "::" + rq.split("::")[-1], n.get("f"), addr, vs, fr, rq, n["rec"])
            r = self.rule.pre_call(self, s, call)
            if r is not None:
                out.extend(r)
                continue
            if rq == "absl_shim::FatalMessage":
                continue  # CHECK failed: the program ends here
            fn = self.p.functions.get(n.get("f"))
            if fn and self.can_inline(fn, fr):
                for s2, _ in self.inline(fn, s, addr, vs, fr, n):
                    out.append((s2, None))
                continue
            out.append((s, self.ctor_model(n, rq, s, vs, args, fr)))
        return out

    def ctor_model(self, n, rq, st, vs, args, fr):
        vals = [self.rval(st, v, a) for v, a in zip(vs, args)]
        if rq in SV:
            vals2 = [v for v, a in zip(vals, args) if "allocator" not in self.typ(fr, a.get("t"))["s"][:20]]
            if len(vals2) == 2 and self.typ(fr, args[1].get("t"))["k"] in ("int",):
                return ("sv", vals2[0], vals2[1])
            if len(vals2) == 2 and self.typ(fr, args[1].get("t"))["k"] == "ptr":
                return ("sv", vals2[0], lin.add(vals2[1], vals2[0], -1))
            if len(vals2) == 1:
                if vals2[0][0] in ("str", "sv", "substr"):
                    return vals2[0]
                if self.typ(fr, args[0].get("t"))["k"] == "rec":
                    return vals2[0] if rq == "std::basic_string" else vals2[0]
                return ("ctor", rq, (vals2[0],))
            if not vals2:
                return ("ctor", rq, ())
        if rq == "std::function" and len(vals) == 1:
            return vals[0]
        if rq == "std::initializer_list" and len(vals) == 1:
            return vals[0]
        if rq in SMART and len(vals) >= 1:
            return ("ctor", rq, (vals[0],))
        if not vals and n.get("dflt"):
            return ("ctor", rq, ())
        return ("ctor", rq, tuple(vals))

    # ------------------------------------------------------------ calls
    def can_inline(self, fn, fr):
        if not fn.get("body") and not fn.get("ctor"):
            return False
        if fr.depth >= self.max_depth or fn["id"] in fr.stack:
            return False
        return self.rule.inline(self, fn, fr)

    def inline(self, fn, st, this, args, fr, node):
        self.visited_fns.add(fn["id"])
        ctx = fr.ctx + (node.get("_id", 0),) if fr else (node.get("_id", 0),)
        nf = Frame(fn, ctx, this, None, fr.depth + 1, fr.stack + (fn["id"],), fr, node)
        return self.run_body(fn, st, nf, args)

    def run_body(self, fn, st, nf, args, caps=None):
        for pdef, v in zip(fn["params"], args):
            a = ("&v", nf.ctx, pdef["id"])
            t = self.typ(nf, pdef["t"])
            st.store[a] = v
        states = [st]
        if fn.get("ctor"):
            if nf.this is not None:
                for s in states:
                    for x in [x for x in s.store if x == nf.this or self.under(x, nf.this)]:
                        if nf.this[0] in ("&t", "&v", "new"):
                            del s.store[x]
            for i in fn.get("inits", ()):
                nxt = []
                for s in states:
                    if i.get("field") and i.get("e"):
                        fa = ("&f", nf.this, i["field"])
                        r, fl = self.p.field_types.get(i["field"], (None, None))
                        isref = fl is not None and r["_types"][fl["type"]]["k"] in ("ref", "rref")
                        if isref:
                            for s2, v in self.eval(i["e"], s, nf):
                                self.do_store(s2, fa, v, i["e"], nf)
                                nxt.append(s2)
                        else:
                            nxt.extend(self.construct(i["e"], s, fa, nf))
                    elif i.get("e"):
                        if i["e"]["k"] == "ctor":
                            for s2, v in self.ctor(i["e"], s, nf, nf.this):
                                nxt.append(s2)
                        else:
                            for s2, v in self.eval(i["e"], s, nf):
                                nxt.append(s2)
                    else:
                        nxt.append(s)
                states = nxt
        out = []
        for s in states:
            if not fn.get("body"):
                out.append((s, C0)); continue
            for kind, s2, v in self.exec(fn["body"], s, nf):
                if kind == "r":
                    out.append((s2, v))
                elif kind == "n":
                    self.rule.on_ret(self, s2, None, nf)
                    out.append((s2, C0))
        # leave: drop the frame's own variables
        for s, _ in out:
            self.drop_frame(s, nf)
        return self.merge_vals(out, fn, nf)

    def drop_frame(self, s, nf):
        ctx = nf.ctx
        for a in [a for a in s.store if self.in_frame(a, ctx)]:
            del s.store[a]

    @staticmethod
    def in_frame(a, ctx):
        while a[0] in ("&f", "&i"):
            a = a[1]
        if a[0] == "lin":
            return any(Engine.in_frame(x, ctx) for x, _ in a[2])
        return a[0] == "&v" and a[1] == ctx

    def merge_vals(self, res, fn, fr):
        if len(res) <= self.K:
            return res
        # merge states with equal props and equal value
        groups = {}
        for s, v in res:
            groups.setdefault((s.key(), v), []).append(s)
        if len(groups) > self.K:
            groups = {}
            RV = ("&v", fr.ctx, "$ret")
            for s, v in res:
                s.store[RV] = v
                groups.setdefault((s.key(), v if v[0] == "c" else None), []).append(s)
            out = []
            for (k, v), ss in groups.items():
                m = self.join_states(ss, (fn["id"], fr.ctx, k, v))
                out.append((m, m.store.pop(RV)))
            return out
        return [(self.join_states(ss, (fn["id"], fr.ctx, k, v)), v) for (k, v), ss in groups.items()]

    def e_call(self, n, st, fr):
        name = norm_name(n.get("n")) if n.get("n") else None
        out = []
        nodes = []
        if n.get("obj") is not None:
            nodes.append(n["obj"])
        if n.get("callee") is not None:
            nodes.append(n["callee"])
        nodes += n.get("a", [])
        for s, vs in self.seq(st, nodes, fr):
            obj = callee = None
            vs = list(vs)
            if n.get("obj") is not None:
                obj = vs.pop(0)
                if n.get("arrow"):
                    self.rule.on_deref(self, s, obj, n, fr)
                elif not (n["obj"].get("lv") or n["obj"].get("tmp")):
                    # method on a prvalue
                    s, obj = self.materialize(n["obj"], s, obj, fr)
            if n.get("callee") is not None:
                callee = vs.pop(0)
            for s2, v in self.do_call(n, name, s, obj, callee, vs, fr):
                if n.get("tmp") and not n.get("lv"):
                    a = self.created(("&t", (n.get("_id", 0), fr.ctx)))
                    self.write(s2, a, v)
                    v = a
                else:
                    self.note_type(v, n, fr)
                out.append((s2, v))
        if len(out) > self.K * 2:
            out = self.merge_vals(out, {"id": "call"}, fr)
        return out

    def do_call(self, n, name, st, obj, callee, args, fr):
        fid = n.get("f")
        call = Call(n, name, fid, obj, args, fr, norm_name(n.get("rq")) if n.get("rq") else None)
        r = self.rule.pre_call(self, st, call)
        if r is not None:
            return r
        if n.get("nr"):
            return []
        if name in ("abort", "exit", "_exit", "__assert_fail", "std::terminate", "std::abort", "std::exit"):
            return []
        # calls through values
        if callee is not None:
            return self.call_value(n, st, callee, args, fr, call)
        if name == "std::function::operator()":
            fv = self.load(st, obj)
            return self.call_value(n, st, fv, args, fr, call)
        if n.get("lam") and obj is not None:
            fv = self.load(st, obj)
            if not (fid or "").partition("::operator()")[1]:
                return [(st, fv)]       # conversion to a function pointer
            return self.call_value(n, st, fv, args, fr, call)
        m = self.model(n, name, st, obj, args, fr, call)
        if m is not None:
            for s, v in m:
                self.rule.post_call(self, s, call, v)
            return m
        fn = self.p.functions.get(fid)
        if fn is not None and not n.get("virt") and self.can_inline(fn, fr):
            r = self.inline(fn, st, obj, args, fr, n)
            for s, v in r:
                self.rule.post_call(self, s, call, v)
            return r
        if n.get("virt"):
            tg = self.rule.virtual(self, st, call)
            if tg is None:
                # devirtualise when there is exactly one implementation
                impl = [f for f in [fid] + sorted(self.all_overriders(fid)) if f in self.p.functions]
                if len(impl) == 1 and fid not in self.p.functions:
                    tg = impl
            if tg:
                out = []
                for t in tg:
                    f2 = self.p.functions.get(t)
                    if f2 is not None and self.can_inline(f2, fr):
                        out.extend(self.inline(f2, st.copy(), obj, args, fr, dict(n, _id=(n.get("_id"), t))))
                    else:
                        r = self.opaque(n, name, st.copy(), obj, args, fr, call)
                        for s, v in r:
                            self.rule.post_call(self, s, call, v)
                        out.extend(r)
                return out
        r = self.opaque(n, name, st, obj, args, fr, call)
        for s, v in r:
            self.rule.post_call(self, s, call, v)
        return r

    def all_overriders(self, fid):
        res, stack = set(), [fid]
        while stack:
            for o in self.p.overriders.get(stack.pop(), ()):
                if o not in res:
                    res.add(o)
                    stack.append(o)
        return res

    def call_value(self, n, st, fv, args, fr, call):
        if fv[0] == "ld" and fv[1][0] == "&fn":
            fv = fv[1]
        if fv[0] == "&fn":
            fn = self.p.functions.get(fv[1])
            if fn and self.can_inline(fn, fr):
                return self.inline(fn, st, None, args, fr, n)
            if fn is None and n.get("f") is None:
                # a library function passed as a value
                n2 = {k: v for k, v in n.items() if k != "callee"}
                n2.update(n=fv[1], f=fv[1], ext=True)
                return self.do_call(n2, norm_name(fv[1]), st, None, None, args, fr)
        if fv[0] == "bound":
            fn = self.p.functions.get(fv[1])
            if fn and self.can_inline(fn, fr):
                return self.inline(fn, st, fv[2], args, fr, n)
        if fv[0] == "lam":
            r = self.rule.pre_lambda(self, st, fv, args, fr, n)
            if r is not None: return r
            r = self.call_lambda(fv, st, args, fr, n)
            if r is not None:
                return r
        if fv[0] == "memptr":
            if fv[2][0] in ("&fn", "bound"):
                fn = self.p.functions.get(fv[2][1])
                if fn and self.can_inline(fn, fr):
                    return self.inline(fn, st, fv[1], args, fr, n)
        self.havoc_all(st, n, fr)
        self.clobber_args(n, st, args, fr)
        return [(st, self.fresh("ind", n, fr))]

    def call_lambda(self, lam, st, args, fr, n):
        _, fid, caps, this, octx = lam
        fn = self.p.functions.get(fid)
        if fn is None:
            # generic lambda: pick the instantiation by arity
            base = fid.split("<")[0]
            c2 = [f for f in self.p.functions if f.startswith(base)]
            fn = self.p.functions.get(c2[0]) if len(c2) == 1 else None
            if fn is None:
                return None
        if not self.can_inline(fn, fr):
            return None
        self.visited_fns.add(fn["id"])
        ctx = fr.ctx + (n.get("_id", 0), "lam")
        nf = Frame(fn, ctx, this, {}, fr.depth + 1, fr.stack + (fid,), fr, n)
        for var, kind, v in caps:
            if kind == "ref":
                nf.caps[var] = v
            else:
                a = ("&v", ctx, var)
                st.store[a] = v
                nf.caps[var] = a
        # reference variables of the enclosing function used without capture entry
        return self.run_body(fn, st, nf, args)

    def clobber_args(self, n, st, args, fr, obj=None):
        pts = n.get("pt") or []
        nm = n.get("n") or ""
        if n.get("ext") and nm.startswith(("std::", "absl::")) and nm.rpartition("::")[2].split("<")[0] in FORWARDING:
            return    # perfect forwarding to a constructor
        for i, a in enumerate(args):
            if i < len(pts) and pts[i] >= 0:
                t = self.typ(fr, pts[i])
                if t["k"] in ("ref", "ptr", "rref"):
                    to = self.typ(fr, t["to"])
                    if not to.get("const") and t["k"] != "rref" and to["k"] not in ("func",):
                        if a[0] not in ("c", "str"):
                            self.havoc_addr(st, a, self.fresh("out%d" % i, n, fr))

    def opaque(self, n, name, st, obj, args, fr, call):
        fid = n.get("f")
        fn = self.p.functions.get(fid)
        short = name.split("::")[-1] if name else ""
        lams = []
        for a, nd in zip(args, n.get("a", [])):
            v = a
            if nd.get("lv") or nd.get("tmp"):
                v = self.load(st, a)
            if v[0] == "lam":
                lams.append(v)
        # value of inputs
        argn = n.get("a", [])
        invals = tuple(self.rval(st, a, nd) for a, nd in zip(args, argn))
        objval = self.load(st, obj) if obj is not None and n.get("ext") else obj
        states = [st]
        if lams:
            for lam in lams:
                nxt = []
                for s in states:
                    nxt.extend(self.repeat_lambda(lam, s, fr, n))
                states = nxt
        out = []
        for st in states:
            if n.get("ext"):
                pure = True
                pts = n.get("pt") or []
                for i, a in enumerate(args):
                    if i < len(pts) and pts[i] >= 0:
                        t = self.typ(fr, pts[i])
                        if t["k"] in ("ref", "ptr") and not self.typ(fr, t["to"]).get("const") and self.typ(fr, t["to"])["k"] != "func":
                            pure = False
                mut = obj is not None and not n.get("cm") and short not in NONMUT
                if short.startswith("operator[]") and call.rq in ("std::vector", "std::array", "std::deque") + SV:
                    mut = False
                if mut:
                    pure = False
                if pure and name and not lams and not name.startswith(("absl::Now", "fopen", "getenv", "popen")):
                    v = ("call", name, ((objval,) if obj is not None else ()) + invals)
                else:
                    v = self.fresh(name or "call", n, fr)
                self.clobber_args(n, st, args, fr)
                if mut:
                    self.havoc_addr(st, obj, self.fresh("obj", n, fr))
                if n.get("lv") and short in ("operator<<", "operator=", "append", "operator+=") :
                    v = obj if obj is not None else args[0]
            else:
                mods, star = self.mods(fid)
                if n.get("virt"):
                    for o in self.all_overriders(fid):
                        m2, s2 = self.mods(o)
                        mods, star = mods | m2, star or s2
                if star:
                    self.havoc_all(st, n, fr)
                elif mods:
                    self.havoc_fields(st, mods, n, fr)
                self.clobber_args(n, st, args, fr)
                if obj is not None and not n.get("cm") and obj[0] in ("&v", "&t", "new"):
                    # a method of a local object may change all of it
                    if fn is None or self.mods(fid)[0]:
                        self.havoc_addr(st, obj, self.fresh("obj", n, fr))
                v = self.fresh(name or "call", n, fr)
            out.append((st, v))
        return out

    def repeat_lambda(self, lam, st, fr, n):
        """an unknown callee may call the lambda any number of times"""
        fn = self.p.functions.get(lam[1])
        if fn is None:
            return [st]
        def step(head):
            args = []
            for i, pdef in enumerate(fn["params"]):
                args.append(self.fresh("lamarg%d" % i, n, fr))
            r = self.call_lambda(lam, head, args, fr, n)
            if r is None:
                return [head], []
            return [s for s, _ in r], []
        heads, _ = self.fixpoint([st], step, (n.get("_id"), "lam", fr.ctx), n, fr)
        return heads

    # ------------------------------------------------------------ library models
    def model(self, n, name, st, obj, args, fr, call):
        if name is None:
            return None
        cls, _, short = name.rpartition("::")
        argn = n.get("a", [])
        if name in ("std::move", "std::forward", "std::as_const", "std::addressof", "std::launder", "std::ref", "std::cref"):
            return [(st, args[0])]
        if name == "std::__addressof":
            return [(st, args[0])]
        if name in ("std::max", "std::min") and len(args) == 2:
            vs = tuple(self.rval(st, a, d) for a, d in zip(args, argn))
            v = ("call", name, vs)
            if all(x[0] == "c" for x in vs):
                v = c((max if name == "std::max" else min)(x[1] for x in vs))
            if n.get("lv"):
                a = self.created(("&t", (n.get("_id", 0), fr.ctx)))
                self.write(st, a, v)
                return [(st, a)]
            return [(st, v)]
        if name == "std::exchange" and len(args) == 2 and argn[0].get("lv"):
            old = self.load(st, args[0])
            self.do_store(st, args[0], self.rval(st, args[1], argn[1]), n, fr)
            return [(st, old)]
        if name == "std::__builtin_expect" or name == "__builtin_expect":
            return [(st, args[0])]
        if cls in SV and obj is not None:
            r = self.sv_model(n, short, st, obj, args, fr)
            if r is not None:
                return r
        if cls == "std::optional" and obj is not None:
            v = self.load(st, obj)
            while v[0] == "upd" and all(x[0] == "$val" for x in v[2]): v = v[1]   # a changed content does not change the presence
            if short in ("has_value", "operator bool"):
                t = ("has", v)
                k = self.has_known(v)
                return [(st, t if k is None else c(1 if k else 0))]
            if short in ("operator*", "operator->", "value"):
                self.rule.on_optional(self, st, v, n, fr)
                a = ("&f", obj, "$val")
                if a not in st.store:
                    st.store[a] = v[2][0] if v[0] == "ctor" and v[2] else ("val", self.strip_val(v))
                return [(st, a)]
            if short == "operator=":
                x = self.rval(st, args[0], argn[0])
                t = self.typ(fr, argn[0].get("t"))
                if t.get("q") != "std::optional" and norm_name(t.get("q") or "") != "std::optional":
                    x = ("ctor", "std::optional", (x,) if x != ("nullopt",) else ())
                self.do_store(st, obj, x, n, fr)
                return [(st, obj)]
            if short == "reset":
                self.do_store(st, obj, ("ctor", "std::optional", ()), n, fr)
                return [(st, C0)]
            if short == "value_or":
                return [(st, ("call", name, (v, self.rval(st, args[0], argn[0]))))]
            if short == "emplace":
                self.do_store(st, obj, ("ctor", "std::optional", (self.fresh("emplaced", n, fr),)), n, fr)
                return [(st, ("&f", obj, "$val"))]
        if cls in SMART and obj is not None:
            v = self.load(st, obj)
            def get(v):
                if v[0] == "ctor":
                    return v[2][0] if v[2] else C0
                return ("get", v)
            if short == "get":
                return [(st, get(v))]
            if short == "operator bool":
                return [(st, neg(eq0(get(v))))]
            if short in ("operator*", "operator->", "operator[]"):
                g = get(v)
                if short == "operator[]":
                    g = lin.add(g, args[0])
                self.rule.on_deref(self, st, g, n, fr)
                return [(st, g)]
            if short == "release":
                self.write(st, obj, ("ctor", cls, ()))
                return [(st, get(v))]
            if short == "reset":
                self.do_store(st, obj, ("ctor", cls, tuple(args[:1])), n, fr)
                return [(st, C0)]
            if short == "operator=":
                x = self.rval(st, args[0], argn[0])
                if x[0] == "c":
                    x = ("ctor", cls, ())
                elif argn[0].get("lv"):
                    self.write(st, args[0], ("ctor", cls, ()))
                self.do_store(st, obj, x, n, fr)
                return [(st, obj)]
        if name in ("std::make_unique", "std::make_shared"):
            a = self.fresh("mk", n, fr, "new")
            return [(st, ("ctor", "std::unique_ptr", (a,)))]
        if short in ("operator==", "operator!=") and (n.get("ext") or not self.p.functions.get(n.get("f"))):
            if obj is not None:
                x, y = self.load(st, obj), self.rval(st, args[0], argn[0])
            elif len(args) == 2:
                x, y = (self.rval(st, a, d) for a, d in zip(args, argn))
            else:
                return None
            for p_, q_ in ((x, y), (y, x)):
                if q_ == C0 and p_[0] in ("ctor", "ld", "sym", "fld", "phi", "call", "upd"):
                    tt = self.typ(fr, (argn[0] if p_ is x else argn[-1]).get("t")) if argn else {}
                    if norm_name(tt.get("q") or "") in SMART:
                        g = p_[2][0] if p_[0] == "ctor" and p_[2] else (C0 if p_[0] == "ctor" else ("get", p_))
                        t = eq0(g)
                        return [(st, t if short == "operator==" else neg(t))]
            nt = [self.typ(fr, d.get("t"))["k"] for d in argn] if obj is None else []
            # comparing a string with a literal / empty
            for p_, q_ in ((x, y), (y, x)):
                if q_ == ("str", ""):
                    t = eq0(size_of(p_))
                    return [(st, t if short == "operator==" else neg(t))]
            t = self.eqterm(x, y, numeric=False)
            return [(st, t if short == "operator==" else neg(t))]
        if short in ("size", "length") and obj is not None and n.get("ext") and not args:
            v = size_of(self.load(st, obj))
            if v[0] not in ("c", "lin"):
                self.nonneg.add(v)
            return [(st, v)]
        if short == "empty" and obj is not None and n.get("ext") and not args:
            return [(st, eq0(size_of(self.load(st, obj))))]
        if short == "operator=" and obj is not None and n.get("ext") and len(args) == 1:
            v = self.rval(st, args[0], argn[0])
            self.do_store(st, obj, v, n, fr)
            return [(st, obj)]
        if short == "operator=" and obj is not None and len(args) == 1:
            f = self.p.functions.get(n.get("f"))
            if f is None or f.get("implicit"):
                v = self.rval(st, args[0], argn[0])
                self.do_store(st, obj, v, n, fr)
                return [(st, obj)]
        if short in ("operator*", "operator->") and obj is not None and n.get("ext") and not args:
            it = self.load(st, obj)
            return [(st, ("deref", it))]
        if short in ("operator++", "operator--") and obj is not None and n.get("ext"):
            old = self.load(st, obj)
            new = ("next" if short == "operator++" else "prev", old)
            self.do_store(st, obj, new, n, fr)
            return [(st, obj if not args else old)]
        return None

    @staticmethod
    def strip_val(v):
        return v

    def sv_model(self, n, short, st, obj, args, fr):
        v = self.load(st, obj)
        if short in ("size", "length"):
            r = size_of(v)
            return [(st, r)]
        if short == "empty":
            return [(st, eq0(size_of(v)))]
        if short in ("data", "begin", "cbegin", "c_str"):
            return [(st, data_of(v))]
        if short in ("end", "cend"):
            return [(st, lin.add(data_of(v), size_of(v)))]
        if short in ("operator[]", "at"):
            self.rule.on_index(self, st, v, args[0], n, fr)
            return [(st, lin.add(data_of(v), args[0]))]
        if short == "front":
            self.rule.on_index(self, st, v, C0, n, fr)
            return [(st, data_of(v))]
        if short == "back":
            self.rule.on_index(self, st, v, lin.add(size_of(v), c(-1)), n, fr)
            return [(st, lin.add(lin.add(data_of(v), size_of(v)), c(-1)))]
        if short == "substr":
            pos = args[0] if args else C0
            cnt = args[1] if len(args) > 1 else NPOS
            self.rule.on_substr(self, st, v, pos, n, fr)
            return [(st, ("substr", v, pos, cnt))]
        if short == "remove_prefix":
            self.rule.on_substr(self, st, v, args[0], n, fr)
            self.write(st, obj, ("sv", lin.add(data_of(v), args[0]), lin.add(size_of(v), args[0], -1)))
            return [(st, C0)]
        if short == "remove_suffix":
            self.rule.on_substr(self, st, v, args[0], n, fr)
            self.write(st, obj, ("sv", data_of(v), lin.add(size_of(v), args[0], -1)))
            return [(st, C0)]
        if short.startswith("operator basic_string_view"):
            return [(st, v)]
        if short == "operator=":
            x = self.rval(st, args[0], n["a"][0])
            self.do_store(st, obj, x, n, fr)
            return [(st, obj)]
        return None

    # ------------------------------------------------------------ statements
    def exec(self, n, st, fr):
        if n is None:
            return [("n", st, None)]
        m = getattr(self, "s_" + n["k"], None)
        if m is None:
            raise AnalysisError("unsupported statement %s at %s" % (n["k"], fr.where(n)))
        return m(n, st, fr)

    def s_null(self, n, st, fr): return [("n", st, None)]
    def s_break(self, n, st, fr):
        self.rule.on_break(self, st, n, fr)
        return [("b", st, None)]

    def s_continue(self, n, st, fr): return [("c", st, None)]

    def s_expr(self, n, st, fr):
        out = []
        for s, v in self.eval(n["e"], st, fr):
            out.append(("n", s, None))
        return out

    def s_ret(self, n, st, fr):
        if not n.get("e"):
            self.rule.on_ret(self, st, None, fr)
            return [("r", st, C0)]
        out = []
        rt = self.typ(fr, fr.fn["ret"])
        e = n["e"]
        # branch on boolean results so that callers see constants
        if rt["k"] == "bool" and e["k"] in ("bin", "un", "call", "ld", "cast") and not e.get("lv"):
            for s, t, truth in self.cond(e, st, fr):
                v = c(1 if truth else 0)
                self.rule.on_ret(self, s, v, fr)
                out.append(("r", s, v))
            return out
        for s, v in self.eval(e, st, fr):
            if rt["k"] not in ("ref", "rref"):
                v = self.rval(s, v, e)
            self.rule.on_ret(self, s, v, fr)
            out.append(("r", s, v))
        return out

    def declare(self, v, st, fr):
        """variable declaration -> [st]"""
        a = ("&v", fr.ctx, v["id"])
        t = self.typ(fr, v["t"])
        if v.get("static"):
            # initialised once, at an unknown earlier time
            fr.caps[v["id"]] = ("&g", "static:" + fr.fn["id"] + ":" + v["id"])
            self.statics[(fr.fn.get("file"), v["id"])] = fr.caps[v["id"]]
            if v.get("init"):
                outs = []
                for s in self.construct(v["init"], st.copy(), ("&g", "static:" + fr.fn["id"] + ":" + v["id"]), fr):
                    outs.append(s)
                return outs or [st]
            return [st]
        if not v.get("init"):
            st.store.pop(a, None)
            for x in [x for x in st.store if self.under(x, a)]:
                del st.store[x]
            st.store[a] = self.fresh("uninit", v.get("l", 0), fr)
            return [st]
        if t["k"] in ("ref", "rref"):
            out = []
            for s, b in self.eval(v["init"], st, fr):
                if not (v["init"].get("lv") or v["init"].get("tmp")):
                    s, b = self.materialize(v["init"], s, b, fr)
                s.store[a] = b
                out.append(s)
            return out
        for x in [x for x in st.store if x != a and self.under(x, a)]:
            del st.store[x]
        return self.construct(v["init"], st, a, fr)

    def s_decl(self, n, st, fr):
        states = [st]
        for v in n["vars"]:
            nxt = []
            for s in states:
                nxt.extend(self.declare(v, s, fr))
            states = nxt
        return [("n", s, None) for s in states]

    def leave_scope(self, vars_, outs, n, fr):
        if not vars_:
            return outs
        res = []
        for kind, s, v in outs:
            states = [s]
            for vd in reversed(vars_):
                a = ("&v", fr.ctx, vd["id"])
                if vd.get("dtor") and not vd.get("static"):
                    nxt = []
                    for s in states:
                        # a rule may interpret the destructor: it then returns the resulting states
                        r = self.rule.on_dtor(self, s, a, self.typ(fr, vd["t"]), n, fr)
                        nxt.extend(r if r is not None else [s])
                    states = nxt
                for s in states:
                    for x in [x for x in s.store if x == a or self.under(x, a)]:
                        del s.store[x]
            res.extend((kind, s, v) for s in states)
        return res

    def s_block(self, n, st, fr):
        return self.exec_list(n["b"], st, fr, n)

    def exec_list(self, stmts, st, fr, n):
        states = [st]
        done = []
        vars_ = []
        for x in stmts:
            if x is None:
                continue
            if x["k"] == "decl":
                vars_.extend(x["vars"])
            nxt = []
            for s in states:
                for kind, s2, v in self.exec(x, s, fr):
                    if self.dead and self.dead(self, s2):
                        continue
                    if kind == "n":
                        nxt.append(s2)
                    else:
                        done.append((kind, s2, v))
            states = self.limit(nxt, x, fr)
            if not states:
                break
        outs = done + [("n", s, None) for s in states]
        return self.leave_scope(vars_, outs, n, fr)

    def limit(self, states, n, fr):
        if len(states) <= 1:
            return states
        # drop exact duplicates
        if len(states) > self.K:
            groups = {}
            for s in states:
                groups.setdefault((s.key(), self.boolkey(s, fr)), []).append(s)
            if len(groups) > self.K:
                groups = {}
                for s in states:
                    groups.setdefault(s.key(), []).append(s)
            return [self.join_states(ss, (n.get("_id", 0), fr.ctx, k)) for k, ss in groups.items()]
        return states

    def boolkey(self, s, fr):
        """constants held by local variables of the active frames"""
        r = []
        for a, v in s.store.items():
            if a[0] == "&v" and v[0] == "c" and v[1] in (0, 1):
                r.append((a, v))
        return frozenset(r)

    def s_if(self, n, st, fr):
        vars_ = []
        states = [st]
        if n.get("init"):
            if n["init"]["k"] == "decl":
                vars_.extend(n["init"]["vars"])
            states = [s for k, s, v in self.exec(n["init"], st, fr) if k == "n"]
        if n.get("cv"):
            vars_.append(n["cv"])
            nxt = []
            for s in states:
                nxt.extend(self.declare(n["cv"], s, fr))
            states = nxt
        outs = []
        for s in states:
            for s2, t, truth in self.cond(n["c"], s, fr):
                if truth:
                    outs.extend(self.exec(n["t"], s2, fr))
                elif n.get("f"):
                    outs.extend(self.exec(n["f"], s2, fr))
                else:
                    outs.append(("n", s2, None))
        return self.leave_scope(vars_, outs, n, fr)

    def s_switch(self, n, st, fr):
        vars_ = []
        states = [st]
        if n.get("init"):
            if n["init"]["k"] == "decl":
                vars_.extend(n["init"]["vars"])
            states = [s for k, s, v in self.exec(n["init"], st, fr) if k == "n"]
        if n.get("cv"):
            vars_.append(n["cv"])
            nxt = []
            for s in states:
                nxt.extend(self.declare(n["cv"], s, fr))
            states = nxt
        body = n["b"]["b"] if n["b"]["k"] == "block" else [n["b"]]
        # flatten labels: list of (labels, stmt)
        items = []
        for x in body:
            labels = []
            while x is not None and x["k"] in ("case", "default"):
                labels.append(x)
                x = x["s"]
            items.append((labels, x))
        cases = [(l, i) for i, (ls, _) in enumerate(items) for l in ls]
        outs = []
        for s in states:
            for s1, v in self.eval(n["c"], s, fr):
                rest = s1
                default_i = None
                dead = False
                for l, i in cases:
                    if l["k"] == "default":
                        default_i = i
                        continue
                    if dead:
                        continue
                    (_, cv), = self.eval(l["v"], rest, fr)
                    if l.get("hi"):
                        (_, hv), = self.eval(l["hi"], rest, fr)
                        t = None
                        s2 = rest.copy()
                        ok = self.assume(s2, self.compare(">=", v, cv), True) and self.assume(s2, self.compare("<=", v, hv), True)
                    else:
                        t = self.eqterm(v, cv)
                        s2 = rest.copy()
                        ok = self.assume(s2, t, True)
                    if ok:
                        s2.trace = (s2.trace, (fr.fn["file"], l.get("l"), True))
                        if t is not None:
                            self.rule.on_branch(self, s2, t, True, l, fr)
                        outs.extend(self.exec_list([x for _, x in items[i:]], s2, fr, n))
                    if t is not None and not self.assume(rest, t, False):
                        dead = True
                if not dead:
                    if default_i is not None:
                        outs.extend(self.exec_list([x for _, x in items[default_i:]], rest, fr, n))
                    else:
                        outs.append(("n", rest, None))
        outs = [("n" if k == "b" else k, s, v) for k, s, v in outs]
        return self.leave_scope(vars_, outs, n, fr)

    def s_try(self, n, st, fr):
        outs = self.exec(n["b"], st.copy(), fr)
        for h in n["h"]:
            s = st.copy()
            self.havoc_all(s, n, fr)
            outs.extend(self.exec(h, s, fr))
        return outs

    # ------------------------------------------------------------ loops
    def s_while(self, n, st, fr):
        return self.loop(n, st, fr, None, n["c"], None, n["b"], n.get("cv"))

    def s_do(self, n, st, fr):
        return self.loop(n, st, fr, None, n["c"], None, n["b"], None, do=True)

    def s_for(self, n, st, fr):
        states = [st]
        vars_ = []
        if n.get("init"):
            if n["init"]["k"] == "decl":
                vars_.extend(n["init"]["vars"])
            states = [s for k, s, v in self.exec(n["init"], st, fr) if k == "n"]
        outs = []
        for s in states:
            outs.extend(self.loop(n, s, fr, None, n.get("c"), n.get("inc"), n["b"], n.get("cv")))
        return self.leave_scope(vars_, outs, n, fr)

    def s_foreach(self, n, st, fr):
        vars_ = []
        states = [st]
        if n.get("init"):
            if n["init"]["k"] == "decl":
                vars_.extend(n["init"]["vars"])
            states = [s for k, s, v in self.exec(n["init"], st, fr) if k == "n"]
        for key in ("range", "begin", "end"):
            if n.get(key):
                vars_.append(n[key])
                nxt = []
                for s in states:
                    nxt.extend(self.declare(n[key], s, fr))
                states = nxt
        outs = []
        for s in states:
            els = self.listed(n, s, fr)
            if els is not None: outs.extend(self.unroll(n, s, fr, els))
            else: outs.extend(self.loop(n, s, fr, n["var"], n["cond"], n["inc"], n["b"], None))
        return self.leave_scope(vars_, outs, n, fr)

    def listed(self, n, st, fr):
        """the elements of a list written down in the loop header"""
        rv, iv = n.get("range"), n.get("var")
        if not rv or not iv: return None
        rt = self.typ(fr, rv["t"])
        if rt["k"] in ("ref", "rref"): rt = fr.types[rt["to"]]
        if not (rt.get("rec") or "").startswith("std::initializer_list"): return None
        v = self.load(st, ("&v", fr.ctx, rv["id"]))
        if v[0] in ("&v", "&t", "&f", "&g", "&i"): v = self.load(st, v)
        if v[0] != "arr" or len(v[1]) > 12: return None
        it = self.typ(fr, iv["t"])
        if it["k"] not in ("ref", "rref", "ptr", "int", "enum", "bool"): return None
        return v[1]

    def unroll(self, n, st, fr, els):
        it = self.typ(fr, n["var"]["t"])
        cur, exits = [st], []
        for i, x in enumerate(els):
            nxt = []
            for s in self.limit(cur, n, fr):
                a = ("&v", fr.ctx, n["var"]["id"])
                for y in [y for y in s.store if y != a and self.under(y, a)]: del s.store[y]
                if it["k"] in ("ref", "rref"):
                    t = ("&t", fr.ctx, ("el", n.get("_id"), i))
                    s.store[t] = x
                    s.store[a] = t
                else: s.store[a] = x
                for kind, s2, v in self.leave_scope([n["var"]], self.exec(n["b"], s, fr), n, fr):
                    if kind in ("n", "c"): nxt.append(s2)
                    elif kind == "b": exits.append(("n", s2, v))
                    else: exits.append((kind, s2, v))
            cur = nxt
        return exits + [("n", s, None) for s in cur]

    def loop(self, n, st, fr, itervar, cond, inc, body, cv, do=False):
        def after_body(outs):
            back, exits = [], []
            for kind, s, v in outs:
                if kind in ("n", "c"):
                    states = [s]
                    if inc is not None:
                        states = [s2 for s2, _ in self.eval(inc, s, fr)]
                    if do:
                        for s2 in states:
                            for s3, t, truth in self.cond(cond, s2, fr):
                                if truth:
                                    back.append(s3)
                                else:
                                    exits.append(("n", s3, None))
                    else:
                        back.extend(states)
                elif kind == "b":
                    exits.append(("n", s, v))
                else:
                    exits.append((kind, s, v))
            return back, exits

        def step(head):
            exits, ins = [], []
            states = [head]
            if cv:
                nxt = []
                for s in states:
                    nxt.extend(self.declare(cv, s, fr))
                states = nxt
            for s in states:
                if cond is None or do:
                    ins.append(s)
                else:
                    for s2, t, truth in self.cond(cond, s, fr):
                        (ins if truth else exits).append(s2)
            exits = [("n", s, None) for s in exits]
            if cv:
                exits = self.leave_scope([cv], exits, n, fr)
            back = []
            ins = self.limit(ins, n, fr)
            for s in ins:
                self.rule.on_loop_body(self, s, n, fr)
                states = [s]
                vs = []
                if itervar:
                    states = self.declare(itervar, s, fr)
                    vs.append(itervar)
                if cv:
                    vs.append(cv)
                for s2 in states:
                    outs = self.exec(body, s2, fr)
                    outs = self.leave_scope(vs, outs, n, fr)
                    b, e = after_body(outs)
                    back.extend(b)
                    exits.extend(e)
            return back, exits

        heads, exits = self.fixpoint([st], step, (n.get("_id", 0), fr.ctx), n, fr)
        groups = {}
        rest = []
        for kind, s, v in exits:
            rest.append((kind, s, v))
        normal = self.limit([s for k, s, v in rest if k == "n"], n, fr)
        return [("n", s, None) for s in normal] + [x for x in rest if x[0] != "n"]

    def fixpoint(self, entries, step, loopid, n, fr):
        """-> (head states, exit outcomes)"""
        heads = {}
        order = []
        exits = {}
        pend = []
        self.rule.on_loop_entry(self, entries, n, fr)
        for s in entries:
            k = (s.key(), self.boolkey(s, fr))
            if k in heads:
                heads[k] = self.join_states([heads[k], s], (loopid, "entry", k))
            else:
                heads[k] = s
                order.append(k)
            if k not in pend:
                pend.append(k)
        rounds = 0
        while pend:
            rounds += 1
            if rounds > 80:
                raise AnalysisError("no fixpoint for loop at %s" % fr.where(n))
            k = pend.pop(0)
            log = set()
            self.logs.append(log)
            try:
                head = heads[k].copy()
                self.rule.on_loop_head(self, head, n, fr)
                back, ex = step(head)
            finally:
                self.logs.pop()
            exits[k] = ex
            self.rule.on_loop_round(self, heads[k], back, n, fr)
            for b in back:
                self.rule.on_loop_back(self, heads[k], b, n, fr)
            for b in back:
                kb = (b.key(), self.boolkey(b, fr)) + (("again",) if getattr(self.rule, "peel", False) else ())
                if kb not in heads:
                    # a new automaton state: start from what entry knows, widened
                    if len(heads) > 24:
                        kb2 = next((x for x in order if x[0] == kb[0]), None)
                        if kb2 is not None:
                            kb = kb2
                    if kb not in heads:
                        h = self.seed(heads[k], b, log, (loopid, kb), n)
                        heads[kb] = h
                        order.append(kb)
                        pend.append(kb)
                        continue
                if self.widen(heads[kb], b, log, (loopid, kb)):
                    if kb not in pend:
                        pend.append(kb)
        outs = []
        for k in order:
            outs.extend(exits.get(k, []))
        return [heads[k] for k in order], outs

    def seed(self, head, b, log, lid, n):
        """first state of a new head: b with loop-internal symbols generalised"""
        h = b.copy()
        self.generalise(h, log, lid)
        return h

    def generalise(self, h, log, lid):
        m = {}
        changed = []
        for a in list(h.store):
            if toks(a) & log:
                del h.store[a]
                continue
            v = h.store[a]
            if toks(v) & log:
                phi = self.created(("phi", lid, a))
                m[v] = phi
                self.phi_src.setdefault(phi, set()).add(v)
                h.store[a] = phi
                changed.append((phi, v))
        # a loop-internal number that is (up to a known difference) the new value of some location
        # is expressed by that location from here on
        ats = {}
        for phi, v in changed:
            if v[0] in ("c", "str", "ctor", "upd", "agg", "arr", "lam", "flt"):
                continue
            cst, d = lin.parts(v)
            mine = [x for x in d if toks(x) & log]
            if len(mine) == 1 and d[mine[0]] == 1 and mine[0] not in ats:
                x = mine[0]
                ats[x] = lin.add(phi, lin.mk(cst, {y: k for y, k in d.items() if y != x}), -1)
        eqs = []
        for phi, v in changed:
            if v[0] in ("lin",) or v in ats:
                e = lin.add(phi, subst(v, ats, {}), -1)
                if e[0] != "c" and not (toks(e) & log - set(x for x, _ in changed)):
                    eqs += [e, lin.scale(e, -1)]
        both = dict(ats)
        for v, phi in m.items():
            both.setdefault(v, phi)
        h.facts = {f: x for f, x in ((self.try_subst(f, both, log), x) for f, x in h.facts.items()) if f is not None}
        h.lin = [l for l in (self.try_subst(l, both, log) for l in h.lin) if l is not None] + eqs
        for e in list(h.epochs):
            if toks(h.epochs[e]) & log:
                h.epochs[e] = ("ep", (lid, "loop"))

    def try_subst(self, t, m, log):
        if toks(t) & log:
            t = subst(t, m, {})
            if toks(t) & log:
                return None
        if t[0] == "c":
            return None
        return t

    def widen(self, H, b, log, lid):
        """H := H join b; True if H changed"""
        changed = False
        # epochs
        for e in set(H.epochs) | set(b.epochs):
            x, y = H.epochs.get(e), b.epochs.get(e)
            if x != y:
                tok = ("ep", (lid, "loop"))
                if x != tok:
                    H.epochs[e] = tok
                    self.created(tok)
                    changed = True
        mb, mo = {}, {}
        newphi = []
        addrs = set(H.store) | set(a for a in b.store)
        for a in addrs:
            if toks(a) & log:
                continue
            inH, inb = a in H.store, a in b.store
            phi = ("phi", lid, a)
            if inH:
                vb = b.store[a] if inb else self.plain(b, a)
                vh = H.store[a]
                if vh == phi:
                    if vb != phi:
                        mb[phi] = vb
                        self.phi_src.setdefault(phi, set()).add(vb)
                elif vh != vb:
                    H.store[a] = phi
                    self.created(phi)
                    newphi.append((phi, vh, vb))
                    self.phi_src.setdefault(phi, set()).update((vh, vb))
                    mb[phi] = vb
                    changed = True
            else:
                vh = self.plain(H, a)
                vb = b.store[a]
                if vb != vh or (toks(vb) & log):
                    H.store[a] = phi
                    self.created(phi)
                    newphi.append((phi, vh, vb))
                    self.phi_src.setdefault(phi, set()).update((vh, vb))
                    mb[phi] = vb
                    changed = True
        # candidate facts for the new loop symbols (they hold on entry)
        cand_lin, cand_facts = [], {}
        for phi, vh, vb in newphi:
            if vh in self.nonneg:
                self.nonneg.add(phi)
            if vh in self.boolv or vb in self.boolv:
                self.boolv.add(phi)
            if vh[0] in ("str", "ctor", "upd", "agg", "arr", "lam", "flt"):
                pass
            else:
                cand_lin.append(lin.add(phi, vh, -1))
                cand_lin.append(lin.add(vh, phi, -1))
        ren = {vh: phi for phi, vh, vb in newphi if vh[0] not in ("c", "lin", "str")}
        for phi, vh, vb in newphi:
            if vh[0] == "lin":
                # old value is an atom plus a known difference: what held of the atom is a candidate too
                cst, d = lin.parts(vh)
                for x, k in d.items():
                    if k == 1 and x not in ren:
                        ren[x] = lin.add(phi, lin.mk(cst, {y: z for y, z in d.items() if y != x}), -1)
                        break
        # what the other side knows of its new value, where the old value satisfies it too
        renb, old = {}, {}
        for phi, vh, vb in newphi:
            if vb[0] in ("c", "str", "ctor", "upd", "agg", "arr", "lam", "flt") or vh[0] in ("str", "ctor", "upd", "agg", "arr", "lam", "flt"):
                continue
            cst, d = lin.parts(vb)
            for x, k in d.items():
                if k == 1 and x not in renb:
                    renb[x] = lin.add(phi, lin.mk(cst, {y: z for y, z in d.items() if y != x}), -1)
                    old[phi] = vh
                    break
        if renb:
            for l in b.lin:
                l2 = subst(l, renb, {})
                if l2 == l or l2[0] == "c" or toks(l2) & log:
                    continue
                l3 = subst(l2, old, {})
                if (l3[1] >= 0) if l3[0] == "c" else self.entails(H, l3):
                    cand_lin.append(l2)
        if ren:
            for l in H.lin:
                l2 = subst(l, ren, {})
                if l2 != l and l2[0] != "c":
                    cand_lin.append(l2)
            for f, v in H.facts.items():
                f2 = subst(f, ren, {})
                if f2 != f and f2[0] != "c":
                    cand_facts[f2] = v
            # implicit facts of the old values: non-null etc.
        # locations that keep their distance
        nums = [x for x in newphi if x[1][0] not in ("str", "ctor", "upd", "agg", "arr", "lam", "flt", "&v", "&t", "&f", "new", "&i")]
        if len(nums) <= 12:
            for i in range(len(nums)):
                for j in range(i):
                    d1 = lin.add(nums[i][1], nums[j][1], -1)
                    if d1 == lin.add(nums[i][2], nums[j][2], -1) and not toks(d1) & log:
                        e = lin.add(lin.add(nums[i][0], nums[j][0], -1), d1, -1)
                        cand_lin += [e, lin.scale(e, -1)]
        for phi, vh, vb in newphi:
            if vh[0] in ("&v", "&t", "&f", "new", "&i", "str"):
                cand_facts[("eq0", phi)] = False
            k = self.has_known(vh)
            if k is not None:
                cand_facts[("has", phi)] = k
        have = set(H.lin)
        for l in cand_lin:
            if l not in have:
                H.lin.append(l); have.add(l)
        for f, v in cand_facts.items():
            H.facts.setdefault(f, v)
        # keep only what b confirms
        memo = {}
        keep = []
        for l in H.lin:
            l2 = subst(l, mb, memo)
            if l2[0] == "c":
                ok = l2[1] >= 0
            else:
                ok = self.entails(b, l2)
            if ok:
                keep.append(l)
            else:
                changed = True
        H.lin = keep
        kf = {}
        for f, v in H.facts.items():
            f2 = subst(f, mb, memo)
            if self.truth(b, f2) is v:
                kf[f] = v
            else:
                changed = True
        H.facts = kf
        return changed

    def plain(self, st, a):
        """value at a when not explicitly stored"""
        if a[0] == "&f":
            w = self.lookup_whole(st, a[1])
            if w is not None:
                return fld(w, a[2])
        return ("ld", a, self.epoch(st, a))

    # ------------------------------------------------------------ merges
    def join_states(self, ss, jid):
        if len(ss) == 1:
            return ss[0]
        H = ss[0].copy()
        ms = [dict() for _ in ss]
        addrs = set()
        for s in ss:
            addrs |= set(s.store)
        # epochs
        for e in set().union(*[set(s.epochs) for s in ss]):
            xs = {s.epochs.get(e) for s in ss}
            if len(xs) > 1:
                H.epochs[e] = self.created(("ep", (jid, "join")))
        for a in addrs:
            vs = [s.store[a] if a in s.store else self.plain(s, a) for s in ss]
            if all(v == vs[0] for v in vs):
                H.store[a] = vs[0]
                continue
            phi = self.created(("phi", jid, a))
            H.store[a] = phi
            self.phi_src.setdefault(phi, set()).update(vs)
            if all(v in self.boolv or v in (C0, C1) for v in vs):
                self.boolv.add(phi)
            if all(v in self.nonneg or (v[0] == "c" and v[1] >= 0) for v in vs):
                self.nonneg.add(phi)
            for m, v in zip(ms, vs):
                m[phi] = v
        # facts: candidates from every state, rewritten towards the phis
        cands_f, cands_l = {}, []
        for s, m in zip(ss, ms):
            inv = {}
            for phi, v in m.items():
                if v[0] not in ("c", "str", "lin"):
                    inv.setdefault(v, phi)
            for f, v in s.facts.items():
                cands_f.setdefault(f, v)
                if inv:
                    f2 = subst(f, inv, {})
                    if f2 != f and f2[0] != "c":
                        cands_f.setdefault(f2, v)
            for l in s.lin:
                cands_l.append(l)
                if inv:
                    l2 = subst(l, inv, {})
                    if l2 != l and l2[0] != "c":
                        cands_l.append(l2)
            for phi, v in m.items():
                if v[0] in ("&v", "&t", "&f", "new", "&i", "str"):
                    cands_f.setdefault(("eq0", phi), False)
                if v[0] == "c":
                    cands_l.append(lin.add(phi, v, -1))
                    cands_l.append(lin.add(v, phi, -1))
        memos = [dict() for _ in ss]
        H.facts = {f: v for f, v in cands_f.items()
                   if all(self.truth(s, subst(f, m, mm)) is v for s, m, mm in zip(ss, ms, memos))}
        out, have = [], set()
        for l in cands_l:
            if l in have:
                continue
            have.add(l)
            if len(have) > 120:
                break
            if all(self.entails(s, subst(l, m, mm)) for s, m, mm in zip(ss, ms, memos)):
                out.append(l)
        H.lin = out
        return H

    # ------------------------------------------------------------ entry
    def run(self, fn, st=None, this=None, args=None, caps=None):
        """interpret fn from an unknown state -> [(st, retval)]"""
        st = st or St()
        fr = Frame(fn, (fn["id"],), this if this is not None else ("this", fn.get("rec")), caps, 0, (fn["id"],))
        self.visited_fns.add(fn["id"])
        if args is None:
            args = []
            for pdef in fn["params"]:
                t = self.typ(fr, pdef["t"])
                a = ("param", fn["id"], pdef["id"])
                if t["k"] == "int" and not t.get("signed"):
                    self.nonneg.add(a)
                if t["k"] == "bool":
                    self.boolv.add(a)
                args.append(a)
        fr.this = fr.this
        return self.run_body(fn, st, fr, args)
