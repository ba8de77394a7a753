"""C01: arena memory is in bounds, disjoint, aligned, owned for the arena's life."""
from bsa import lin
from bsa.engine import Engine, Rule, St, c, show, eq0, toks
from bsa.prog import AnalysisError, norm_name, fn_nodes, walk

TECHNIQUE = 'symbolic path summaries of the allocator with linear arithmetic over the resolved AST (abstract interpretation)'
NOTE = 'Every path of the allocation routines is summarised and checked against an inductive invariant of the arena (position within the newest block, blocks owned, alignment), for all request sizes and block sizes. Assumes operator new returns memory of the requested size, suitably aligned, and that sizes do not wrap around the address space.'
EXPLANATION = (
  "Interprets Arena's allocation entry point (helpers inlined) from every state satisfying "
  "the invariant `pos <= end, both inside the newest owned block, pos aligned`, in the linear-"
  "inequality domain plus residues modulo the maximal alignment. On every path: the returned "
  "[R, R+size) lies in the free region or in a block allocated on that path, the remaining free "
  "region excludes it, the invariant is re-established, and each new block is put into an owning "
  "container member. Who-may-write: no other code changes the bump pointers, and the block "
  "container is only ever added to. Every type constructed in an arena needs at most maximal alignment.")
UNITS = []
ALIGN = 16
GROW = {"emplace_back", "push_back", "emplace_front", "push_front", "emplace", "insert"}
READ = {"size", "empty", "begin", "end", "cbegin", "cend", "back", "front", "operator[]", "at", "get", "max_size",
        "operator*", "operator->", "operator bool", "data", "capacity", "reserve"}


def residue(t, m):
    """t mod m as (const, {atom: coef}) with known multiples removed, or None"""
    cst, d = lin.parts(t)
    cst %= m
    out = {}
    def addto(k, a):
        out[a] = (out.get(a, 0) + k) % m
    for a, k in d.items():
        if k % m == 0:
            continue
        if a[0] == "op" and a[1] == "&":
            mask = next((x for x in a[2:4] if x[0] == "c"), None)
            other = a[3] if mask == a[2] else a[2]
            if mask is not None:
                lowbits = mask[1] % m
                if lowbits == 0:
                    continue
                if lowbits == m - 1 and (mask[1] == m - 1 or mask[1] < 0):
                    r = residue(lin.scale(other, k), m)
                    cst = (cst + r[0]) % m
                    for x, kk in r[1].items(): addto(kk, x)
                    continue
        if a[0] == "op" and a[1] == "%" and a[3][0] == "c" and a[3][1] and a[3][1] % m == 0:
            r = residue(lin.scale(a[2], k), m)
            cst = (cst + r[0]) % m
            for x, kk in r[1].items(): addto(kk, x)
            continue
        if a[0] == "op" and a[1] == "|" and a[3] == c(m - 1) or a[0] == "op" and a[1] == "|" and a[2] == c(m - 1):
            cst = (cst + k * (m - 1)) % m
            continue
        addto(k, a)
    return cst, {a: k for a, k in out.items() if k}


def multiples(e, s):
    """residues of what this path has found to be a multiple of the alignment"""
    out = []
    for f, v in s.facts.items():
        for x in walk_term(f):
            if x[0] == "op" and x[1] == "%" and x[3][0] == "c" and x[3][1] and x[3][1] % ALIGN == 0 and e.truth(s, eq0(x)) is True: out.append(residue(x[2], ALIGN))
    return out


def walk_term(t):
    todo = [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, tuple): continue
        if len(x) > 3 and isinstance(x[0], str): yield x
        todo += x


def aligned(t, known, even=()):
    cst, d = residue(t, ALIGN)
    for c0, d0 in ((0, {}),) + tuple(even):
        for sign in (1, -1) if d0 else (1,):
            k = (cst - sign * c0) % ALIGN
            r = {a: (d.get(a, 0) - sign * d0.get(a, 0)) % ALIGN for a in set(d) | set(d0)}
            if k == 0 and all(a in known for a, n in r.items() if n): return True
    return False


def round_axioms(a):
    """bounds of rounding operations"""
    if a[0] == "op" and a[1] == "&":
        mask = next((x for x in a[2:4] if x[0] == "c"), None)
        if mask is None:
            return []
        o = a[3] if mask == a[2] else a[2]
        if mask[1] < 0 and (-mask[1]) & (-mask[1] - 1) == 0:       # ~(2^k - 1)
            w = -mask[1]
            return [lin.parts(lin.add(o, a, -1)), lin.parts(lin.add(lin.add(a, o, -1), c(w - 1)))]
        if mask[1] >= 0:
            return [(0, {a: 1}), lin.parts(lin.add(c(mask[1]), a, -1))]
    if a[0] == "op" and a[1] == "%" and a[3][0] == "c" and a[3][1] > 0:
        return [(0, {a: 1}), lin.parts(lin.add(c(a[3][1] - 1), a, -1))]
    if a[0] == "op" and a[1] == "/" and a[3][0] == "c" and a[3][1] > 0:
        k = a[3][1]
        return [lin.parts(lin.add(a[2], lin.scale(a, k), -1)), lin.parts(lin.add(lin.add(lin.scale(a, k), a[2], -1), c(k - 1)))]
    return []


class ArenaRule(Rule):
    def __init__(self, prog, owner):
        self.p, self.owner = prog, owner

    def inline(self, eng, fn, fr):
        return True

    def pre_call(self, eng, st, call):
        n = call.node
        if call.name == "operator new":
            if not n.get("pl") and n.get("arr"):
                t = eng.typ(call.fr, n.get("at"))
                cnt = lin.scale(call.args[1], t.get("size", 1))
                st.props["blk"] = st.props.get("blk", ()) + ((call.args[0], cnt),)
            return None
        if call.name in ("std::make_unique", "std::make_unique_for_overwrite") and len(call.args) == 1:
            t = eng.typ(call.fr, n.get("t"))
            tok = eng.fresh("mk", n, call.fr, "new")
            cnt = eng.rval(st, call.args[0], n["a"][0])
            st.props["blk"] = st.props.get("blk", ()) + ((tok, cnt),)
            return [(st, ("ctor", "std::unique_ptr", (tok,)))]
        short = (call.name or "").split("::")[-1]
        if call.obj is not None and call.obj[0] == "&f" and call.obj[2] == self.owner and n.get("ext"):
            if short in GROW:
                vals = [eng.rval(st, a, d) for a, d in zip(call.args, n["a"])]
                tok = None
                for v in vals:
                    if v[0] == "new": tok = v
                    if v[0] == "ctor" and v[2] and v[2][0][0] == "new": tok = v[2][0]
                if tok is not None:
                    st.props["owned"] = st.props.get("owned", ()) + (tok,)
                a = eng.created(("&t", (n.get("_id", 0), call.fr.ctx)))
                eng.write(st, a, ("ctor", "std::unique_ptr", (tok,)) if tok is not None else ("sym", "elem"))
                st.props["last"] = a
                return [(st, a)]
            if short == "back" and "last" in st.props:
                return [(st, st.props["last"])]
        return None


class PlacementRule(Rule):
    """every placement into memory from Arena::Alloc has room for the object"""
    def __init__(self, rep, f):
        self.rep, self.f = rep, f

    def inline(self, eng, fn, fr):
        return not fn.get("ctor")

    def pre_call(self, eng, st, call):
        if call.name == "bant::Arena::Alloc":
            a = eng.fresh("mem", call.node, call.fr, "new")
            st.props["mem"] = st.props.get("mem", ()) + ((a, call.args[0]),)
            return [(st, a)]
        if call.name == "operator new" and call.node.get("pl"):
            n = call.node
            t = eng.typ(call.fr, n.get("at"))
            for a, size in st.props.get("mem", ()):
                off = lin.add(call.args[0], a, -1)
                if a in lin.parts(off)[1]:
                    continue
                cnt = call.args[1] if n.get("arr") and len(call.args) > 1 else c(1)
                need = lin.add(off, lin.scale(cnt, t.get("size", 1)))
                ok = eng.entails(st, off) and eng.entails(st, lin.add(size, need, -1))
                self.rep.ob("object-fits", "%s in %s" % (t["s"], self.f["q"]), call.where(), ok,
                            "%s needs %s bytes, requested were %s" % (t["s"], show(need), show(size)))
        return None


def check(p, rep, tier):
    arena = p.rec1("bant::Arena")
    ptr_fields = []
    owner = None
    for f in arena["fields"]:
        t = arena["_types"][f["type"]]
        if t["k"] == "ptr":
            ptr_fields.append(f["id"])
        if t["k"] == "rec" and any(isinstance(x, int) and "unique_ptr<char[]" in arena["_types"][x]["s"].replace(" ", "")
                                   for x in t.get("targs", [])):
            owner = f["id"]
    rep.ob("owner", "block container owns its blocks", arena["file"], owner is not None,
           "Arena has no member container of owning pointers to blocks")
    if owner is None:
        return
    allocs = [f for f in p.fns(rec="bant::Arena", name="Alloc") if not f.get("implicit")]
    if len(allocs) != 1:
        raise AnalysisError("Arena::Alloc not found")
    alloc = allocs[0]
    this = ("this", "bant::Arena")
    A = lambda f: ("&f", this, f)
    size = ("param", alloc["id"], alloc["params"][0]["id"])

    # roles of the two pointers, from what the code returns
    def run(fn, assume):
        e = Engine(p, ArenaRule(p, owner))
        e.axioms.append(round_axioms)
        st = St()
        assume(e, st)
        r = e.run(fn, st, this=this)
        rep.eng(e)
        return e, r
    e0, res = run(alloc, lambda e, s: None)
    st0 = St()
    init = {f: e0.load(st0, A(f)) for f in ptr_fields}
    pos = end = None
    for s, v in res:
        for f in ptr_fields:
            if v == init[f] or init[f] in lin.parts(v)[1]:
                pos = f
    # no path hands out from the previous free region: then the written pointer is it
    rest = [f for f in ptr_fields if f != pos]
    if pos is None or len(rest) != 1:
        raise AnalysisError("cannot tell Arena's bump pointer and limit apart: %s" % ptr_fields)
    end = rest[0]
    P0, E0 = init[pos], init[end]

    def inv(e, st):
        st.lin.append(lin.add(E0, P0, -1))

    def regions(e, s):
        r = [("previous free region", P0, E0)]
        for tok, cnt in s.props.get("blk", ()):
            r.append(("new block", tok, lin.add(tok, cnt)))
        return r

    def post(e, s, R, key, where):
        known = {P0} | {tok for tok, _ in s.props.get("blk", ())}
        even = multiples(e, s)
        P1, E1 = e.load(s, A(pos)), e.load(s, A(end))
        owned = s.props.get("owned", ())
        for tok, cnt in s.props.get("blk", ()):
            rep.ob("block-owned", key, where, tok in owned, "a block allocated here is not put into the owning container")
        rr = None
        if R is not None:
            for name, lo, hi in regions(e, s):
                if e.entails(s, lin.add(R, lo, -1)) and e.entails(s, lin.add(lin.add(hi, R, -1), size, -1)):
                    rr = (name, lo, hi)
            rep.ob("in-bounds", key, where, rr is not None,
                   "returned memory [%s, +%s) is not shown to lie in the free region or a new block" % (show(R), show(size)))
            rep.ob("aligned", key, where, aligned(R, known, even), "returned pointer %s may be misaligned" % show(R))
        reg = None
        for name, lo, hi in regions(e, s):
            if e.entails(s, lin.add(P1, lo, -1)) and e.entails(s, lin.add(hi, E1, -1)):
                reg = (name, lo, hi)
                if rr is not None and rr[1] == lo:
                    break
        rep.ob("free-region", key, where, reg is not None and e.entails(s, lin.add(E1, P1, -1)),
               "after the call the free region [%s, %s) is not shown to lie inside an owned block" % (show(P1), show(E1)))
        if R is not None and reg is not None and rr is not None and reg[1] == rr[1]:
            rep.ob("disjoint", key, where,
                   e.entails(s, lin.add(lin.add(P1, R, -1), size, -1)) or e.entails(s, lin.add(R, E1, -1)),
                   "the remaining free region may still contain the memory just returned")
        rep.ob("stays-aligned", key, where, aligned(P1, known, even), "bump pointer %s may be misaligned for the next request" % show(P1))

    e, res = run(alloc, inv)
    for i, (s, v) in enumerate(res):
        post(e, s, v, "Arena::Alloc", "%s:%s" % (alloc["file"], alloc["line"]))
    rep.require("in-bounds", 1)

    # constructor: the invariant holds initially
    for f in p.fns(rec="bant::Arena"):
        if f.get("ctor") and not f.get("implicit") and takes_other(f):
            moved(p, rep, f, pos, end)
        elif f.get("ctor") and not f.get("implicit"):
            e = Engine(p, ArenaRule(p, owner))
            for s, v in e.run(f, this=this):
                P1, E1 = e.load(s, A(pos)), e.load(s, A(end))
                rep.ob("initial-state", f["q"], "%s:%s" % (f["file"], f["line"]),
                       P1 == c(0) and E1 == c(0), "new arena starts with pointers %s, %s" % (show(P1), show(E1)))
            rep.eng(e)

    # everything else that writes the pointers or shrinks the container
    inside = closure(p, alloc["id"])
    callers = {}
    for f, cs in p.calls.items():
        for cal, n in cs:
            callers.setdefault(cal, set()).add(f)
    for f in p.functions.values():
        if f.get("implicit"):
            continue
        if f.get("ctor") and takes_other(f):
            continue
        w = writes(f, {pos, end})
        if w and f["id"] != alloc["id"] and not f.get("ctor"):
            private_helper = f["id"] in inside and callers.get(f["id"], set()) <= inside | {alloc["id"]}
            if private_helper:
                rep.ob("pointer-writer", f["q"], "%s:%s" % (f["file"], f["line"]), True, "only reached from Alloc")
            else:
                e, res = run(f, inv)
                for s, v in res:
                    post(e, s, None, f["q"], "%s:%s" % (f["file"], f["line"]))
        for n in fn_nodes(f):
            if n.get("k") == "call" and n.get("obj") and mentions(n["obj"], owner):
                short = norm_name(n["n"]).split("::")[-1]
                ok = short in GROW or short in READ or (n.get("cm") and True)
                rep.ob("container-only-grows", f["q"] + ":" + short, "%s:%s" % (f["file"], n["l"]), ok,
                       "%s on the block container can free or move memory already handed out" % short)
            elif n.get("k") in ("asg",) and mentions(n["a"], owner):
                rep.ob("container-only-grows", f["q"] + ":assign", "%s:%s" % (f["file"], n["l"]), False, "block container overwritten")
            elif n.get("k") in ("call", "ctor") and not (f.get("ctor") and f.get("implicit")):
                for a in n.get("a", ()):
                    if a.get("k") == "mem" and a.get("f") == owner and a.get("lv"):
                        pt = n.get("pt") or []
                        i = n["a"].index(a)
                        t = f["_types"][pt[i]] if i < len(pt) else {"k": "?"}
                        const = t["k"] == "ref" and f["_types"][t["to"]].get("const")
                        rep.ob("container-only-grows", f["q"] + ":pass", "%s:%s" % (f["file"], n["l"]), const,
                               "block container handed out for modification")
    # destructor of the arena may free; nothing else deletes. Types placed:
    for f in p.functions.values():
        if norm_name(f["q"]) == "bant::Arena::New":
            t = f["_types"][f["ret"]]
            to = f["_types"][t["to"]]
            rep.ob("type-alignment", to["s"], "%s:%s" % (f["file"], f["line"]), to.get("align", 1) <= ALIGN,
                   "%s needs alignment %s" % (to["s"], to.get("align")))
    rep.require("type-alignment", 5)
    # objects constructed in arena memory fit into what was requested for them
    for f in sorted(p.functions.values(), key=lambda f: f["id"]):
        if any(n.get("k") == "new" and n.get("pl") for n in fn_nodes(f)):
            rule = PlacementRule(rep, f)
            e = Engine(p, rule)
            e.run(f)
            rep.eng(e)
    rep.require("object-fits", 5)
    rep.assumptions += ["operator new[] returns memory aligned to 16 and never null (it throws)",
                        "size computations do not wrap around size_t", "an arena whose move constructor the compiler provides is not used after being moved from (C27)"]


class Whole(Rule):
    def inline(self, eng, fn, fr): return fn["file"].startswith("bant/")


def takes_other(f):
    """copy or move: the argument is another arena"""
    return len(f["params"]) == 1 and f["_types"][f["params"][0]["t"]].get("k") in ("ref", "rref") and \
        f["_types"][f["_types"][f["params"][0]["t"]]["to"]].get("rec") == "bant::Arena"


def moved(p, rep, f, pos, end):
    """arena made from another one: only one of them goes on handing out the free region, and it is the one that owns the blocks"""
    e = Engine(p, Whole())
    this = e.created(("&t", ("new object",)))
    A = lambda x: ("&f", this, x)
    other = ("param", f["id"], f["params"][0]["id"])
    st = St()
    was = [e.load(st, ("&f", other, x)) for x in (pos, end)]
    where = "%s:%s" % (f["file"], f["line"])
    for s, v in e.run(f, st, this=this):
        here = [e.load(s, A(x)) for x in (pos, end)]
        there = [e.load(s, ("&f", other, x)) for x in (pos, end)]
        rep.ob("moved-state", f["q"] + ": source", where, there == [c(0), c(0)],
               "the arena moved from keeps pointers %s, %s into memory that has moved on" % tuple(map(show, there)))
        rep.ob("moved-state", f["q"] + ": target", where, here in (was, [c(0), c(0)]),
               "the new arena starts with pointers %s, %s" % tuple(map(show, here)))
    rep.eng(e)


def closure(p, fid):
    seen, stack = set(), [fid]
    while stack:
        x = stack.pop()
        for cal, _ in p.calls.get(x, ()):
            if cal not in seen and cal in p.functions:
                seen.add(cal)
                stack.append(cal)
    return seen


def mentions(n, fid):
    """is n an access path through member fid?"""
    while isinstance(n, dict):
        if n.get("k") == "mem":
            if n.get("f") == fid:
                return True
            n = n.get("b")
        elif n.get("k") == "idx":
            n = n.get("b")
        elif n.get("k") in ("cast", "ld", "un"):
            n = n.get("e")
        elif n.get("k") == "call" and n.get("obj") and norm_name(n.get("n") or "").split("::")[-1] in READ:
            n = n["obj"]
        else:
            return False
    return False


def lv_field(n):
    while n.get("k") in ("idx", "cast"):
        n = n.get("b") or n.get("e")
    return n.get("f") if n.get("k") == "mem" else None


def writes(f, fields):
    for n in fn_nodes(f):
        if n.get("k") == "asg" and lv_field(n["a"]) in fields:
            return True
        if n.get("k") == "un" and n["op"] in ("++", "--", "&") and lv_field(n["e"]) in fields:
            return True
        if n.get("k") in ("call",):
            pt = n.get("pt") or []
            for i, a in enumerate(n.get("a", ())):
                if a.get("lv") and lv_field(a) in fields and i < len(pt) and pt[i] >= 0:
                    t = f["_types"][pt[i]]
                    if t["k"] in ("ref", "rref") and not f["_types"][t["to"]].get("const"):
                        return True
    return False
