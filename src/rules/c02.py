"""C02: arena container keeps every element in place, counted and reachable."""
from bsa import lin
from bsa.engine import Engine, Rule, St, c, show, eq0, ge0, fld, C0, C1
from bsa.prog import AnalysisError, norm_name, fn_nodes, walk

TECHNIQUE = 'symbolic path summaries of append, indexing and iterator with linear arithmetic (abstract interpretation)'
NOTE = 'The block-size progression, slot address computation and iteration order are compared symbolically between append, indexing and iteration, for all element counts; assumes block sizes do not overflow and the arena property C01.'
EXPLANATION = (
  "For several instantiations of ArenaDeque (different element sizes and block-size pairs, including degenerate ones), "
  "every path of Append, operator[], the iterator and begin/end/size is summarised by abstract interpretation and compared with "
  "an inductive specification: Append writes the slot (current block, used count) below the block's capacity, or the first slot "
  "of a block just reserved with enough bytes and linked behind the current one; readers step from block to block by exactly "
  "the capacity the writer used and with the same capacity progression. Loops are covered by one symbolic iteration relating "
  "loop head and back edge. Capacities cannot leave the range of their type. A container that points into itself is not copyable.")
UNITS = []


class R(Rule):
    def __init__(self):
        self.entry, self.rounds = {}, {}

    def pre_call(self, eng, st, call):
        if call.name == "bant::Arena::Alloc":
            a = eng.fresh("blk", call.node, call.fr, "new")
            st.props["alloc"] = st.props.get("alloc", ()) + ((a, call.args[0]),)
            return [(st, a)]
        return None

    def on_loop_entry(self, eng, entries, node, fr):
        self.entry[(node.get("_id"), fr.ctx)] = ([s.copy() for s in entries], fr)

    def on_loop_round(self, eng, head, backs, node, fr):
        self.rounds.setdefault((node.get("_id"), fr.ctx), {})[id(head)] = (head, head.copy(), [b.copy() for b in backs])


def tkind(r, tid):
    t = r["_types"][tid]
    return t


class Deque:
    def __init__(self, p, rec):
        self.p, self.rec = p, rec
        self.q = rec["id"]
        T = rec["_types"]
        self.nested = {r["name"]: r for r in p.records.values() if r["id"].startswith(self.q.replace(", 1, 64>", ">") + "::") or r["id"].startswith(self.q + "::")}
        self.block = next((r for r in self.nested.values() if any(r["_types"][f["type"]]["k"] == "arr" for f in r["fields"])), None)
        if not self.block:
            raise AnalysisError("no block record in " + self.q)
        B = self.block
        self.valf = next(f for f in B["fields"] if B["_types"][f["type"]]["k"] == "arr")
        self.nextf = next((f for f in B["fields"] if B["_types"][f["type"]]["k"] == "ptr"), None)
        self.tracker = self.itr = None
        for r in self.nested.values():
            ks = [r["_types"][f["type"]]["k"] for f in r["fields"]]
            if r is B: continue
            if "ptr" in ks: self.itr = r
            elif all(k == "int" for k in ks) and ks: self.tracker = r
        if not (self.tracker and self.itr and self.nextf):
            raise AnalysisError("roles of %s not recognised" % self.q)
        def roles(r):
            d = {}
            for f in r["fields"]:
                t = r["_types"][f["type"]]
                if t["k"] == "ptr": d["cur"] = f
                elif t["k"] == "rec" and t.get("rec") == B["id"]: d["top"] = f
                elif t["k"] == "rec" and t.get("rec") == self.tracker["id"]: d["trk"] = f
                elif t["k"] == "int": d.setdefault("ints", []).append(f)
            return d
        self.d, self.i = roles(rec), roles(self.itr)
        self.fns = {}
        for f in p.functions.values():
            if f.get("rec") == rec["id"]:
                self.fns.setdefault(f["name"], []).append(f)
        self.itfns = {f["name"]: f for f in p.functions.values() if f.get("rec") == self.itr["id"]}
        self.cap = self.adv = None
        for f in p.functions.values():
            if f.get("rec") == self.tracker["id"] and not f["params"] and not f.get("ctor") and not f.get("implicit"):
                if f.get("const"): self.cap = f
                else: self.adv = f
        if not (self.cap and self.adv):
            raise AnalysisError("capacity tracker of %s not recognised" % self.q)

    def fn(self, name):
        r = [f for f in self.fns.get(name, ()) if f.get("body")]
        if len(r) != 1:
            raise AnalysisError("%s::%s not found" % (self.q, name))
        return r[0]


def check(p, rep, tier):
    recs = [r for r in p.records.values() if norm_name(r["q"]) == "bant::ArenaDeque"]
    done = 0
    for rec in sorted(recs, key=lambda r: r["id"]):
        names = {f["name"] for f in p.functions.values() if f.get("rec") == rec["id"] and f.get("body")}
        if not {"Append", "operator[]", "begin", "end"} <= names:
            continue
        one(p, rep, Deque(p, rec))
        done += 1
    if done < 4:
        raise AnalysisError("only %d instantiations of ArenaDeque analysed" % done)
    # self-pointing container
    g = {x["name"]: x.get("val") for x in p.globals.values() if "witness" in x["id"]}
    if "copy_deque" not in g:
        raise AnalysisError("type witness missing: %s" % p.failed)
    rep.ob("no-relocation", "bant::ArenaDeque", "bant/util/arena-container.h", g["copy_deque"] == 0 and g["move_deque"] == 0,
           "an ArenaDeque points into itself, but can be copied or moved: the copy then appends to the original's block")
    rep.assumptions += ["Arena::Alloc returns fresh memory of the requested size (C01)", "fewer than 2^64 elements",
                        "0 < MIN_BLOCK_SIZE"]


def one(p, rep, D):
    key0 = D.q.replace("bant::", "")
    W = lambda f: "%s:%s" % (f["file"], f["line"])
    this = ("this", D.q)
    ap = D.fn("Append")
    B = D.block
    elem = B["_types"][B["_types"][D.valf["type"]]["to"]] if "to" in B["_types"][D.valf["type"]] else None
    arr = B["_types"][D.valf["type"]]
    n_arr = arr.get("n") or arr.get("len")
    bsize = B["_types"][B["type"]]["size"]
    esize = arr["size"] // n_arr if n_arr else None
    if esize is None:
        raise AnalysisError("array extent of %s unknown" % D.q)
    off = D.valf["off"]

    def engine():
        e = Engine(p, R())
        e.trunc_bits = 32
        for f in D.d["ints"] + D.i["ints"] + D.tracker["fields"]:
            pass
        return e

    # which int field is the size, which the used count
    e = engine()
    sz = D.fn("size")
    r = e.run(sz, this=this)
    sizef = None
    for f in D.d["ints"]:
        if len(r) == 1 and r[0][1] == ("ld", ("&f", this, f["id"]), ()):
            sizef = f
    rep.ob("size", key0, W(sz), sizef is not None, "size() does not return a stored element count")
    if sizef is None:
        return
    used = [f for f in D.d["ints"] if f is not sizef]
    if len(used) != 1:
        raise AnalysisError("used-slot counter of %s not recognised" % D.q)
    used = used[0]
    A = lambda f: ("&f", this, f["id"])
    topa = A(D.d["top"])
    slot = lambda b, i: lin.add(("&i", ("&f", b, D.valf["id"])), i)
    nxt = lambda b: ("&f", b, D.nextf["id"])

    def bits(r, f): return r["_types"][f["type"]].get("bits", 0)
    capbits = D.cap["_types"][D.cap["ret"]].get("bits", 0)
    rep.ob("width", key0 + ":size", W(ap), bits(D.rec, sizef) >= 64, "element count is narrower than size()")
    rep.ob("width", key0 + ":used", W(ap), bits(D.rec, used) >= 16, "used-slot counter cannot hold every block size")
    rep.ob("width", key0 + ":capacity", W(ap), capbits >= 16, "capacity cannot represent every block size")
    rep.ob("width", key0 + ":iterator", W(ap), all(bits(D.itr, f) >= 16 for f in D.i["ints"]), "iterator position cannot hold every block size")
    opi = D.fn("operator[]")
    rep.ob("width", key0 + ":index", W(opi), all(opi["_types"][x["t"]].get("bits", 0) >= 64 for x in opi["params"]), "index is narrower than the element count")

    def caps(e, s, addr):
        """[(state, capacity)] of the tracker at addr"""
        return e.run(D.cap, s.copy(), this=addr)

    tfields = [f["id"] for f in D.tracker["fields"]]
    def tval(e, s, addr):
        return tuple(e.load(s, ("&f", addr, f)) for f in tfields)

    def put(e, s, addr, vals):
        e.write(s, addr, ("agg", D.tracker["id"]))
        for f, v in zip(tfields, vals):
            e.write(s, ("&f", addr, f), v)
    def cap_of(e, s, vals):
        tmp = ("&t", ("tmpcap", 0))
        s = s.copy()
        put(e, s, tmp, vals)
        return e.run(D.cap, s, this=tmp)
    def advanced(e, s, before, after):
        """is `after` what advancing `before` gives, under the facts of s?"""
        tmp = ("&t", ("tmpadv", 0))
        s = s.copy()
        put(e, s, tmp, before)
        got = e.run(D.adv, s, this=tmp)
        return bool(got) and all(tval(e, s2, tmp) == after for s2, _ in got)

    def strip(v):
        while v[0] == "trunc":
            v = v[2]
        return v

    # ---- capacity progression: never zero, never beyond its type
    e = engine()
    trk = ("this", D.tracker["id"])
    e.nonneg |= {("ld", ("&f", trk, f), ()) for f in tfields}
    st = St()
    cs = caps(e, st, trk)
    for _, x in cs if len(cs) == 1 else ():
        if x[0] == "trunc": st.lin += [lin.add(x, x[2], -1), lin.add(x[2], x, -1)]    # so far, capacities were in range
    for s, _ in e.run(D.adv, st, this=trk):
        before = tuple(("ld", ("&f", trk, f), ()) for f in tfields)
        after = tval(e, s, trk)
        same = after == before
        ok = True
        for s2, cap in caps(e, s, trk):
            x = strip(cap)
            ok = ok and (same or e.entails(s2, lin.add(c((1 << capbits) - 1), x, -1)))
        rep.ob("capacity-range", key0, W(D.adv), ok, "the next capacity may exceed the range of its type")
    rep.eng(e)
    e = engine()
    ctor = [f for f in D.fns.get(D.rec["name"], []) if f.get("ctor") and f.get("body") and not f["params"]]
    if len(ctor) != 1:
        raise AnalysisError("constructor of %s not found" % D.q)
    ini = None
    for s, _ in e.run(ctor[0], this=this):
        ini = tval(e, s, A(D.d["trk"]))
        cs = caps(e, s, A(D.d["trk"]))
        capv = cs[0][1] if len(cs) == 1 else None
        rep.ob("initial", key0, W(ctor[0]),
               e.load(s, A(sizef)) == C0 and e.load(s, A(used)) == C0 and e.load(s, A(D.d["cur"])) == topa
               and e.load(s, nxt(topa)) == C0,
               "a new container is not empty: size %s used %s current %s next %s" % tuple(
                 show(x) for x in (e.load(s, A(sizef)), e.load(s, A(used)), e.load(s, A(D.d["cur"])), e.load(s, nxt(topa)))))
        rep.ob("initial", key0 + ":capacity", W(ctor[0]), capv is not None and capv[0] == "c" and 0 < capv[1]
               and off + esize * capv[1] <= bsize, "initial capacity %s does not fit the built-in block" % (show(capv) if capv else "?"))
    if ini is None:
        return
    rep.eng(e)

    # ---- Append
    e = engine()
    st = St()
    k0 = tuple(("ld", ("&f", A(D.d["trk"]), f), ()) for f in tfields)
    n0, b0, s0 = e.load(st, A(used)), e.load(st, A(D.d["cur"])), e.load(st, A(sizef))
    e.nonneg |= {n0, s0} | set(k0)
    c0 = [v for _, v in cap_of(e, st, k0)]
    if len(c0) != 1:
        raise AnalysisError("capacity of %s is path dependent" % D.q)
    c0 = c0[0]
    st.lin.append(lin.add(c0, n0, -1))            # invariant: used <= capacity
    val = ("param", ap["id"], ap["params"][0]["id"])
    res = e.run(ap, st, this=this)
    kinds = set()
    for s, Rv in res:
        b1, n1, s1 = e.load(s, A(D.d["cur"])), e.load(s, A(used)), e.load(s, A(sizef))
        k1 = tval(e, s, A(D.d["trk"]))
        al = s.props.get("alloc", ())
        if not al:
            kinds.add("in-block")
            ok = Rv == slot(b0, n0) and b1 == b0 and k1 == k0 and n1 == lin.add(n0, C1)
            rep.ob("append-slot", key0 + ":same-block", W(ap), ok, "appending in the current block yields slot %s, used %s" % (show(Rv), show(n1)))
            rep.ob("append-room", key0 + ":same-block", W(ap), e.entails(s, lin.add(lin.add(c0, n0, -1), c(-1))),
                   "a slot is used without knowing that the block has room for it")
        else:
            kinds.add("new-block")
            tok, bytes_ = al[0]
            ok = len(al) == 1 and Rv == slot(tok, C0) and b1 == tok and n1 == C1
            rep.ob("append-slot", key0 + ":new-block", W(ap), ok, "appending with a new block yields slot %s, used %s, block %s" % (show(Rv), show(n1), show(b1)))
            rep.ob("append-full", key0, W(ap), e.entails(s, lin.add(n0, c0, -1)), "a new block is started while the current one is not full: its remaining slots would be read as elements")
            rep.ob("append-link", key0, W(ap), e.load(s, nxt(b0)) == tok and e.load(s, nxt(tok)) == C0,
                   "the new block is not linked as the last one: predecessor -> %s, new -> %s" % (show(e.load(s, nxt(b0))), show(e.load(s, nxt(tok)))))
            rep.ob("progression", key0 + ":append", W(ap), advanced(e, s, k0, k1), "capacity after starting a new block is not the next one in the progression")
            for s2, c1 in cap_of(e, s, k1):
                need = lin.add(c(off), lin.scale(c1, esize))
                rep.ob("append-bytes", key0, W(ap), e.entails(s2, lin.add(bytes_, need, -1)),
                       "memory reserved (%s) may be less than %s elements need" % (show(bytes_), show(c1)))
        rep.ob("append-count", key0, W(ap), s1 == lin.add(s0, C1), "element count becomes %s" % show(s1))
        rep.ob("append-value", key0, W(ap), e.load(s, Rv) == val, "the slot holds %s instead of the appended value" % show(e.load(s, Rv)))
    rep.ob("append-paths", key0, W(ap), kinds == {"in-block", "new-block"}, "Append has paths %s" % kinds)
    rep.eng(e)

    # ---- operator[]
    e = engine()
    fn = D.fn("operator[]")
    st = St()
    pos = ("param", fn["id"], fn["params"][0]["id"])
    e.nonneg.add(pos)
    st.lin.append(lin.add(lin.add(e.load(st, A(sizef)), pos, -1), c(-1)))
    res = e.run(fn, st, this=this)
    rep.eng(e)
    lv = [v for n in fn_nodes(fn) if n.get("k") == "decl" for v in n["vars"]]
    ctx = (fn["id"],)
    trkv = [v for v in lv if fn["_types"][v["t"]].get("rec") == D.tracker["id"]]
    lvtypes = [v for v in lv if fn["_types"][v["t"]]["k"] == "int" and fn["_types"][v["t"]].get("bits", 64) < 16]
    rep.ob("width", key0 + ":index-locals", W(fn), not lvtypes, "a local of operator[] is too narrow for every block size")
    ok_ret, detail = bool(res), ""
    X = None
    def base_idx(v):
        cst, d = lin.parts(v)
        bs = [a for a in d if a[0] == "&i" and a[1][0] == "&f" and a[1][2] == D.valf["id"]]
        if len(bs) != 1 or d[bs[0]] != 1:
            return None, None
        return bs[0][1][1], lin.add(v, bs[0], -1)
    if not e.rule.rounds:
        rep.ob("index", key0, W(fn), False, "operator[] does not follow the chain of blocks")
        return
    (lkey, heads), = list(e.rule.rounds.items())[:1]
    entries, lfr = e.rule.entry[lkey]
    ta = None
    if len(trkv) == 1:
        ta = ("&v", lfr.ctx, trkv[0]["id"])
    if ta is None:
        raise AnalysisError("operator[] of %s does not use one local capacity tracker" % D.q)
    tracked = []   # (B term, X term) on head symbols
    infos = e.rule.rounds[lkey]
    # the tracker local is dropped at return; re-run with a hook on return to see it
    class R2(R):
        """also: a variable that holds the capacity the tracker gives keeps doing so around the loop"""
        def __init__(self):
            super().__init__(); self.rets = []
            self.nums = [("&v", lfr.ctx, v["id"]) for v in lv if fn["_types"][v["t"]]["k"] == "int"]
        def ghosts(self, eng, s, fr):
            if fr.ctx != lfr.ctx: return
            for a in self.nums:
                if a not in s.store: continue
                cs = cap_of(side, s, tval(eng, s, ta))
                d = lin.add(eng.load(s, a), cs[0][1], -1) if len(cs) == 1 else C1
                s.store[a[:2] + (a[2] + "/capacity",)] = C0 if d == C0 or eng.entails(s, d) and eng.entails(s, lin.scale(d, -1)) else C1
        def on_loop_entry(self, eng, entries, node, fr):
            for s in entries: self.ghosts(eng, s, fr)
            super().on_loop_entry(eng, entries, node, fr)
        def on_loop_round(self, eng, head, backs, node, fr):
            for b in backs: self.ghosts(eng, b, fr)
            super().on_loop_round(eng, head, backs, node, fr)
        def on_loop_head(self, eng, head, node, fr):
            for a in self.nums:
                if fr.ctx == lfr.ctx and head.store.get(a[:2] + (a[2] + "/capacity",)) == C0:
                    for _, v in cap_of(side, head, tval(eng, head, ta)):
                        head.lin += [lin.add(eng.load(head, a), v, -1), lin.add(v, eng.load(head, a), -1)]
        def on_ret(self, eng, s, v, fr):
            if fr.fn["id"] == fn["id"]:
                self.rets.append((s.copy(), v))
    side = engine()
    e2 = engine(); e2.rule = R2()
    e2.nonneg |= e.nonneg
    st = St()
    st.lin.append(lin.add(lin.add(e2.load(st, A(sizef)), pos, -1), c(-1)))
    e2.run(fn, st, this=this)
    rule = e2.rule
    # only rets recorded in the last round of the loop matter: facts there are weakest; all must hold
    good = True
    exprs = set()
    final_heads = {}
    for hk, (live, hcopy, backs) in rule.rounds[next(iter(rule.rounds))].items():
        final_heads[hk] = (live, hcopy, backs)
    for s, v in rule.rets:
        b, x = base_idx(v)
        if b is None:
            rep.ob("index", key0 + ":result", W(fn), False, "operator[] returns %s, not a slot" % show(v)); continue
        isphi = b[0] == "phi"
        k = tval(e2, s, ta) if (ta in s.store or any(("&f", ta, f) in s.store for f in tfields)) else ini
        cs = cap_of(e2, s, k)
        inb = all(e2.entails(s3, lin.add(lin.add(cv, x, -1), c(-1))) for s3, cv in cs)
        rep.ob("index-in-block", key0, W(fn), inb, "slot %s is not shown to lie below its block's capacity" % show(x))
        if isphi:
            exprs.add((b, x))
        else:
            ok = b == topa and x == pos and (k == ini or isinstance(k, tuple))
            # not (yet) widened round: must be the initial position
            rep.ob("index-start", key0, W(fn), ok and k == ini, "lookup starts at block %s position %s" % (show(b), show(x)))
    rep.ob("index", key0, W(fn), len(exprs) == 1, "operator[] does not walk block by block (%d forms)" % len(exprs))
    if len(exprs) != 1:
        return
    (b, x), = exprs
    if b[0] != "phi" or any(a[0] not in ("phi", "param") for a in lin.parts(x)[1]):
        rep.ob("index", key0 + ":form", W(fn), False, "position %s is not carried around the loop" % show(x)); return
    baddr = b[2]
    def at(s, t):
        cst, d = lin.parts(t)
        r = c(cst)
        for a, kk in d.items():
            r = lin.add(r, e2.load(s, a[2]) if a[0] == "phi" else a, kk)
        return r
    for hk, (live, h, backs) in final_heads.items():
        if e2.load(h, baddr) != b:
            continue
        kh = tval(e2, h, ta)
        xh = at(h, x)
        for s in backs:
            bb, xb, kb = e2.load(s, baddr), at(s, x), tval(e2, s, ta)
            ch = [v for _, v in cap_of(e2, s, kh)]
            want_b = e2.load(h, nxt(b))
            dx = lin.add(lin.add(xh, ch[0], -1), xb, -1) if len(ch) == 1 else C1
            ok = len(ch) == 1 and bb == want_b and (dx == C0 or e2.entails(s, dx) and e2.entails(s, lin.scale(dx, -1)))
            rep.ob("index-step", key0, W(fn), ok, "one step goes to block %s with position %s instead of %s, %s" % (
                show(bb), show(xb), show(want_b), show(lin.add(xh, ch[0], -1)) if ch else "?"))
            rep.ob("index-step-cond", key0, W(fn), len(ch) == 1 and e2.entails(s, lin.add(xh, ch[0], -1)),
                   "a block is skipped though the position may be inside it")
            rep.ob("progression", key0 + ":index", W(fn), advanced(e2, s, kh, kb), "operator[] does not follow the writer's capacity progression")
    for s in rule.entry[next(iter(rule.entry))][0]:
        rep.ob("index-start", key0 + ":entry", W(fn), e2.load(s, baddr) == topa and at(s, x) == pos and tval(e2, s, ta) == ini,
               "lookup starts at block %s position %s" % (show(e2.load(s, baddr)), show(at(s, x))))
    rep.eng(e2)

    # ---- iterator
    it = ("this", D.itr["id"])
    I = lambda f: ("&f", it, f["id"])
    ip = D.i["ints"]
    if len(ip) != 1:
        raise AnalysisError("iterator position of %s not recognised" % D.q)
    ip = ip[0]
    def need(name):
        f = D.itfns.get(name)
        if f is None or not f.get("body"):
            raise AnalysisError("%s::%s not found" % (D.itr["id"], name))
        return f
    e = engine()
    f = need("operator++")
    st = St()
    ib, ix = e.load(st, I(D.i["cur"])), e.load(st, I(ip))
    ik = tuple(("ld", ("&f", I(D.i["trk"]), x), ()) for x in tfields)
    e.nonneg |= {ix} | set(ik)
    cc = [v for _, v in cap_of(e, st, ik)]
    st.lin.append(lin.add(lin.add(cc[0], ix, -1), c(-1)))
    kinds = set()
    for s, v in e.run(f, st, this=it):
        b1, x1, k1 = e.load(s, I(D.i["cur"])), e.load(s, I(ip)), tval(e, s, I(D.i["trk"]))
        if b1 == ib:
            kinds.add("same")
            ok = x1 == lin.add(ix, C1) and k1 == ik and e.entails(s, lin.add(lin.add(cc[0], ix, -1), c(-2)))
            rep.ob("iterate", key0 + ":same-block", W(f), ok, "iterator moves to position %s, which may be past the block" % show(x1))
        else:
            kinds.add("next")
            ok = b1 == e.load(St(), nxt(ib)) and x1 == C0 and e.entails(s, lin.add(lin.add(ix, C1), cc[0], -1))
            rep.ob("iterate", key0 + ":next-block", W(f), ok, "iterator moves to block %s position %s" % (show(b1), show(x1)))
            rep.ob("progression", key0 + ":iterator", W(f), advanced(e, s, ik, k1), "iterator does not follow the writer's capacity progression")
    rep.ob("iterate-paths", key0, W(f), kinds == {"same", "next"}, "iterator steps: %s" % kinds)
    rep.eng(e)
    e = engine()
    f = need("operator*")
    for s, v in e.run(f, this=it):
        rep.ob("iterator-deref", key0, W(f), v == slot(e.load(s, I(D.i["cur"])), e.load(s, I(ip))), "iterator yields %s" % show(v))
    for nm in ("operator==", "operator!="):
        f = need(nm)
        e = engine()
        other = ("param", f["id"], f["params"][0]["id"])
        O = lambda x: ("&f", other, x["id"])
        for s, v in e.run(f, this=it):
            eqb = eq0(lin.add(e.load(s, I(D.i["cur"])), e.load(s, O(D.i["cur"])), -1))
            eqx = eq0(lin.add(e.load(s, I(ip)), e.load(s, O(ip)), -1))
            want = (nm == "operator==")
            tv = v == C1 if v[0] == "c" else None
            ok = tv is not None
            if ok and tv == want:
                ok = e.truth(s, eqb) is True and e.truth(s, eqx) is True
            elif ok:
                s2 = s.copy()
                ok = not (e.assume(s2, eqb, True) and e.assume(s2, eqx, True))
            rep.ob("iterator-equal", key0 + ":" + nm, W(f), ok, "comparison of iterators does not compare both block and position")
    # begin / end
    for nm in ("begin", "end"):
        f = D.fn(nm)
        e = engine()
        st = St()
        e.nonneg |= {n0}
        st.lin.append(lin.add(c0, n0, -1))
        kinds = set()
        for s, v in e.run(f, st, this=this):
            vb, vx = fld(v, D.i["cur"]["id"]), fld(v, ip["id"])
            if nm == "begin":
                vt = fld(v, D.i["trk"]["id"])
                vk = tuple(fld(vt, x) for x in tfields)
                rep.ob("begin", key0, W(f), vb == topa and vx == C0 and vk == ini, "begin() is block %s position %s progress %s" % (show(vb), show(vx), vk))
            else:
                full = e.entails(s, lin.add(n0, c0, -1))
                room = e.entails(s, lin.add(lin.add(c0, n0, -1), c(-1)))
                if full:
                    ok = vb == C0 and vx == C0
                elif room:
                    ok = vb == b0 and vx == n0
                else:
                    ok = False
                kinds.add("full" if full else "room")
                rep.ob("end", key0 + (":full" if full else ":room"), W(f), ok,
                       "end() is block %s position %s, which iteration %s reach" % (show(vb), show(vx), "does not" ))
        if nm == "end":
            rep.ob("end-paths", key0, W(f), kinds == {"full", "room"}, "end() has cases %s" % kinds)
        rep.eng(e)

    # ---- nobody else writes
    from rules.c01 import closure, lv_field
    inside = closure(p, ap["id"]) | {ap["id"]}
    mine = {f["id"] for f in D.rec["fields"]} | {f["id"] for f in B["fields"]}
    def writes(f, fields):
        for n in fn_nodes(f):
            if n.get("k") == "asg" and lv_field(n["a"]) in fields: return True
            if n.get("k") == "un" and n["op"] in ("++", "--") and lv_field(n["e"]) in fields: return True
        return False
    for f in p.functions.values():
        if f.get("implicit") or f.get("ctor") or f["id"] in inside:
            continue
        if writes(f, mine):
            rep.ob("writer", key0 + ":" + f["name"], W(f), False, "container state is changed outside Append")
