"""C07: every newline the tokeniser passes is recorded in the line index."""
from bsa import lin
from bsa.engine import Engine, Rule, St, c, C0, C1, show, eq0, ge0, fld, size_of, data_of, neg, toks
from bsa.prog import AnalysisError, norm_name, fn_nodes, walk
from bsa.scan import Roles, ScanRule, FRONT, LAST

TECHNIQUE = "typestate over positions: a frontier of recorded newlines is carried through the tokeniser by abstract interpretation, loops by fixpoint; symbolic evaluation of the index for lookups"
NOTE = "Covers every byte sequence. The search in the index is assumed to be that of the standard library; a search written by hand is reported as not decided."
EXPLANATION = ("Each operation of the tokeniser starts with the frontier at the current position. The frontier only passes a byte that is known not to be a newline on that path, or a newline whose following position is being recorded. Every record must be exactly at the frontier behind a newline, "
               "and when the operation returns the frontier must have reached the position. Building the index from a whole text is checked the same way. Recording appends the position given, once; looking up a position yields the last line start at or before it and the distance from it, "
               "and the location of a text is made from where it starts and ends.")
UNITS = ["bant/frontend/scanner.cc", "bant/frontend/linecolumn-map.cc", "bant/frontend/named-content.cc"]


def check(p, rep, tier):
    R = Roles(p).bounds()
    POS, ENDF = R.addr(R.pos), R.addr(R.end)
    BEG, SIZE = data_of(R.content), size_of(R.content)
    # the constructor records the first line and leaves the position at the start
    f = R.ctors[0]
    rule = ScanRule(R, rep, ghost=True)
    e = Engine(p, rule, K=300)
    rule.BEG = data_of(R.src)
    st = St()
    st.props = dict(st.props, first=1)
    where = "%s:%s" % (f["file"], f["line"])
    for s, _ in e.run(f, st, this=e.created(("&t", ("new object",)))):
        rep.ob("first-line", f["q"], where, not s.props.get("first"), "does not record where the first line starts")
    rep.eng(e)
    rule.report(rep)
    npush = 0
    for f in sorted(R.methods, key=lambda f: f["line"]):
        rule = ScanRule(R, rep, ghost=True)
        rule.anchor = POS
        e = Engine(p, rule, K=1000)
        st = St()
        P0, E0 = e.load(st, POS), e.load(st, ENDF)
        rule.BEG, rule.END = BEG, E0
        end = lin.add(BEG, SIZE)
        st.lin += [lin.add(P0, BEG, -1), lin.add(E0, P0, -1), lin.add(E0, end, -1), lin.add(end, E0, -1)]
        st.store[FRONT], st.store[LAST] = C0, C0
        where = "%s:%s" % (f["file"], f["line"])
        for s, v in e.run(f, st, this=R.this):
            rule.advance(e, s)
            g, l = s.store.get(FRONT), s.store.get(LAST)
            rep.ob("newlines-recorded", f["q"], where, g is not None and e.entails(s, g), "may move past a newline that has not been recorded%s" % trace(s))
            rep.ob("recorded-behind", f["q"], where, l is not None and e.entails(s, lin.scale(l, -1)), "may record a line that starts behind the position it returns with")
        rep.eng(e)
        rule.report(rep)
    whole_text(p, rep, R)
    recording(p, rep, R)
    lookup(p, rep, R)
    rep.require("newlines-recorded", 2)
    rep.require("recorded-once", 2)
    rep.require("first-line", 2)


def trace(s):
    t, r = getattr(s, "trace", None), []
    while t:
        r.append(t[1][1]); t = t[0]
    return " (lines %s)" % ", ".join(str(x) for x in r[::-1][-12:]) if r else ""


def whole_text(p, rep, R):
    """operations of the index that take a whole text"""
    for f in sorted(p.functions.values(), key=lambda f: f["id"]):
        if f.get("rec") not in R.maps or f.get("ctor") or len(f["params"]) != 1 or not f.get("body"): continue
        if norm_name(f["_types"][f["params"][0]["t"]].get("q") or "") != "std::basic_string_view": continue
        if not reaches(p, f, R.push): continue
        rule = ScanRule(R, rep, ghost=True)
        e = Engine(p, rule, K=300)
        st = St()
        text = ("param", f["id"], f["params"][0]["id"])
        rule.BEG, rule.END = data_of(text), lin.add(data_of(text), size_of(text))
        st.props = dict(st.props, first=1)
        st.store[FRONT] = rule.BEG
        st.store[LAST] = rule.BEG
        where = "%s:%s" % (f["file"], f["line"])
        for s, v in e.run(f, st, this=("this", f["rec"])):
            rule.advance(e, s)
            rep.ob("newlines-recorded", f["q"], where, e.entails(s, lin.add(s.store[FRONT], rule.END, -1)), "may leave a newline of the text unrecorded%s" % trace(s))
            rep.ob("first-line", f["q"], where, not s.props.get("first"), "does not record where the first line starts")
        rep.eng(e)
        rule.report(rep)


def reaches(p, f, targets):
    seen, todo = set(), [f["id"]]
    while todo:
        x = todo.pop()
        for cid, _ in p.calls.get(x, ()):
            if cid in targets: return True
            g = p.functions.get(cid)
            if cid not in seen and g and g["file"].startswith("bant/"):
                seen.add(cid); todo.append(cid)
    return False


class PushRule(Rule):
    def pre_call(self, eng, st, call):
        n = call.name or ""
        if n.startswith("absl::log_internal"): return None
        s = n.rpartition("::")[2]
        if n.startswith("std::vector::") and s in ("push_back", "emplace_back", "insert", "emplace", "pop_back", "clear", "resize", "erase", "assign"):
            x = eng.rval(st, call.args[-1], call.node["a"][-1]) if call.args else None
            at = eng.rval(st, call.args[0], call.node["a"][0]) if s in ("insert", "emplace") else None
            if at is not None:
                v = eng.load(st, call.obj)
                if at == lin.add(data_of(v), size_of(v)): s = "push_back"
            st.props = dict(st.props, put=st.props.get("put", ()) + ((s if s != "emplace_back" else "push_back", x),))
            return [(st, C0)]
        return None

    def inline(self, eng, fn, fr): return fn["file"].startswith("bant/")


def recording(p, rep, R):
    for f in R.push.values():
        if not f.get("body"): continue
        e = Engine(p, PushRule(), K=100)
        par = ("param", f["id"], f["params"][0]["id"])
        for s, v in e.run(f, St(), this=("this", f["rec"])):
            put = s.props.get("put", ())
            rep.ob("record-appends", f["q"], "%s:%s" % (f["file"], f["line"]), put == (("push_back", par),), "records %s instead of the position given, once, at the end" % (", ".join("%s(%s)" % (a, show(b)[:40]) for a, b in put) or "nothing"))
        rep.eng(e)
    rep.require("record-appends", 1)


class FindRule(Rule):
    def pre_call(self, eng, st, call):
        n = (call.name or "").rpartition("::")[2]
        if (call.name or "").startswith("std::") and n in ("upper_bound", "lower_bound") and len(call.args) >= 3 and call.obj is None:
            a = [eng.rval(st, x, d) for x, d in zip(call.args, call.node["a"])]
            if len(a) > 3: return None
            u = ("call", "bound:" + n, tuple(a))
            eng.assume(st, ge0(lin.add(u, a[0], -1)), True)
            eng.assume(st, ge0(lin.add(a[1], u, -1)), True)
            return [(st, u)]
        if (call.name or "").startswith("std::vector::") and call.obj is not None:
            v = eng.load(st, call.obj)
            if n in ("begin", "cbegin", "data"): return [(st, data_of(v))]
            if n in ("end", "cend"): return [(st, lin.add(data_of(v), size_of(v)))]
            if n == "size": return [(st, size_of(v))]
            if n in ("operator[]", "at"): return [(st, lin.add(data_of(v), eng.rval(st, call.args[0], call.node["a"][0])))]
        it = eng.load(st, call.obj) if call.obj is not None and n.startswith("operator") and call.fid not in eng.p.functions else None
        if it is not None and numeric(it):
            a = [eng.rval(st, x, d) for x, d in zip(call.args, call.node["a"])]
            if n in ("operator++", "operator--"):
                eng.do_store(st, call.obj, lin.add(it, C1, 1 if n == "operator++" else -1), call.node, call.fr)
                return [(st, it if a else call.obj)]
            if n in ("operator+=", "operator-="):
                eng.do_store(st, call.obj, lin.add(it, a[0], 1 if n == "operator+=" else -1), call.node, call.fr)
                return [(st, call.obj)]
            if n in ("operator+", "operator-"): return [(st, lin.add(it, a[0], 1 if n == "operator+" else -1))]
            if n == "operator[]": return [(st, lin.add(it, a[0]))]
            if n in ("operator*", "operator->") and not a: return [(st, it)]
        if n in ("operator+", "operator-", "operator==") and call.obj is None and len(call.args) == 2 and call.fid not in eng.p.functions:
            a = [eng.rval(st, x, d) for x, d in zip(call.args, call.node["a"])]
            if all(numeric(x) for x in a):
                if n == "operator==": return [(st, eq0(lin.add(a[0], a[1], -1)))]
                return [(st, lin.add(a[0], a[1], 1 if n == "operator+" else -1))]
        if n in ("distance", "next", "prev") and (call.name or "").startswith("std::") and call.obj is None:
            a = [eng.rval(st, x, d) for x, d in zip(call.args, call.node["a"])]
            if n == "distance": return [(st, lin.add(a[1], a[0], -1))]
            return [(st, lin.add(a[0], a[1] if len(a) > 1 else C1, 1 if n == "next" else -1))]
        return None

    def inline(self, eng, fn, fr): return fn["file"].startswith("bant/")


def numeric(t):
    """positions in the index, and differences of them"""
    return t[0] == "c" or all(x[0] == "data" or (x[0] == "call" and str(x[1]).startswith("bound:")) for x in lin.parts(t)[1])


def bounds_in(t, out):
    if isinstance(t, tuple):
        if len(t) > 1 and t[0] == "call" and isinstance(t[1], str) and t[1].startswith("bound:"): out.add(t)
        for x in t: bounds_in(x, out)


def lookup(p, rep, R):
    lc = [r for r in p.records.values() if r["file"].startswith("bant/") and len(r["fields"]) == 2 and all(r["_types"][f["type"]]["k"] == "int" for f in r["fields"]) and
          any(f.get("rec") in R.maps and f.get("ret") is not None and f["_types"][f["ret"]].get("rec") == r["id"] for f in p.functions.values())]
    if len(lc) != 1: raise AnalysisError("line and column not found (%d)" % len(lc))
    lc = lc[0]
    line, col = (x["id"] for x in sorted(lc["fields"], key=lambda x: (not x["name"].startswith("line"), x["name"])))
    getters = [f for f in p.functions.values() if f.get("rec") in R.maps and f.get("ret") is not None and f["_types"][f["ret"]].get("rec") == lc["id"] and len(f["params"]) == 1 and f.get("body")]
    for f in getters:
        where = "%s:%s" % (f["file"], f["line"])
        e = Engine(p, FindRule(), K=200)
        this = ("this", f["rec"])
        vec = [x["id"] for x in R.maps[f["rec"]]["fields"] if "vector" in R.maps[f["rec"]]["_types"][x["type"]]["s"]][0]
        st = St()
        v0 = e.load(st, ("&f", this, vec))
        par = ("param", f["id"], f["params"][0]["id"])
        und = 0
        for s, v in e.run(f, st, this=this):
            l, k = untrunc(fld(v, line)), untrunc(fld(v, col))
            bs = set()
            bounds_in(l, bs); bounds_in(k, bs)
            if not bs:
                und += 1
                continue
            b = next(iter(bs))
            good = len(bs) == 1 and b[1] == "bound:upper_bound" and b[2] == (data_of(v0), lin.add(data_of(v0), size_of(v0)), par)
            rep.ob("line-found", f["q"], where, good, "looks for the line with %s over %s" % (b[1][6:], ", ".join(show(x)[:40] for x in b[2])))
            if not good: continue
            at = lin.add(b, c(-1))
            rep.ob("line-found", f["q"] + ": number", where, l == lin.add(at, data_of(v0), -1), "the line is %s, not the number of the last line start at or before the position" % show(l)[:80])
            ent = e.load(s, at)
            rep.ob("line-found", f["q"] + ": column", where, k == lin.add(par, ent, -1), "the column is %s, not the distance from the start of the line" % show(k)[:80])
        if und: rep.notes.append("%s: search of the line not recognised, not decided" % f["q"])
        rep.eng(e)
    # start and end of a text
    names = {f["id"] for f in getters}

    class Range(Rule):
        def pre_call(self, eng, st, call):
            if call.fid in names: return [(st, ("call", "pos", (eng.rval(st, call.args[0], call.node["a"][0]),)))]
            return None

        def inline(self, eng, fn, fr): return fn["file"].startswith("bant/")
    ranges = [r for r in p.records.values() if r["file"].startswith("bant/") and len(r["fields"]) == 2 and all(r["_types"][x["type"]].get("rec") == lc["id"] for x in r["fields"])]
    if len(ranges) != 1: raise AnalysisError("range of positions not found")
    rg = ranges[0]
    locs = [r for r in p.records.values() if r["file"].startswith("bant/") and any(r["_types"][x["type"]].get("rec") == rg["id"] for x in r["fields"]) and len(r["fields"]) == 2]
    for f in sorted(p.functions.values(), key=lambda f: f["id"]):
        if not f["file"].startswith("bant/") or not f.get("body") or len(f["params"]) != 1 or f.get("ret") is None or f["id"].startswith("lambda@"): continue
        rt = f["_types"][f["ret"]].get("rec")
        if rt != rg["id"] and rt not in [x["id"] for x in locs]: continue
        if norm_name(f["_types"][f["params"][0]["t"]].get("q") or "") != "std::basic_string_view" or not f.get("rec"): continue
        if not reaches(p, f, names): continue
        e = Engine(p, Range(), K=100)
        par = ("param", f["id"], f["params"][0]["id"])
        for s, v in e.run(f, St(), this=("this", f["rec"])):
            if rt != rg["id"]:
                x = next(x for x in next(y for y in locs if y["id"] == rt)["fields"] if rt and True and next(y for y in locs if y["id"] == rt)["_types"][x["type"]].get("rec") == rg["id"])
                v = fld(v, x["id"])
            fs = sorted(rg["fields"], key=lambda x: rg["fields"].index(x))
            a, b = fld(v, fs[0]["id"]), fld(v, fs[1]["id"])
            pos = ("call", "pos", (data_of(par),)), ("call", "pos", (lin.add(data_of(par), size_of(par)),))
            rep.ob("range-of-text", f["q"], "%s:%s" % (f["file"], f["line"]), (a, b) == pos, "the range goes from %s to %s, not from the start to the end of the text" % (show(a)[:50], show(b)[:50]))
        rep.eng(e)
    rep.require("range-of-text", 2)


def untrunc(t):
    while t[0] in ("trunc", "fcast"): t = t[2]
    return t
