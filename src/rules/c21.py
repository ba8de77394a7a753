"""C21: structured output formats escape every piece of user text."""
from bsa.engine import Engine, St, c, show, eq0
from bsa.prog import AnalysisError, norm_name, fn_nodes, walk
from bsa.cmdline import production
from bsa.outputs import OutputRule, pieces, norm
from bsa import lin, textflow
from bsa.docs import Json, Sexpr, Csv, Broken, BUILTIN

TECHNIQUE = "abstract interpretation of the printers with the state machine of the output format as abstract state; escaping routines verified per character"
NOTE = ("The documents are taken as a sequence of JSON objects, one S-expression, and RFC 4180 records. Lists in the compilation database may end in a comma, which readers of compilation databases accept. "
        "absl::CEscape counts as escaping for S-expressions only. Bytes beyond ASCII are taken to be passed through.")
EXPLANATION = ("For each class of printer that is created for a structured format: from every document state that can be reached, each routine writes such that the document stays well-formed on every path, including rows with no, one or many repeated values; "
               "text that is not from the program itself is only written inside of quotes and through a routine that encodes every character in a way the format understands. Who creates a printer always finishes it, and hands it as many columns as it has headers. The compilation database is checked likewise.")
UNITS = ["bant/util/table-printer.cc", "bant/cli-commands.cc", "bant/explore/header-providers.cc", "bant/tool/workspace.cc", "bant/tool/compilation-db.cc"]
FMT = (("json", Json), ("csv", Csv), ("sexpr", Sexpr), ("s-expr", Sexpr), ("plist", Sexpr))
STRINGS = ("std::basic_string", "std::basic_string_view")


def is_text(T, i):
    t = T[i]
    while t["k"] in ("ref", "rref"): t = T[t["to"]]
    return t["k"] == "rec" and norm_name(t.get("q") or t.get("rec") or "").partition("<")[0] in STRINGS


def text_routine(f):
    T = f["_types"]
    return f.get("body") and len(f["params"]) == 1 and f.get("ret", -1) >= 0 and is_text(T, f["params"][0]["t"]) and is_text(T, f["ret"]) and not f.get("ctor")


def consistent(eng, st, term):
    """ASCII characters that term can be on this path"""
    if term[0] == "c": return [term[1] & 255]
    res = []
    for k in range(1, 128):
        s = st.copy()
        if eng.assume(s, eq0(lin.add(term, c(k), -1)), True): res.append(k)
    return res


class Pieces(textflow.QuoteRule):
    """text built by a routine, also with StrAppend and numbers in base 16"""

    def pre_call(self, eng, st, call):
        r = hexed(self, eng, st, call)
        return r if r is not None else super().pre_call(eng, st, call)


def hexed(rule, eng, st, call):
    n, nm = call.node, call.name or ""
    if (nm == "absl::Hex::Hex" or n["k"] == "ctor" and norm_name(n.get("rq") or "") == "absl::Hex") and call.args:
        w = call.args[1][1] if len(call.args) > 1 and call.args[1][0] == "c" else 0
        return [(st, ("hex", eng.rval(st, call.args[0], n["a"][0]), w))]
    if nm == "absl::StrAppend" and call.args:
        a = call.args[0]
        ps = pieces(eng.load(st, a), {"k": "rec"})
        for x, an in zip(call.args[1:], n["a"][1:]): ps += pieces(rule.alpha(eng, st, x, an, call.fr), None)
        eng.do_store(st, a, ("cat", norm(ps)), n, call.fr)
        return [(st, c(0))]
    return None


def hex_of(v):
    """piece that is a number in base 16"""
    while v[0] == "ctor" and len(v[2]) >= 1 and v[1] != "absl::Hex": v = v[2][0]
    if v[0] == "hex": return v[1], v[2]
    if v[0] == "ctor" and v[1] == "absl::Hex": return v[2][0], v[2][1][1] if len(v[2]) > 1 and v[2][1][0] == "c" else 0
    return None


def hexwidth(w): return {0: 1, 1: 1}.get(w, w)


def render(ps, term, k):
    """text of pieces if term is the character k"""
    out = ""
    for x in ps:
        h = hex_of(x[1]) if x[0] in ("x", "s", "n") else None
        if x[0] == "t": out += x[1]
        elif x[0] == "x" and x[1][0] == "char" and x[1][1] == term: out += chr(k)
        elif h and h[0] == term: out += "%0*x" % (hexwidth(h[1]), k)
        else: return None
    return out


def escapes(p, f, fmt, cache):
    """None if f encodes its argument for the format, else what is wrong"""
    key = (f["id"], fmt.name)
    if key in cache: return cache[key]
    cache[key] = "recursive"
    cache[key] = r = escapes_(p, f, fmt)
    return r


def escapes_(p, f, fmt):
    rule = Pieces()
    e = Engine(p, rule, max_steps=60000)
    res = e.run(f)
    pv = ("param", f["id"], f["params"][0]["id"])
    def arg(v): return v == pv or v[0] == "ld" and v[1] == pv or v[0] == "ctor" and len(v[2]) == 1 and arg(v[2][0])
    if not res: return "never returns"
    for st, v in res:
        if v is None: return "returns nothing"
        v = e.load(st, v) if v[0] in ("&v", "&t", "&f") else v
        ps = norm(pieces(v, {"k": "rec"}))
        if not ps or ps == (("s", C_EMPTY),): continue
        if len(ps) != 1: return "result is not the encoded text alone"
        x = ps[0][1]
        if arg(x): return "returns its argument as it is"
        if x[0] == "call" and x[1] in BUILTIN and arg(x[2][0]) and isinstance(fmt, BUILTIN[x[1]]): continue
        if x[0] == "esc" and arg(x[1]):
            t = dict(zip(x[2][::2], x[2][1::2]))
            if any(len(y) != 1 for y in t): return "replaces more than one character"
            bad = next((k for k in range(1, 128) if not fmt.encodes(t.get(chr(k), chr(k)), chr(k))), None)
            if bad is not None: return "%r is encoded as %r" % (chr(bad), t.get(chr(bad), chr(bad)))
            continue
        if x[0] != "phi": return "result %s not understood" % show(x)[:60]
        rounds = rule.rounds.get(x)
        if not rounds or not textflow.opens(e, x, ""): return "text is not built up from nothing, one character at a time"
        for ps, b in rounds:
            if b is None: return "what was built before is changed"
            ts = {y[1][1] for y in ps if y[0] == "x" and y[1][0] == "char"} | {h[0] for h in (hex_of(y[1]) for y in ps if y[0] in ("x", "s", "n")) if h}
            if not ts:  # literal text: the character is what the path says
                ts = {t for ft, val in b.facts.items() if ft[0] == "eq0" and val and ft[1][0] == "lin" for t, k in ft[1][2] if len(ft[1][2]) == 1}
            if len(ts) != 1: return "what is appended has nothing to do with one character"
            t = next(iter(ts))
            for k in consistent(e, b, t):
                out = render(ps, t, k)
                if out is None: return "appended text not understood"
                if not fmt.encodes(out, chr(k)): return "%r is encoded as %r" % (chr(k), out)
    return None


C_EMPTY = ("str", "")


class Doc(OutputRule):
    """writes go to the state machine of the format"""
    peel = False

    def __init__(self, p, fmt, headers, cache):
        self.p, self.fmt, self.headers, self.cache = p, fmt, headers, cache
        self.steps = 0
        self.bad, self.n, self.at = {}, {}, ("?", 0)

    def inline(self, eng, fn, fr): return bool(fn.get("body")) and not text_routine(fn) and (fn["file"] == fr.fn["file"]) and self.writes(fn)

    def writes(self, f, depth=0):
        key = ("writes", f["id"])
        if key not in self.cache:
            self.cache[key] = False
            self.cache[key] = any(n.get("k") == "call" and norm_name(n.get("n") or "").rpartition("::")[2] in ("operator<<", "StrAppend") for n in nodes(self.p, f)) or \
                depth < 3 and any(x in self.p.functions and self.p.functions[x]["file"] == f["file"] and self.writes(self.p.functions[x], depth + 1) for x, n in self.p.calls.get(f["id"], ()))
        return self.cache[key]

    def pre_call(self, eng, st, call):
        self.at = (call.fr.fn["file"], call.node.get("l"))
        self.cur = (eng, call)
        n, nm = call.node, call.name or ""
        f = self.p.functions.get(call.fid)
        if n["k"] == "call" and len(call.args) == 1 and (f is not None and text_routine(f) or nm in BUILTIN):
            return [(st, ("call", "escape", (call.fid if f is not None else nm, eng.rval(st, call.args[0], n["a"][0]))))]
        if n["k"] == "ctor" and norm_name(n.get("rq") or "") == "std::basic_string" and len(call.args) >= 2 and call.args[1] == c(32) and n.get("a") and eng.typ(call.fr, n["a"][0].get("t")).get("k") == "int":
            return [(st, ("call", "blanks", (call.args[0],)))]
        if call.obj is not None and n.get("ext") and nm.endswith("::str") and not call.args and ("doc", call.obj) in st.props or (nm.endswith("stream::str") and not call.args and call.obj is not None):
            return [(st, ("call", "fragment", (st.props.get(("doc", call.obj), self.fmt.fragment),)))]
        if f is not None and f.get("body") and f["name"] == "operator<<" and len(call.args) == 2: return self.inserter(eng, st, call, f)
        if call.obj is not None and self.is_local(call.obj) and nm.startswith("std::basic_string::") and nm.rpartition("::")[2] in ("append", "operator+=", "push_back") and len(call.args) == 1:
            self.build(eng, st, call.obj, pieces(eng.rval(st, call.args[0], n["a"][0]), eng.typ(call.fr, n["a"][0].get("t"))), n, call.fr)
            return [(st, call.obj)]
        if nm == "absl::StrAppend" and call.args and self.is_local(call.args[0]):
            ps = ()
            for x, an in zip(call.args[1:], n["a"][1:]): ps += pieces(self.alpha(eng, st, x, an, call.fr), None)
            self.build(eng, st, call.args[0], norm(ps), n, call.fr)
            return [(st, c(0))]
        r = hexed(self, eng, st, call)
        return r if r is not None else super().pre_call(eng, st, call)

    def build(self, eng, st, a, ps, n, fr):
        """text put together before it is written: it is meant for where the document is now"""
        built = ("call", "built", (a,))
        old = eng.load(st, a)
        if old == built: start, cur = st.props[("sdoc", a)]
        else:
            start = cur = self.state(st, ("param",))
            ps = norm(pieces(old, {"k": "rec"}) + tuple(ps))
        if not (isinstance(cur, str)):
            try:
                for x in ps: cur = self.piece(st, cur, x, None)
            except Broken as b: cur = str(b)
        st.props[("sdoc", a)] = (start, cur)
        eng.do_store(st, a, built, n, fr)

    def inserter(self, eng, st, call, f):
        """an insertion routine of the program, analysed once per document state for any value"""
        stream = call.args[0]
        s = self.state(st, stream)
        if s == "broken": return [(st, stream)]
        key = (f["id"], self.fmt.name, s)
        if key not in self.cache:
            self.cache[key] = (frozenset([s]), {})
            r = Doc(self.p, self.fmt, self.headers, self.cache)
            e = Engine(self.p, r, K=200)
            s0 = St()
            s0.props["doc"] = s
            outs = e.run(f, st=s0)
            self.steps += e.steps
            self.cache[key] = (frozenset(x.props.get("doc", s) for x, v in outs), r.bad)
        outs, bad = self.cache[key]
        self.bad.update(bad)
        res = []
        for o in sorted(outs, key=str):
            t = st.copy()
            t.props[("doc", stream) if self.is_local(stream) else "doc"] = o
            res.append((t, stream))
        return res

    def state(self, st, stream):
        x = st.props.get(("doc", stream)) if self.is_local(stream) else st.props.get("doc")
        if x is None: x = self.fmt.fragment if self.is_local(stream) and self.fmt.fragment else self.fmt.start
        return x

    def is_local(self, a):
        while a[0] == "&f": a = a[1]
        return a[0] in ("&v", "&t")

    def emit(self, st, stream, ps):
        key = ("doc", stream) if self.is_local(stream) else "doc"
        s = self.state(st, stream)
        if s == "broken": return
        where = "%s:%s" % self.at
        try:
            for x in ps: s = self.piece(st, s, x, where)
        except Broken as b:
            self.bad.setdefault(where, str(b))
            s = "broken"
        st.props[key] = s

    def piece(self, st, s, x, where):
        eng = self.cur[0]
        if x[0] == "t":
            return self.fmt.text(s, x[1])
        v = x[1]
        while v[0] == "ctor" and v[1] in STRINGS and len(v[2]) == 1: v = v[2][0]
        if v[0] in ("&v", "&t", "&f"): v = eng.load(st, v)
        h = hex_of(v)
        if h:
            if any(k >= 16 ** max(1, h[1]) for k in consistent(eng, st, h[0])): raise Broken("number of unknown width")
            for ch in "0" * hexwidth(h[1]): s = self.fmt.step(s, ch)
            return s
        if x[0] == "n":
            for ch in "17": s = self.fmt.step(s, ch)
            return s
        if x[0] == "x" and v[0] == "char":
            if not self.fmt.in_string(s) and len(consistent(eng, st, v[1])) > 40: raise Broken("character of unknown text outside of quotes")
            out = {self.fmt.step(s, chr(k)) for k in consistent(eng, st, v[1])}
            if len(out) > 1: raise Broken("character of unknown text is written as it is")
            return out.pop() if out else s
        if v[0] == "call" and v[1] == "blanks": return self.fmt.step(s, " ")
        if v[0] == "call" and v[1] == "built":
            start, cur = st.props[("sdoc", v[2][0])]
            if isinstance(cur, str): raise Broken(cur)
            if start != s: raise Broken("text put together for another place is inserted")
            return cur
        if v[0] == "call" and v[1] == "fragment":
            if v[2][0] != self.fmt.fragment: raise Broken("text that is not complete is inserted")
            if s[0][-1:] + s[1] + s[2] != "".join(self.fmt.fragment): raise Broken("list elements are inserted outside of a list")
            return s
        if v[0] == "call" and v[1] == "escape":
            f = self.p.functions.get(v[2][0])
            self.n["escaped"] = self.n.get("escaped", 0) + 1
            if f is None: w = None if isinstance(self.fmt, BUILTIN[v[2][0]]) else "%s does not encode for this format" % v[2][0]
            else: w = escapes(self.p, f, self.fmt, self.cache)
            if w: raise Broken("%s: %s" % (f["name"] if f else v[2][0], w))
            if not self.fmt.in_string(s): raise Broken("text outside of quotes")
            return s
        if self.own(v):
            for ch in "aa": s = self.fmt.step(s, ch)
            return s
        raise Broken("text is written without being encoded (%s)" % show(v)[-60:])

    def own(self, v):
        """names of columns, which are the program's own"""
        todo = [v]
        while todo:
            x = todo.pop()
            if not isinstance(x, tuple): continue
            if x in self.headers: return True
            todo += x
        return False


def factory(p):
    """routine that creates printers, and the printer class per format"""
    for f in p.functions.values():
        if not production(f) or not f.get("body") or f.get("ctor") or f.get("ret", -1) < 0: continue
        T = f["_types"]
        en = [q for q in f["params"] if T[q["t"]]["k"] == "enum" and "Format" in (T[q["t"]].get("rec") or T[q["t"]].get("q") or T[q["t"]].get("s") or "")]
        if not en or "unique_ptr" not in (T[f["ret"]].get("s") or T[f["ret"]].get("q") or ""): continue
        return f, en[0]
    raise AnalysisError("routine that creates printers not found")


class Makes(OutputRule):
    def __init__(self, p): self.p, self.tf = p, textflow.TextFlow(p)

    def inline(self, eng, fn, fr): return False

    def pre_call(self, eng, st, call):
        nm = call.name or ""
        if nm in ("std::make_unique", "std::make_shared"):
            st.props["made"] = (self.tf.made_type(call.fr.fn, call.node), call.node.get("_id"))
        if call.node["k"] == "ctor" and norm_name(call.node.get("rq") or "") in self.recs: st.props["made"] = (norm_name(call.node["rq"]), None)
        return None


def check(p, rep, tier):
    fac, en = factory(p)
    T = fac["_types"]
    et = T[en["t"]]
    vals = p.enums[et.get("rec") or et.get("q") or et.get("s")]["vals"]
    mk = Makes(p)
    mk.recs = {norm_name(r["q"]) for r in p.records.values()}
    cache, classes = {}, {}
    for val in vals:
        fmt = next((x for w, x in FMT if w in val["n"].lower()), None)
        if fmt is None: continue
        e = Engine(p, mk)
        outs = e.run(fac, args=[c(val["v"]) if q is en else ("param", fac["id"], q["id"]) for q in fac["params"]])
        made = {s.props.get("made", (None, None))[0] for s, v in outs}
        where = "%s:%s" % (fac["file"], fac["line"])
        rep.ob("printer-per-format", val["n"], where, None not in made and len(made) == 1, "no printer of its own" if made == {None} else "prints %s" % sorted(map(str, made)))
        for m in made - {None}: classes.setdefault(m, {})[fmt] = val["n"]
    rep.require("printer-per-format", 3)
    for cls in sorted(classes):
        for fmt in classes[cls]: printer(p, rep, cls, fmt(), classes[cls][fmt], cache)
    rep.require("well-formed", 9)
    rep.require("completed", 3)
    callers(p, rep, fac, classes)
    compdb(p, rep, cache)


def printer(p, rep, cls, fmt, vname, cache):
    rec = next(r for r in p.records.values() if norm_name(r["q"]) == cls)
    rid = rec.get("id") or next(k for k, r in p.records.items() if r is rec)
    methods = [f for f in p.functions.values() if f.get("rec") == rid and f.get("body") and not f.get("implicit")]
    ctors = [f for f in methods if f.get("ctor") and len(f["params"]) >= 1 and not f["name"].startswith("~")]
    rows = [f for f in methods if f.get("virtual") and f["params"]]
    ends = [f for f in methods if f.get("virtual") and not f["params"] and f["name"] not in ("~" + rec["name"] if rec.get("name") else "",) and not f["name"].startswith("~")]
    if not ctors or not rows or not ends: raise AnalysisError("parts of printer %s not found" % cls)
    this = ("this", rid)
    headers = set()
    for f in rec["fields"]:
        t = rec["_types"][f["type"]]
        u = rec["_types"][t["to"]] if t["k"] == "ref" else t
        if "vector" in (u.get("s") or u.get("q") or ""): headers.add(("&f", this, f["id"]))
    for f in ctors:
        for q in f["params"]: headers.add(("param", f["id"], q["id"])) if "vector" in str(f["_types"][f["_types"][q["t"]].get("to", q["t"])].get("s")) else None
    # fields that hold rows rather than headers are written to after construction
    for f in rows:
        for n in fn_nodes(f):
            if n.get("k") == "call" and norm_name(n.get("n") or "").rpartition("::")[2] in ("push_back", "emplace_back", "insert", "operator=") and n.get("obj"):
                for x in walk(n["obj"]):
                    if x.get("k") == "mem": headers.discard(("&f", this, x.get("f")))

    def run(f, state):
        r = Doc(p, fmt, headers, cache)
        e = Engine(p, r, K=400)
        st = St()
        st.props["doc"] = state
        outs = e.run(f, st=st, this=this)
        rep.eng(e)
        return r, {s.props.get("doc", state) for s, v in outs}

    def judge(f, r, outs, rule="well-formed"):
        rep.ob(rule, "%s %s %s" % (fmt.name if vname is None else vname, f["name"] if not f.get("ctor") else "start", f["q"]), "%s:%s" % (f["file"], f["line"]), not r.bad, "; ".join("%s: %s" % x for x in sorted(r.bad.items())) or "%d states" % len(outs))

    reach = set()
    for f in ctors:
        r, outs = run(f, fmt.start)
        judge(f, r, outs)
        reach |= outs
    todo, bad, res = sorted(reach, key=str), {}, {f["id"]: (Doc(p, fmt, headers, cache), set()) for f in rows}
    while todo:
        s = todo.pop()
        if s == "broken": continue
        for f in rows:
            r, outs = run(f, s)
            res[f["id"]][0].bad.update(r.bad)
            res[f["id"]][1].update(outs)
            for o in outs - reach:
                if len(reach) > 12: raise AnalysisError("document of %s does not come to a fixed point" % cls)
                reach.add(o)
                todo.append(o)
    for f in rows: judge(f, *res[f["id"]])
    reach.discard("broken")
    for f in ends:
        left = set()
        for s in reach:
            r, outs = run(f, s)
            judge(f, r, outs)
            left |= {o for o in outs if o == "broken" or not fmt.final(o)}
        rep.ob("completed", "%s %s" % (vname, f["q"]), "%s:%s" % (f["file"], f["line"]), not left, "the document is left incomplete")


class Finishes(OutputRule):
    def __init__(self, p, fac, ends): self.p, self.fac, self.ends = p, fac, ends

    def inline(self, eng, fn, fr): return False

    def pre_call(self, eng, st, call):
        if call.fid == self.fac["id"]:
            st.props["open"] = call.node.get("l")
            self.seen = True
        elif call.fid in self.ends and call.obj is not None: st.props.pop("open", None)
        return None


def callers(p, rep, fac, classes):
    ends, rowm = set(), {}
    for f in p.functions.values():
        if not f.get("virtual") or norm_name(f.get("rec") or "") not in classes or f["name"].startswith("~"): continue
        for b in [f["id"]] + [b for b, os in p.overriders.items() if f["id"] in os]:
            if f["params"]: rowm[b] = f
            else: ends.add(b)
    n = 0
    tf = textflow.TextFlow(p)
    for f in p.functions.values():
        if not production(f) or not f.get("body") or fac["id"] not in [x for x, y in p.calls.get(f["id"], ())]: continue
        if f["id"] == fac["id"]: continue
        n += 1
        r = Finishes(p, fac, ends)
        e = Engine(p, r, K=400)
        outs = e.run(f, this=("this", f["rec"]) if f.get("rec") and not f.get("static") else None)
        rep.eng(e)
        left = sorted({s.props["open"] for s, v in outs if "open" in s.props})
        rep.ob("finished", f["q"], "%s:%s" % (f["file"], f["line"]), not left, "the printer created in line %s is not finished on every path" % left)
        # columns
        made, rows = [], []
        for x in nodes(p, f):
            if x.get("k") == "decl":
                for v in x["vars"]:
                    for y in walk(v.get("init") or {}):
                        if y.get("k") == "call" and y.get("f") == fac["id"]: made.append((v["id"], listed(y["a"][-1]), y))
            if x.get("k") == "call" and x.get("f") in rowm: rows.append(x)
        for x in rows:
            vs = {y.get("id") for y in walk(x["obj"]) if y.get("k") == "var"}
            hs = [h for v, h, y in made if v in vs]
            if len(hs) != 1 or hs[0] is None: continue
            cols = listed(x["a"][0])
            if cols is None: continue
            k = len(hs[0]) - (len(x["a"]) - 1)
            rep.ob("columns", "%s:%s" % (f["q"], rowm[x["f"]]["name"]), "%s:%s" % (f["file"], x.get("l")), len(cols) == k, "%d values for %d columns" % (len(cols), k))
        for v, h, y in made:
            if h is None: continue
            ps = [x for e_ in h for x in tf.pieces(f, e_)]
            odd = [x[-1] for x in ps if x[0] not in ("lit", "const") or x[0] == "lit" and not all(ch.isalnum() or ch in "-_." for ch in x[1])]
            rep.ob("headers-plain", f["q"] + ":" + ",".join(z.get("v", "") for e_ in h for z in walk(e_) if z.get("k") == "str"), "%s:%s" % (f["file"], y.get("l")), not odd, "column name %s would need quotes" % odd)
    if not n: raise AnalysisError("nobody creates printers")
    rep.require("finished", 3)


def nodes(p, f):
    todo, seen = [f], set()
    while todo:
        g = todo.pop()
        if g["id"] in seen: continue
        seen.add(g["id"])
        for n in fn_nodes(g):
            yield n
            if n.get("k") == "lambda" and n.get("f") in p.functions: todo.append(p.functions[n["f"]])


def listed(e):
    """elements of a braced list"""
    for x in walk(e):
        if x.get("k") == "init" and x.get("es") is not None: return x["es"]
    return None


def compdb(p, rep, cache):
    roots = []
    for f in p.functions.values():
        if not production(f) or not f.get("body") or f.get("rec") or f["id"].startswith("lambda@"): continue
        for n in fn_nodes(f):
            if n.get("k") == "call" and norm_name(n.get("n") or "").rpartition("::")[2] == "operator<<" and any(x.get("k") == "str" and x["v"].strip() == "[" and "\n" in x["v"] for x in walk({"a": n["a"]})):
                roots.append(f)
                break
    if not roots: raise AnalysisError("routine that writes the compilation database not found")
    for f in roots:
        fmt = Json(trailing=True)
        r = Doc(p, fmt, set(), cache)
        e = Engine(p, r, K=400)
        outs = e.run(f)
        rep.eng(e)
        w = "%s:%s" % (f["file"], f["line"])
        rep.ob("well-formed", f["q"], w, not r.bad, "; ".join("%s: %s" % x for x in sorted(r.bad.items())))
        left = {s.props.get("doc") for s, v in outs} - {"broken"}
        rep.ob("completed", f["q"], w, all(x is not None and fmt.final(x) for x in left), "the document is left incomplete")
