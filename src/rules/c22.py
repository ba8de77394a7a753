"""C22: locations zero-based inside, one-based and inclusive when printed."""
from bsa import lin
from bsa.engine import Engine, Rule, St, c, show, eq0, ge0, fld, C0, C1, neg
from bsa.outputs import OutputRule, norm, struct, shows, pieces
from bsa.prog import AnalysisError, norm_name, fn_nodes, walk

TECHNIQUE = 'output-sequence summaries of the printing routines on the resolved AST'
NOTE = 'Every path of each printing routine is summarised to the exact sequence of text and numbers written and compared to the required form for all locations and ranges. Assumes standard streams print integers in decimal.'
EXPLANATION = (
  "Summarises, for every path of the stream-output operators of LineColumn, LineColumnRange and FileLocation, the exact sequence "
  "of text and linear expressions written, and compares it with the required form in every case (same line with more than one "
  "character, same line, several lines) the path's branch conditions allow. Both ways of formatting a location are "
  "summarised and must write exactly the location the locator reports; fixed locators return what they were constructed with. "
  "No other code prints raw line or column numbers.")
UNITS = ["bant/frontend/source-locator.cc"]


class Rl(OutputRule):
    def __init__(self, p):
        self.p, self.asked = p, []

    def pre_call(self, eng, st, call):
        r = super().pre_call(eng, st, call)
        if r is not None:
            return r
        if (call.name or "").endswith("::GetLocation") and call.node.get("virt"):
            v = struct(eng, self.p, "bant::FileLocation", "loc", {})
            st.props["asked"] = (call.obj, eng.rval(st, call.args[0], call.node["a"][0]))
            return [(st, v)]
        return None


def cases(e, s, L, where):
    """the required text of a range in each case compatible with the path"""
    sl, sc, el, ec = (L[where + x] for x in (".start.line", ".start.col", ".end.line", ".end.col"))
    one = lambda v: lin.add(v, C1)
    head = (("n", one(sl)), ("t", ":"), ("n", one(sc)))
    same = eq0(lin.add(sl, el, -1))
    more = ge0(lin.add(lin.add(ec, sc, -1), c(-2)))   # more than one character
    out = []
    for name, conds, mid in (
            ("several columns of one line", [(same, True), (more, True)], (("t", "-"), ("n", ec))),
            ("single character", [(same, True), (more, False)], ()),
            ("several lines", [(same, False)], (("t", ":"), ("n", one(el)), ("t", ":"), ("n", ec)))):
        s2 = s.copy()
        if all(e.assume(s2, t, v) for t, v in conds):
            out.append((name, norm(head + mid + (("t", ":"),))))
    return out


def check(p, rep, tier):
    S = ("param", "out")
    def op(rec):
        r = []
        for f in p.functions.values():
            if f["name"] == "operator<<" and len(f["params"]) == 2:
                t = f["_types"][f["params"][1]["t"]]
                if t["k"] == "ref": t = f["_types"][t["to"]]
                if t.get("rec") == rec: r.append(f)
        if len(r) != 1:
            raise AnalysisError("stream output of %s not found" % rec)
        return r[0]
    W = lambda f: "%s:%s" % (f["file"], f["line"])

    def run(f, val):
        e = Engine(p, Rl(p))
        st = St()
        t = f["_types"][f["params"][1]["t"]]
        if t["k"] == "ref":
            a = ("param", "valaddr")
            e.write(st, a, val)
        else:
            a = val
        r = e.run(f, st, this=None, args=[S, a])
        rep.eng(e)
        return e, r

    f = op("bant::LineColumn")
    L = {}
    e, res = run(f, struct(None, p, "bant::LineColumn", "p", L))
    want = (("n", lin.add(L["p.line"], C1)), ("t", ":"), ("n", lin.add(L["p.col"], C1)))
    for s, v in res:
        got = s.props.get(("out", S), ())
        rep.ob("position-text", "LineColumn", W(f), got == want, "position printed as %s, expected %s" % (shows(got), shows(want)))
        rep.ob("stream-result", "LineColumn", W(f), v == S, "output operator does not return its stream")

    def ranged(f, rec, path, prefix, nm):
        L = {}
        e, res = run(f, struct(None, p, rec, "p", L))
        pre = tuple(("s", L["p" + x[1]]) if x[0] == "field" else x for x in prefix)
        for s, v in res:
            got = s.props.get(("out", S), ())
            cs = cases(e, s, L, path)
            rep.ob("stream-result", nm, W(f), v == S, "output operator does not return its stream")
            for name, want in cs:
                want = norm(pre + want)
                rep.ob("range-text", nm + ": " + name, W(f), got == want, "%s is printed as %s, expected %s" % (name, shows(got), shows(want)))
        for k in ("several columns of one line", "single character", "several lines"):
            rep.ob("range-covered", nm + ": " + k, W(f), any(o[1] == nm + ": " + k for o in rep.obs), "no path prints this case")
    ranged(op("bant::LineColumnRange"), "bant::LineColumnRange", "p", (), "LineColumnRange")
    ranged(op("bant::FileLocation"), "bant::FileLocation", "p.line_column_range",
           (("field", ".filename"), ("t", ":")), "FileLocation")

    # all ways of formatting
    L = {}
    struct(None, p, "bant::FileLocation", "loc", L)
    n = 0
    for f in p.fns(rec="bant::SourceLocator", name="Loc"):
        n += 1
        e = Engine(p, Rl(p))
        this = ("this", "bant::SourceLocator")
        args = [("param", "arg%d" % i) for i in range(len(f["params"]))]
        to_stream = len(args) == 2
        text = args[-1]
        nm = "Loc to stream" if to_stream else "Loc to string"
        for s, v in e.run(f, this=this, args=args):
            got = s.props.get(("out", args[0]), ()) if to_stream else (v[1] if v[0] == "cat" else (("x", v),))
            asked = s.props.get("asked")
            rep.ob("loc-source", nm, W(f), asked == (this, text), "the location formatted is not that of the given text")
            if to_stream:
                rep.ob("stream-result", nm, W(f), v == args[0], "does not return its stream")
            for name, want in cases(e, s, L, "loc.line_column_range"):
                want = norm((("s", L["loc.filename"]), ("t", ":")) + want)
                rep.ob("loc-text", nm + ": " + name, W(f), got == want, "location is formatted as %s, expected %s" % (shows(got), shows(want)))
        rep.eng(e)
    if n < 2:
        raise AnalysisError("SourceLocator::Loc not found")

    # fixed locators
    fr = p.rec1("bant::FixedSourceLocator")
    locf = [x for x in fr["fields"] if fr["_types"][x["type"]].get("rec") == "bant::FileLocation"]
    if len(locf) != 1:
        raise AnalysisError("FixedSourceLocator keeps no location")
    this = ("this", fr["id"])
    la = ("&f", this, locf[0]["id"])
    for f in p.fns(rec="bant::FixedSourceLocator"):
        if f.get("implicit"): continue
        e = Engine(p, Rl(p))
        if f.get("ctor"):
            L = {}
            val = struct(e, p, "bant::FileLocation", "given", L)
            st = St(); a = ("param", "valaddr"); e.write(st, a, val)
            t = f["_types"][f["params"][0]["t"]]
            for s, v in e.run(f, st, this=this, args=[a if t["k"] == "ref" else val]):
                rep.ob("fixed-location", "constructor", W(f), e.load(s, la) == val, "stores %s" % show(e.load(s, la)))
        elif f["name"] == "GetLocation":
            st = St()
            val = struct(e, p, "bant::FileLocation", "kept", {}); e.write(st, la, val)
            for s, v in e.run(f, st, this=this):
                rep.ob("fixed-location", "GetLocation", W(f), v == val, "reports %s instead of its location" % show(v))
        elif f["name"] == "GetSurroundingLine":
            arg = ("param", "text")
            for s, v in e.run(f, this=this, args=[arg]):
                rep.ob("fixed-location", "GetSurroundingLine", W(f), v == arg, "returns %s instead of the text" % show(v))
        rep.eng(e)
    rep.require("fixed-location", 3)
    # nobody prints raw positions
    for f in p.functions.values():
        if f["file"] == "bant/frontend/source-locator.cc":
            continue
        for n in fn_nodes(f):
            if n.get("k") == "call" and (n.get("n") or "").endswith(("operator<<", "StrCat", "StrAppend")):
                for a in n.get("a", ()):
                    raw = [x for x in walk(a) if x.get("k") == "mem" and x["f"].startswith("bant::LineColumn::")]
                    if raw:
                        plus = any(x.get("k") == "bin" and x["op"] == "+" for x in walk(a))
                        rep.ob("raw-print", f["q"], "%s:%s" % (f["file"], n["l"]), plus, "prints a zero-based position")
    rep.notes.append("functions scanned for raw position output: %d" % len(p.functions))
