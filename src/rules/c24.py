"""C24: file patterns match literally except for their wildcards."""
import re
from bsa.engine import Engine, St, eq0, neg, show, C0, C1
from bsa.outputs import OutputRule
from bsa.prog import AnalysisError, norm_name, fn_nodes, walk
from bsa import textflow
from bsa.textflow import TextFlow, regex_quoter, shell_quoter, unquotes_only_wildcards, sub

TECHNIQUE = "interprocedural provenance (taint) analysis of text reaching regular-expression constructors, plus path-sensitive evaluation of the include/exclude predicate"
NOTE = ("Flow-insensitive: every definition of every string that can become part of a regular expression is followed to literals, quoting routines, or an option that is documented to hold a "
        "regular expression and is used whole. Own quoting routines count only if every path is shown to escape every special character. Of the wildcards, only the expression put in for a single star in file patterns is decided, by samples.")
EXPLANATION = ("Every construction of a regular expression is a sink; each piece of its text is a literal or constant of the program, the result of a verified quoting routine (afterwards only wildcards and separators "
               "may be rewritten), or the complete value of an option that holds a regular expression. A name is rejected only on paths where it was compared with all patterns. The file predicate returns true only on paths where the including matcher matched and the excluding one did not.")
UNITS = ["bant/util/glob-match-builder.cc", "bant/types-bazel.cc", "scripts/run-clang-tidy-cached.cc"]
REGEX = ("RE2", "std::basic_regex", "LazyRE2")
OPTION = re.compile(r"(^|_)(re|regex|regexp)_?$")


class Flow(TextFlow):
    tables = None
    def replace(self, f, e, env, seen, depth):
        def texts(n):
            for x in walk(n):
                if x.get("k") == "str":
                    yield x["v"]
                elif x.get("k") == "var":
                    # a constant with a text
                    if x.get("glob"):
                        g = next((g for g in self.p.globals.values() if g.get("q") == x["glob"] or g["id"] == x.get("id")), None)
                        inits = [g["init"]] if g and g.get("init") is not None else []
                    else:
                        inits = [d["init"] for y in fn_nodes(f) for d in [y] + list(y.get("ds") or ()) if isinstance(d, dict) and d.get("id") == x.get("id") and d.get("init") is not None and y.get("k") != "var"]
                    ss = [z["v"] for i in inits for z in walk(i) if z.get("k") == "str"]
                    if len(inits) == 1 and len(ss) == 1:
                        yield ss[0]
        strs = [x for x in texts(e["a"][1] if e["a"][0].get("k") not in ("init",) and len(e["a"]) == 2 and e["a"][1].get("k") != "un" else e["a"][0])]
        src = [] if e["a"][-1].get("k") == "un" else self.pieces(f, e["a"][0], env, seen, depth + 1)
        if any(x[0] == "raw" for x in src):
            return [x for x in src if x[0] == "raw"][:1]
        if f["file"].startswith("bant/util/glob-match") and len(strs) % 2 == 0:
            self.tables[(f["q"], self.where(f, e))] = strs
        why = unquotes_only_wildcards(strs)
        return [("raw", why, self.where(f, e))] if why else [("q",)]


def option(e, p):
    """the value of an option that holds a regular expression, used whole"""
    while e is not None:
        e = textflow.unload(e)
        if e is None: return False
        if e.get("k") == "mem":
            return bool(OPTION.search(e.get("n") or ""))
        if e.get("k") == "ctor" and textflow.ctor_arg(e) and len(textflow.ctor_arg(e)) == 1:
            e = textflow.ctor_arg(e)[0]; continue
        if e.get("k") == "init" and len(e["es"]) == 1:
            e = e["es"][0]; continue
        if e.get("k") == "call" and e.get("obj") is not None and norm_name(e.get("n") or "").rpartition("::")[2] in textflow.PASS - {"substr"}:
            e = e["obj"]; continue
        return False
    return False


def check(p, rep, tier):
    rc = {}
    def quoter(call, fr):
        nm = norm_name(call.get("n") or "")
        if nm == "RE2::QuoteMeta": return True
        f = p.functions.get(call.get("f"))
        return f is not None and regex_quoter(p, f, rc)
    tf = Flow(p, quoter, lambda k, n: None)
    tf.tables = {}
    for f in p.functions.values():
        if f["file"].endswith("_test.cc") or f["file"].startswith(("/verif", "..")) or not f.get("body"): continue
        seq = [x for x in fn_nodes(f)]
        for x in seq:
            arg = None
            if x.get("k") == "ctor" and norm_name(x.get("rq") or "") in REGEX and x["a"] and not x.get("cm_ctor"):
                arg = x["a"][0]
            elif x.get("k") == "call" and norm_name(x.get("n") or "") in ("std::make_unique", "std::make_shared") and x["a"] and tf.made_type(f, x) in REGEX:
                arg = x["a"][0]
            elif x.get("k") == "call" and x.get("obj") is not None and norm_name(x.get("rq") or "") == "std::basic_regex" and norm_name(x["n"]).rpartition("::")[2] in ("assign", "operator=") and x["a"]:
                if norm_name(tf.T(f, x["a"][0]).get("q") or "") in REGEX: continue
                arg = x["a"][0]
            if arg is None: continue
            where = "%s:%s" % (f["file"], x.get("l"))
            if option(arg, p):
                rep.ob("regex-option", "regex in %s" % f["q"], where, True); continue
            ps = tf.pieces(f, arg)
            bad = next((y for y in ps if y[0] == "raw"), None)
            rep.ob("quoted", "regex in %s" % f["q"], where, bad is None, bad and "text that was not quoted (%s at %s) becomes part of a regular expression" % (bad[1], bad[2]))
            rep.functions.add(f["id"])
        for x in seq:
            if x.get("k") == "call" and norm_name(x.get("n") or "") in ("RE2::PartialMatch", "RE2::FindAndConsume", "RE2::Consume", "RE2::FullMatch") and len(x["a"]) >= 2:
                ps = tf.pieces(f, x["a"][1])
                if any(y[0] == "q" for y in ps):
                    rep.ob("whole-name", "match in %s" % f["q"], "%s:%s" % (f["file"], x.get("l")), norm_name(x["n"]) == "RE2::FullMatch",
                           "a pattern is compared with only a part of the name")
    rep.functions |= tf.analysed
    rep.steps += tf.steps
    for (q, where), strs in sorted(tf.tables.items()):
        for old, new in zip(strs[::2], strs[1::2]):
            if old == "\\*":
                rep.ob("star-one-component", "single star in %s" % q, where, one_component(new), "the expression %r for a single star does not match exactly the texts without '/'" % new)
    exclude(p, rep)
    any_pattern(p, rep)
    rep.require("quoted", 3)
    rep.require("exclude-wins", 1)


def one_component(rx):
    try:
        r = re.compile(rx, re.S)
    except re.error:
        return True       # not understood
    return all(r.fullmatch(x) for x in ("", "a", "a.cc", "a-b_c", "*", ".", "\n")) and not any(r.fullmatch(x) for x in ("/", "a/", "/a", "a/b", "a/b/c"))


def any_pattern(p, rep):
    """a name is rejected only after all patterns, verbatim or not, were found not to match it"""
    for f in list(p.functions.values()):
        if not f["file"].startswith("bant/util/glob-match") or not f.get("body") or not f.get("rec"): continue
        ns = [norm_name(x.get("n") or "") for x in fn_nodes(f) if x.get("k") == "call"]
        if "RE2::FullMatch" not in ns: continue
        sets = any(n.rpartition("::")[2] in ("contains", "count", "find") for n in ns)
        e = Engine(p, Pred(p), max_steps=20000)
        for st, v in e.run(f):
            if v is None: continue
            s = st.copy()
            if not e.assume(s, v, False): continue
            no = {t[1].rpartition("::")[2] for t, truth in atoms(s.facts) if not truth}
            none = any(t[0] == "eq0" and t[1][0] == "size" and truth for t, truth in s.facts.items())
            rx = "FullMatch" in no or any("::pattern'" in repr(t) for t in s.facts)
            vb = not sets or none or bool(no & {"contains", "find"})
            where = "%s:%s" % (f["file"], f["line"])
            rep.ob("any-pattern", f["q"], where, rx, "a name can be rejected without having been compared with the patterns that have wildcards")
            rep.ob("any-pattern", f["q"], where, vb, "a name can be rejected without having been looked up among the patterns without wildcards")
        rep.eng(e)


def atoms(facts):
    """calls known to be true or false; looking up is finding something else than the end"""
    for t, truth in facts.items():
        if t[0] == "eq0": t, truth = t[1], not truth
        if t[0] == "not": t, truth = t[1], not truth
        if t[0] == "eq" and len(t) == 3:
            for a, b in ((t[1], t[2]), (t[2], t[1])):
                if a[0] == "call" and a[1].endswith("::find") and b[0] == "call" and b[1].endswith(("::end", "::cend")):
                    t, truth = a, not truth
                    break
        if t[0] == "call": yield t, truth


class Pred(OutputRule):
    def __init__(self, p): self.p = p; self.lams = []
    def inline(self, eng, fn, fr):
        return fn["file"].startswith("bant/util/glob-match") and not any(x.get("k") in ("for", "foreach", "while", "do") for x in fn_nodes(fn)) and fn["name"] not in self.opaque
    opaque = ()
    def pre_call(self, eng, st, call):
        r = super().pre_call(eng, st, call)
        if r is not None: return r
        nm = call.name or ""
        cls, _, short = nm.rpartition("::")
        if short in ("contains", "count") and ("set" in cls or "map" in cls) and call.obj is not None and len(call.args) == 1:
            t = ("call", cls + "::contains", (eng.load(st, call.obj), eng.rval(st, call.args[0], call.node["a"][0])))
            eng.boolv.add(t)
            if short == "contains":
                return [(st, t)]
            return [(s, C1 if v else C0) for s, v in ((st, True), (st.copy(), False)) if eng.assume(s, t, v)]
        f = self.p.functions.get(call.fid)
        if f is not None and not self.inline(eng, f, call.fr):
            args = tuple(eng.rval(st, a, n) for a, n in zip(call.args, call.node["a"]))
            if call.obj is not None: args = (call.obj,) + args
            return [(st, ("call", "fn:" + f["name"], args))]
        return None


def exclude(p, rep):
    """the predicate built from including and excluding patterns"""
    # the containers of including and excluding patterns: what the two adding routines insert into
    adders = [f for f in p.functions.values() if f.get("rec") and norm_name(f["rec"]).endswith("GlobMatchBuilder") and len(f["params"]) == 1 and f.get("body")]
    sets = {}
    for f in adders:
        for x in fn_nodes(f):
            if x.get("k") == "call" and x.get("obj") is not None and norm_name(x.get("n") or "").rpartition("::")[2] in ("insert", "emplace", "push_back", "emplace_back"):
                m = textflow.unload(x["obj"])
                if m.get("k") == "mem": sets["exc" if "xclude" in f["name"] else "inc"] = m["f"]
    if set(sets) != {"inc", "exc"}:
        raise AnalysisError("containers of including and excluding patterns not found")
    rep.ob("separate-patterns", "include and exclude", adders[0]["file"], sets["inc"] != sets["exc"], "including and excluding patterns are kept in the same container")
    builders = [f for f in p.functions.values() if f.get("rec") == adders[0]["rec"] and not f["params"] and f.get("body") and
                {y["f"] for y in fn_nodes(f) if y.get("k") == "mem"} >= {sets["inc"], sets["exc"]} and not f.get("ctor")]
    if not builders and not any(y.get("k") == "mem" and y["f"] == sets["exc"] for f in p.functions.values() if f not in adders for y in fn_nodes(f)):
        rep.ob("exclude-wins", "file predicate", adders[0]["file"], False, "the excluding patterns are never consulted")
        return
    if not builders:
        raise AnalysisError("routine building the file predicate not found")
    for f in builders:
        rule = Pred(p)
        e = Engine(p, rule, max_steps=80000)
        n = 0
        for st, v in e.run(f):
            lam = find_lam(e, st, v)
            if lam is None:
                raise AnalysisError("predicate returned by %s not understood" % f["q"])
            fn = p.functions[lam[1]]
            from bsa.engine import Frame
            arg = ("param", "path")
            outs = e.call_lambda(lam, st.copy(), [arg], Frame(f, (f["id"],), ("this", f["rec"]), None, 0, (f["id"],)), {"l": f["line"], "_id": -5, "k": "call"})
            for s, r in outs:
                n += 1
                if r == C0: continue
                # what must hold if r is true
                s2 = s.copy()
                if not e.assume(s2, r, True): continue
                got = {"inc": None, "exc": None}
                for t, truth in atoms(s2.facts):
                    for k in ("inc", "exc"):
                        other = "exc" if k == "inc" else "inc"
                        if t[0] == "call" and mentions(t, sets[k]) and not mentions(t, sets[other]): got[k] = bool(got[k]) or truth
                where = "%s:%s" % (f["file"], f["line"])
                rep.ob("exclude-wins", f["q"], where, got["exc"] is False, "a path can be accepted without the excluding patterns having been found not to match")
                rep.ob("include-needed", f["q"], where, got["inc"] is True, "a path can be accepted without an including pattern matching")
        rep.eng(e)
        if not n: raise AnalysisError("predicate of %s has no outcome" % f["q"])


def mentions(t, field):
    return any(isinstance(x, tuple) and x and x[0] in ("&f", "fld") and x[2] == field for x in sub(t))


def find_lam(e, st, v):
    seen = 0
    while v is not None and seen < 8:
        seen += 1
        if v[0] == "lam": return v
        if v[0] in ("&v", "&t", "&f"):
            v = e.load(st, v); continue
        if v[0] == "ctor" and v[2]: v = v[2][0]; continue
        return None
    return None
