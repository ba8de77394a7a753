"""C10: a removal of a dependency is proposed only with complete knowledge."""
import re
from bsa.edits import Edits, Guard, subterms, sets_of_targets
from bsa.engine import Engine, Rule, C0, C1, c, show
from bsa.prog import AnalysisError, norm_name, fn_nodes, walk
from bsa import lin
from bsa.cmdline import production, strip

TECHNIQUE = "path-sensitive analysis of the facts tested before each proposed removal; the flag for complete knowledge is followed through the routine that clears it, round by round of its loops"
NOTE = ("That an include found in the header index is the header the compiler would take, and which lines of a C++ source are includes (the program skips what looks like being inside a string), are not decided. That the contents of files are read completely is C13/C15's, that lists are evaluated rightly is C15's.")
EXPLANATION = ("At every point where a removal is handed to the edit callback, each path has to have tested: the flag for complete knowledge as left by the routine that looks at the sources; that the dependency is known not to be linked unconditionally (predicates are certified on their own paths); that its line has no request to keep it, or that those are to be ignored; that the lists of sources were evaluated completely. "
               "In the routine that looks at the sources, every round of the loop over the sources has to have read the source or cleared the flag, every round of the loop over its includes has to have found the header among the target's own or found its providers and taken them over, or cleared the flag; nothing sets the flag again.")
UNITS = ["bant/tool/dwyu.cc", "bant/tool/canon-targets.cc", "bant/tool/edit-callback.cc", "bant/frontend/named-content.cc", "bant/frontend/parsed-project.cc", "bant/frontend/elaboration.cc", "bant/util/file-utils.cc"]

LOOPS = ("foreach", "for", "while", "do")


def flag_param(f):
    for i, x in enumerate(f["params"]):
        t = f["_types"][x["t"]]
        if t["k"] in ("ptr", "ref"):
            b = f["_types"][t["to"]]
            if b.get("k") == "bool" and not b.get("const") and "const" not in (t.get("s") or ""): return i
    return None


def list_param(f):
    return next((i for i, x in enumerate(f["params"]) if "vector<std::basic_string_view" in (f["_types"][x["t"]].get("s") or "")), None)


def names(t):
    """fields in an address"""
    if not isinstance(t, tuple): return
    if t and t[0] == "&f": yield t[2].rpartition("::")[2]
    for x in t:
        if isinstance(x, (tuple, frozenset)): yield from names(x)


class Remove(Guard):
    def post_call(self, eng, st, call, ret):
        super().post_call(eng, st, call, ret)
        for a, d in zip(call.args, call.node.get("a", ())):
            v = eng.rval(st, a, d) if d.get("lv") else a
            for n in set(names(a)) | set(names(v)):
                if n in ("srcs_list", "hdrs_list"): st.props[n] = True
        f = self.ed.p.functions.get(call.fid)
        if f is None or not f.get("body"): return
        i = flag_param(f)
        if i is None or i >= len(call.args) or list_param(f) is None: return
        st.props["looked"] = (call.node.get("_id"), call.fr.ctx)

    def pre_call(self, eng, st, call):
        f = self.ed.p.functions.get(call.fid)
        if f is not None and f.get("body") and call.node["k"] == "call":
            i, j = flag_param(f), list_param(f)
            if i is not None and j is not None and max(i, j) < len(call.args):
                a = call.args[i]
                self.ed.losses[call.fid] = i
                st.props["before"] = eng.load(st, a)
                st.props["lists"] = tuple(n for n in ("srcs_list", "hdrs_list") if st.props.get(n))
                return super().pre_call(eng, st, call)
        return super().pre_call(eng, st, call)


def reaches(p, fid, pred, depth=6):
    seen, todo = set(), [(fid, 0)]
    while todo:
        x, d = todo.pop()
        if x in seen: continue
        seen.add(x)
        f = p.functions.get(x)
        if f is None: continue
        if pred(f): return True
        if d < depth:
            todo += [(y, d + 1) for y, n in p.calls.get(x, ())]
            todo += [(y, d + 1) for y in p.overriders(x)] if callable(getattr(p, "overriders", None)) else [(y, d + 1) for y in getattr(p, "overriders", {}).get(x, ())]
    return False


def check(p, rep, tier):
    ed = Edits(p, rep)
    def judge(g, eng, st, call, vals, kind):
        if kind != "kRemove": return None
        X = vals[2]
        res = {"_given": all(any(y[0] == "param" for y in subterms(x)) for x in (X,))}
        D = set()
        for s, r in g.calls.items():
            if s[0] == "sym" and (X in r.vals or X in r.args): D |= {("val", s), s}
        # infeasible: the flag was down before the sources were looked at
        looked = st.props.get("looked")
        known = None
        if looked is None: known = "the sources of the target have not been looked at"
        else:
            flag = ("sym", ("outN",) + looked)
            if not any(k and t[0] == "sym" and t[1][0].startswith("out") and looked[0] in t[1] for t, k in g.facts(eng, st)):
                known = "the flag for complete knowledge is not tested on this path"
        before = st.props.get("before")
        if before == C0 and known is None: return {"_given": False}
        res["complete"] = known
        if known is None:
            s2 = st.copy()
            if before is not None and before[0] != "c" and not eng.assume(s2, before, True): return {"_given": False}
            for attr in ("srcs", "hdrs"):
                ok = False
                for t, k in g.facts(eng, s2):
                    r = g.calls.get(t)
                    if r is not None and k and ("str", attr) in r.vals + r.args and r.fid in p.functions: ok = ed_full(ed, r.fid) or ok
                res["evaluated-" + attr] = None if ok else "it is not known on this path whether %s could be evaluated completely" % attr
            res["all-sources"] = None if set(st.props.get("lists", ())) == {"srcs_list", "hdrs_list"} else "only %s are looked at" % (", ".join(st.props.get("lists", ())) or "neither srcs nor hdrs")
        res["notalwayslink"] = None if D and g.holds(eng, st, "notalwayslink", {"dep": D}) else "nothing tested on this path shows that the dependency is known and not linked unconditionally"
        res["keep"] = keep(p, g, eng, st, X)
        return res

    def ed_full(ed, fid):
        if fid not in full: full[fid] = certify_full(ed, fid)
        return full[fid]
    full = {}

    ed_run = ed.run
    def run(fn, collect=None, K=None, rule=None): return ed_run(fn, collect, K, rule or Remove(ed, fn))
    ed.run = run
    got = ed.proposals(judge)
    ed.run = ed_run
    n = 0
    for (q, w, rq), o in sorted(got.items()):
        rep.ob("removal-" + rq, q, w, o["miss"] is None, o["miss"] or "on %d paths" % o["n"])
    rep.require("removal-complete", 1)
    rep.require("removal-notalwayslink", 1)
    rep.require("removal-keep", 1)
    for fid, i in sorted(ed.losses.items()): loss(p, rep, ed, p.functions[fid], i)
    if not ed.losses: raise AnalysisError("no routine clears the flag for complete knowledge")
    surrounding(p, rep)
    dropped(p, rep)


KEEP = ["#keep", "# keep", "\":foo\",  # build_cleaner keep", "\":foo\", # do keep this"]


def regex_of(p, node, fr_fn):
    """the pattern of a lazily constructed regular expression: the string its variable is initialised with"""
    refs = {x.get("v") or x.get("id") or x.get("n") for x in walk(node) if x.get("k") == "var"}
    res = []
    for n in fn_nodes(fr_fn):
        if n.get("k") == "decl":
            for v in n["vars"]:
                if v["id"] in refs:
                    res += [x["v"] for x in walk(v.get("init") or {}) if x.get("k") == "str"]
    for g in p.globals.values():
        if g.get("id") in refs: res += [x["v"] for x in walk(g.get("init") or {}) if x.get("k") == "str"]
    return res


def keep(p, g, eng, st, X):
    for t, k in g.facts(eng, st):
        if k and "ignore_keep_comment" in set(names(t)): return None
        r = g.calls.get(t)
        if r is None or k or not r.name.endswith(("PartialMatch", "PartialMatchN")): continue
        lines = [x for a in r.args + r.vals for x in ([a] if a in g.calls else [])]
        if not any(g.calls[x].name.endswith("GetSurroundingLine") and X in g.calls[x].vals + g.calls[x].args for x in lines): continue
        owner = g.fn
        pats = regex_of(p, r.node, owner)
        if not pats:
            pats = regex_of(p, r.node, r.fr.fn)
        if len(pats) != 1: raise AnalysisError("cannot tell the pattern for comments that request to keep a line (%s)" % r.where)
        bad = [x for x in KEEP if not re.search(pats[0], x)]
        if not bad: return None
        return "the pattern %r does not recognise the request %r" % (pats[0], bad[0])
    return "the line of the dependency is not known to be free of a request to keep it"


class Full(Guard):
    """elements of a list that are looked at"""

    def __init__(self, ed, f):
        super().__init__(ed, f)
        self.rounds, self.inner = [], []

    def on_loop_back(self, eng, head, st, node, fr):
        t = (fr.types[node["range"]["t"]].get("s") or "") if node.get("range") else ""
        if "List" in t or "ArenaDeque" in t or True:
            self.rounds.append((node, [(x, k) for x, k in self.facts(eng, st)], fr))


def certify_full(ed, fid):
    """true only if each element of the list is a plain string"""
    f = ed.p.functions[fid]
    g = Full(ed, f)
    ed.run(f, rule=g)
    loops = [n for n in fn_nodes(f) if n.get("k") in LOOPS]
    inner = [n for n in loops if not any(m is not n and m.get("k") in LOOPS for m in walk(n["b"]))]
    if not inner: return False
    for n in inner:
        seen = False
        for node, facts, fr in g.rounds:
            if node is not n: continue
            seen = True
            if not any(not k and t[0] == "eq0" and t[1] in g.calls and g.calls[t[1]].name.endswith(("CastAsScalar", "CastAsString")) for t, k in facts): return False
        if not seen: return False
    return True


class Loss(Guard):
    def __init__(self, ed, f, i, reader, lookups):
        super().__init__(ed, f)
        self.i, self.reader, self.lookups = i, reader, lookups
        self.obs, self.sets = {}, {}
        self.pv = ("param", f["id"], f["params"][i]["id"])
        self.own = list_param(f)
        loops = [n for n in fn_nodes(f) if n.get("k") in LOOPS]
        ids = {}
        for x, nd in ed.p.calls.get(f["id"], ()): ids.setdefault(x, set()).add(nd.get("_id"))
        def has(n, what): return any(x.get("_id") in ids.get(y, ()) for x in walk(n["b"]) for y in what)
        rl = [n for n in loops if has(n, reader)]
        self.sources = [n for n in rl if not any(m is not n and any(x is n for x in walk(m["b"])) for m in rl)]
        ll = [n for n in loops if has(n, lookups)]
        self.includes = [n for n in ll if not any(m is not n and any(x is m for x in walk(n["b"])) for m in ll)]
        self.inside = {n["_id"]: {x.get("_id") for x in walk(n["b"])} for n in self.sources + self.includes}
        self.breaks = {}
        for n in self.sources + self.includes:
            for x in self.own_breaks(n["b"]): self.breaks[x.get("_id")] = n

    def own_breaks(self, n):
        if isinstance(n, list):
            for x in n: yield from self.own_breaks(x)
        elif isinstance(n, dict):
            if n.get("k") == "break": yield n
            if n.get("k") in LOOPS or n.get("k") in ("switch", "lambda"): return
            for x in n.values():
                if isinstance(x, (dict, list)): yield from self.own_breaks(x)

    def down(self, eng, st): return eng.load(st, self.flag(eng, st)) == C0

    def flag(self, eng, st): return self.pv

    def on_loop_body(self, eng, st, node, fr):
        if node["_id"] not in self.inside: return
        for k in [k for k in st.props if isinstance(k, tuple) and k[0] == "here" and k[1] in self.inside[node["_id"]]]: del st.props[k]
        for t in list(st.facts):
            r = self.calls.get(t[1] if t[0] in ("has", "not") else t)
            if r is not None and r.node.get("_id") in self.inside[node["_id"]] or any(x[0] == "found" and x[3] in self.inside[node["_id"]] for x in subterms(t)): del st.facts[t]

    def inline(self, eng, fn, fr): return fn["id"].startswith("lambda@")

    def touches(self, fn):
        k = ("inl", fn["id"])
        if k not in self.ed.memo:
            self.ed.memo[k] = any(x in self.reader or x in self.lookups for x, n in self.ed.p.calls.get(fn["id"], ())) or any(n.get("k") == "var" and self.fn["params"][self.i]["id"] in (n.get("v"), n.get("id")) for n in fn_nodes(fn)) or any(n.get("k") == "bool" or n.get("k") == "asg" for n in fn_nodes(fn))
        return self.ed.memo[k]

    def pre_lambda(self, eng, st, lam, args, fr, node):
        fn = self.ed.p.functions.get(lam[1])
        if fn is None or self.touches(fn): return None
        self.taken(eng, st, lam[1], norm_name(node.get("n") or ""), node, args)
        return [(st, eng.fresh("lam", node, fr))]

    def pre_call(self, eng, st, call):
        self.taken(eng, st, call.fid, norm_name(call.name or ""), call.node, call.args)
        return super().pre_call(eng, st, call)

    def taken(self, eng, st, fid, name, node, args):
        """the providers found go into the result"""
        for a, d in zip(args, node.get("a", ())):
            v = eng.rval(st, a, d) if d.get("lv") else a
            for x in (a, v):
                for y in subterms(x):
                    if (y[0] == "found" and self.index_addr(y[1]) or y in self.calls and self.calls[y].fid in self.lookups) and self.collects(fid, name):
                        n = y[3] if y[0] == "found" else self.calls[y].node.get("_id")
                        st.props[("here", n, "used")] = True

    def collects(self, fid, name):
        if self.ed.p.functions.get(fid) is None: return name.rpartition("::")[2] in ("push_back", "emplace_back", "insert", "emplace")
        k = fid
        if k not in self.ed.memo:
            self.ed.memo[k] = reaches(self.ed.p, k, lambda f: any(n.get("k") == "call" and norm_name(n.get("n") or "").rpartition("::")[2] in ("push_back", "emplace_back", "insert", "emplace") and isinstance(n.get("obj"), dict) and n["obj"].get("t", -1) is not None and n["obj"].get("t", -1) >= 0 and "BazelTarget" in (f["_types"][n["obj"]["t"]].get("s") or "") and "set<" in (f["_types"][n["obj"]["t"]].get("s") or "") for n in fn_nodes(f)), 2)
        return self.ed.memo[k]

    def on_store(self, eng, st, addr, v, node, fr):
        if addr == self.flag(eng, st):
            ok = v == C0 or v == eng.load(st, addr)
            w = fr.where(node) if hasattr(fr, "where") else str(node.get("l"))
            self.sets[w] = self.sets.get(w, True) and ok

    def on_loop_back(self, eng, head, st, node, fr): self.round(eng, st, node)

    def on_break(self, eng, st, node, fr):
        n = self.breaks.get(node.get("_id"))
        if n is not None:
            self.round(eng, st, n)
            o = self.obs.setdefault(("no-skipping", n["_id"], n["l"]), [0, None])
            o[0] += 1
            if not self.down(eng, st): o[1] = "the loop is left before everything was looked at"

    def round(self, eng, st, node):
        if any(node is n for n in self.sources):
            o = self.obs.setdefault(("source-read", node["_id"], node["l"]), [0, None])
            o[0] += 1
            if not self.down(eng, st) and not any(k and t[0] == "has" and t[1] in self.calls and self.calls[t[1]].fid in self.reader for t, k in self.facts(eng, st)):
                o[1] = "a source may not have been read, and the flag for complete knowledge stays set"
        if any(node is n for n in self.includes):
            o = self.obs.setdefault(("include-accounted", node["_id"], node["l"]), [0, None])
            o[0] += 1
            if not self.down(eng, st):
                why = self.accounted(eng, st)
                if why: o[1] = why

    def accounted(self, eng, st):
        why = "an include may not have been accounted for, and the flag for complete knowledge stays set"
        for t, k in self.facts(eng, st):
            if t[0] == "eq" and not k and any(x[0] == "end" for x in t[1:]):
                f = next((x for x in t[1:] if x[0] == "found"), None)
                if f is not None and self.index_addr(f[1]):
                    if ("here", f[3], "used") in st.props: return None
                    why = "the providers found for an include are not taken over"
                continue
            if not k: continue
            r = self.calls.get(t[1] if t[0] == "has" else t)
            if r is None or r.fid not in self.lookups: continue
            if not self.keyed(eng, st, r): continue
            if t[0] == "has":
                if ("here", r.node.get("_id"), "used") in st.props: return None
                why = "the providers found for an include are not taken over"
            elif own_header(self.ed, r.fid): return None
            else: why = "%s may say that a header is among the own ones although it is not" % r.name
        return why

    def index_addr(self, a):
        return any("headers" in n or True for n in names(a)) and any(self.ed.p.field_types.get(x[2]) is not None for x in subterms(a) if x[0] == "&f") and self.is_index(a)

    def is_index(self, a):
        if a[0] != "&f": return False
        t = self.ed.p.field_types.get(a[2])
        s = t.get("s", "") if isinstance(t, dict) else str(t)
        return "set<" in s and "BazelTarget" in s

    def keyed(self, eng, st, r):
        """a key that changes from round to round"""
        def moving(v, d=0):
            for x in subterms(v):
                if x[0] in ("deref", "phi", "begin"): return True
                e = self.calls.get(x)
                if e is not None and d < 3 and any(moving(y, d + 1) for y in e.args + e.vals): return True
            return False
        return any(moving(v) for v in r.vals + r.args)


def own_header(ed, fid):
    """answers yes only after it has found the header equal to something made from the list"""
    key = ("own", fid)
    if key in ed.memo: return ed.memo[key]
    f = ed.p.functions[fid]
    g, e, outs = ed.run(f)
    ok, n = True, 0
    hdr = next((i for i, x in enumerate(f["params"]) if "vector<" not in (f["_types"][x["t"]].get("s") or "")), None)
    H = ("param", f["id"], f["params"][hdr]["id"])
    for s, v in outs:
        s = s.copy()
        if v is None or not e.assume(s, v, True): continue
        n += 1
        def mentions(x): return any(y == H for y in subterms(x))
        def equal(t, k):
            if t[0] == "eq": return k and any(mentions(x) for x in t[1:])
            r = g.calls.get(t)
            if r is None: return False
            op = r.name.rpartition("::")[2]
            return op in ("operator==", "operator!=") and k == (op == "operator==") and any(mentions(x) for x in r.args + r.vals + ([r.obj] if r.obj is not None else []))
        if not any(equal(t, k) for t, k in g.facts(e, s)): ok = False
    ed.memo[key] = ok and n > 0
    return ed.memo[key]


def loss(p, rep, ed, f, i):
    where = "%s:%s" % (f["file"], f["line"])
    opens = lambda x: any(n.get("k") == "call" and (n.get("ext") or n.get("fn") not in p.functions) and norm_name(n.get("n") or "").rpartition("::")[2] in ("open", "openat", "fopen", "ifstream") for n in fn_nodes(x))
    reader = {x for x, n in p.calls.get(f["id"], ()) if x in p.functions and "optional" in (p.functions[x]["_types"][p.functions[x]["ret"]].get("s") or "") and reaches(p, x, opens)}
    lookups = set()
    for x, n in p.calls.get(f["id"], ()):
        q = p.functions.get(x)
        if q is None or not q.get("body"): continue
        rt = q["_types"][q["ret"]]
        ps = [q["_types"][y["t"]].get("s") or "" for y in q["params"]]
        if "optional" in (rt.get("s") or "") and any("map<" in s and "set<" in s and "BazelTarget" in s for s in ps): lookups.add(x)
        elif rt["k"] == "bool" and any("vector<std::basic_string_view" in s for s in ps): lookups.add(x)
    if not reader: raise AnalysisError("no reading of the sources found in %s" % f["q"])
    g = Loss(ed, f, i, reader, lookups)
    if not g.sources or not g.includes: raise AnalysisError("no loop over the sources and their includes found in %s" % f["q"])
    ed.run(f, K=400, rule=g)
    for (rq, _, line), (n, miss) in sorted(g.obs.items()):
        rep.ob(rq, f["q"], "%s:%s" % (f["file"], line), miss is None, miss or "%d ways to end a round" % n)
    for w, ok in sorted(g.sets.items()): rep.ob("flag-only-cleared", f["q"], w, ok, "the flag for complete knowledge is set again")
    rep.require("source-read", 1)
    rep.require("include-accounted", 1)
    rep.require("flag-only-cleared", 1)
    # the includes of a source
    for x, n in p.calls.get(f["id"], ()):
        q = p.functions.get(x)
        if q is None or "vector<std::basic_string_view" not in (q["_types"][q["ret"]].get("s") or ""): continue
        for lit in [m["v"] for m in fn_nodes(q) if m.get("k") == "str" and "include" in m["v"]]: include_pattern(rep, q, lit)
    rep.require("include-pattern", 1)


def include_pattern(rep, q, lit):
    """header names may consist of anything that can stand between the quotes"""
    flags = re.M if "(?m)" in lit else 0
    try: rx = re.compile(lit.replace("(?m)", ""), flags)
    except re.error as e: raise AnalysisError("cannot interpret the pattern for includes: %s" % e)
    bad = []
    for ch in [chr(x) for x in range(33, 127) if chr(x) not in "\"\\<>*?|"]:
        for name in ("a%sb/c.h" % ch, "a/b%sc.h" % ch, "a/b.c%sd" % ch):
            line = '#include "%s"' % name
            if not any(name in (m.groups() or ()) for m in rx.finditer(line)):
                bad.append(name)
                break
    rep.ob("include-pattern", q["q"], "%s:%s" % (q["file"], q["line"]), not bad, "includes with such names are not seen: %s" % " ".join(bad[:8]))
    forms = ['#include "a/b.h"', '# include "a/b.h"', '  #include  "a/b.h"', '\t#\tinclude\t"a/b.h" // x', 'int x;\n#include "a/b.h"\n']
    miss = [x for x in forms if not any("a/b.h" in (m.groups() or ()) for m in rx.finditer(x))]
    rep.ob("include-pattern", q["q"] + ":forms", "%s:%s" % (q["file"], q["line"]), not miss, "not seen as include: %r" % (miss[:1],))


class Line(Rule):
    def __init__(self): self.found = set()

    def post_call(self, eng, st, call, ret):
        if norm_name(call.name or "").rpartition("::")[2] in ("find", "rfind", "find_last_of", "find_first_of", "memchr", "memrchr") and ret is not None: self.found.add(ret)


def surrounding(p, rep):
    """the line around a text reaches from the newline before it to the newline after it"""
    n = 0
    for f in p.functions.values():
        if f["name"] != "GetSurroundingLine" or not f.get("body") or not production(f): continue
        rec = p.records.get(f.get("rec"))
        cont = [x for x in (rec or {}).get("fields", ()) if "string_view" in (rec["_types"][x["type"]].get("s") or "") or (rec["_types"][x["type"]].get("s") or "").startswith("std::basic_string<")]
        text = ("param", f["id"], f["params"][0]["id"])
        r = Line()
        e = Engine(p, r, K=200)
        this = ("this", f["rec"])
        bad, seen = None, 0
        for s, v in e.run(f, this=this):
            if v is None or v[0] != "sv": continue
            seen += 1
            a, b = v[1], lin.add(v[1], v[2])
            tb = ("data", text)
            te = lin.add(tb, ("size", text))
            searched = any(x in r.found for x in subterms(v))
            def newline(at): return any(k and t[0] == "eq0" and t[1] == lin.add(("ld", at, ()), c(10), -1) for t, k in s.facts.items()) or e.entails(s, lin.add(("ld", at, ()), c(10), -1)) and e.entails(s, lin.add(c(10), ("ld", at, ()), -1))
            starts = [("data", e.load(s, ("&f", this, x["id"]))) for x in cont]
            ends = [lin.add(("data", w), ("size", w)) for x in cont for w in [e.load(s, ("&f", this, x["id"]))]]
            if searched: continue
            if not e.entails(s, lin.add(tb, a, -1)) or not e.entails(s, lin.add(b, te, -1)): bad = "the line does not contain the text it is asked for"
            elif not newline(lin.add(a, c(-1))) and not any(e.entails(s, lin.add(x, a, -1)) for x in starts): bad = "the line may begin in the middle of a line"
            elif not newline(b) and not any(e.entails(s, lin.add(b, x, -1)) for x in ends): bad = "the line may end before its end, where comments are"
        rep.eng(e)
        if seen:
            n += 1
            rep.ob("whole-line", f["q"], "%s:%s" % (f["file"], f["line"]), bad is None, bad or "%d paths" % seen)
    rep.notes.append("%d routines that look for the line around a text" % n)


def dropped(p, rep):
    """evaluating a sum of lists keeps what could not be evaluated, or what was looked at is incomplete without anybody noticing"""
    n = 0
    for f in p.functions.values():
        if f["name"] != "VisitBinOpNode" or not f.get("body") or not production(f) or f["_types"][f["ret"]]["k"] != "ptr": continue
        r = Casts()
        e = Engine(p, r, K=400)
        for s, v in e.run(f, this=("this", f["rec"])):
            q = r.casts.get(v)
            if q is None or q[0] != "CastAsList": continue
            side = r.sides.get(q[1])
            if side is None: continue
            other = {"left": "right", "right": "left"}[side]
            lists = [k2 for k2, (nm, o) in r.casts.items() if nm == "CastAsList" and r.sides.get(o) == other]
            n += 1
            gone = any(s.facts.get(("eq0", x)) is True for x in lists)
            rep.ob("nothing-dropped", "%s:%s" % (f["name"], other), "%s:%s" % (f["file"], f["line"]), not gone, "what is on the %s of a sum is dropped if it is not a list, so dependencies that it needs are not known" % other)
        rep.eng(e)


class Casts(Rule):
    def __init__(self): self.casts, self.sides = {}, {}

    def inline(self, eng, fn, fr): return fn.get("rec") == fr.fn.get("rec") and fn["file"] == fr.fn["file"] and not any(n.get("k") in LOOPS for n in fn_nodes(fn))

    def post_call(self, eng, st, call, ret):
        if ret is None: return
        nm = norm_name(call.name or "").rpartition("::")[2]
        if nm.startswith("CastAs") and call.obj is not None: self.casts[ret] = (nm, call.obj)
        if nm in ("left", "right"): self.sides[ret] = nm
