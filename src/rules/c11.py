"""C11: an addition of a dependency is proposed only if it is visible, allowed and the only choice."""
from bsa.edits import Edits, Guard, bazel_of, is_target, sets_of_targets, subterms
from bsa.engine import C0, C1, c, show
from bsa.prog import AnalysisError, norm_name, fn_nodes
from bsa import lin

TECHNIQUE = "path-sensitive analysis of the facts tested before each proposed addition; predicates certified on their own paths"
NOTE = ("Which libraries provide a header, and that visibility patterns match what they should (C03/C09), are other properties. A provider that is not among the known libraries counts as visible, as the tool documents.")
EXPLANATION = ("At every point where an addition is handed to the edit callback, each path has to have tested that the proposed target is visible from the target that gets it, that the test-only restriction permits it, and that the set of choices it was taken from has exactly one element. "
               "A test may be a predicate of the program: then every path on which the predicate gives that answer has to establish the requirement. The sets of choices are followed to where targets are put into them; there the target itself has to be excluded.")
UNITS = ["bant/tool/dwyu.cc", "bant/tool/canon-targets.cc", "bant/tool/edit-callback.cc"]


def single(g, eng, st, D):
    """the address of the only element of a container"""
    for d in D:
        x = d
        if x[0] == "deref" and x[1][0] == "begin":
            o = x[1][1]
            n = ("size", eng.load(st, o))
            for size in (n, ("size", o)):
                if eng.entails(st, lin.add(c(1), size, -1)): return True
            for t, r in g.calls.items():
                if r.name.rpartition("::")[2] == "size" and r.obj == o and eng.entails(st, lin.add(c(1), t, -1)): return True
    return False


def check(p, rep, tier):
    ed = Edits(p, rep)
    feeds = {}    # function that builds the choices -> index of the parameter that is the target

    def judge(g, eng, st, call, vals, kind):
        if kind != "kAdd": return None
        obj = bazel_of(g, eng, st, vals[3])
        if obj is None: return {"of-a-target": "the text of the proposed dependency is not made from a target: %s" % show(vals[3])[:100]}
        D = {obj, eng.load(st, obj)}
        T = {vals[1], call.args[1]}
        roles = {"dep": D, "target": T}
        res = {"of-a-target": None, "_given": all(any(x[0] in ("param", "this") for x in subterms(d)) for d in D)}
        res["visible"] = None if g.holds(eng, st, "visible", roles) else "nothing tested on this path shows that the proposed target is visible"
        res["testonly"] = None if g.holds(eng, st, "testonly", roles) else "nothing tested on this path shows that the test-only restriction permits it"
        res["single"] = None if single(g, eng, st, D) else "the proposed target is not known to be the only choice on this path"
        own = any(not k and t[0] == "eq" and any(x in D for x in t[1:]) and any(x in T for x in t[1:]) for t, k in g.facts(eng, st))
        if not own:
            for t, r in list(g.calls.items()):
                f = p.functions.get(r.fid)
                if f is None or not f.get("body") or not sets_of_targets(f["_types"][f["ret"]].get("s")): continue
                if any(sets_of_targets(f["_types"][x["t"]].get("s")) for x in f["params"]):
                    feeds.setdefault(r.fid, None)
                    continue
                i = next((i for i in range(len(r.args)) if i < len(f["params"]) and is_target(f, i) and (r.args[i] in T or r.vals[i] in T)), None)
                feeds[r.fid] = i
        return res

    got = ed.proposals(judge)
    for (q, w, rq), o in sorted(got.items()):
        rep.ob("addition-" + rq, q, w, o["miss"] is None, o["miss"] or "on %d paths" % o["n"])
    rep.require("addition-visible", 1)
    # never its own dependency
    n = 0
    for fid, i in sorted(feeds.items()):
        f = p.functions[fid]
        if any(sets_of_targets(f["_types"][x["t"]].get("s")) for x in f["params"]):
            made = [w for x, nd in p.calls.get(fid, ()) for w in [p.functions.get(x)] if w is not None and w["_types"][w["ret"]].get("s", "").startswith(("bant::BazelTarget", "std::optional<bant::BazelTarget>", "optional<bant::BazelTarget>"))]
            rep.ob("choices-only-reduced", f["q"], "%s:%s" % (f["file"], f["line"]), not made, "makes new targets to choose from: " + ", ".join(x["q"] for x in made))
            cov = Covered(ed, f)
            ed.run(f, rule=cov)
            for w, (ok, d) in sorted(cov.seen.items()): rep.ob("covered-if-narrowed", f["q"], w, ok, d)
            for x in sorted({fid} | {x for x, nd in p.calls.get(fid, ()) if x in p.functions}):
                for nd in fn_nodes(p.functions[x]):
                    nm = norm_name(nd.get("n") or "")
                    if nd.get("k") == "call" and nm.startswith("std::set_"):
                        rep.ob("covered-if-narrowed", p.functions[x]["q"] + ":" + nm, "%s:%s" % (p.functions[x]["file"], nd["l"]), nm == "std::set_intersection", "only targets that satisfy both needs are choices, not those of " + nm)
            continue
        if i is None:
            rep.ob("not-itself", f["q"], "%s:%s" % (f["file"], f["line"]), False, "the choices are collected without knowing the target they are for")
            continue
        own = Own(ed, f, i)
        g, e, outs = ed.run(f, rule=own)
        for w, (ok, d) in sorted(own.seen.items()):
            rep.ob("not-itself", f["q"], w, ok, d)
            n += 1
    rep.require("not-itself", 1)


class Own(Guard):
    """targets put into the choices differ from the target the choices are for"""

    def __init__(self, ed, f, i):
        super().__init__(ed, f)
        self.T = {("param", f["id"], f["params"][i]["id"])}
        self.T |= {("ld", t, ()) for t in self.T}
        self.seen = {}

    def pre_call(self, eng, st, call):
        nm = norm_name(call.name or "")
        short = nm.rpartition("::")[2]
        if short in ("insert", "emplace", "push_back", "emplace_back") and call.obj is not None and len(call.args) == 1 and (call.node.get("ext") or call.fid not in self.ed.p.functions):
            d = call.node["a"][0]
            a = call.args[0]
            v = eng.rval(st, a, d) if d.get("lv") else a
            ty = call.fr.types[d["t"]].get("s", "") if d.get("t", -1) >= 0 else ""
            if "BazelTarget" in ty and "set<" in ty and "vector<" not in ty: self.note(eng, st, call, False, "a whole set of choices is taken over without excluding the target itself")
            elif "BazelTarget" in ty and "vector<" not in ty:
                T = set(self.T)
                for t in self.T:
                    if t[0] == "param": T.add(eng.load(st, t))
                if a in T or v in T:
                    st.props[("member", call.obj)] = True
                else: self.note(eng, st, call, self.differs(eng, st, a, v, T), "the target could be proposed as its own dependency: nothing tested on this path excludes it")
        return super().pre_call(eng, st, call)

    def note(self, eng, st, call, ok, d):
        o = self.seen.get(call.where())
        if o is None or o[0]: self.seen[call.where()] = (ok, d)

    def differs(self, eng, st, a, v, T):
        for t, k in self.facts(eng, st):
            if t[0] == "in" and not k and ("member", t[1]) in st.props and (a in t[2] or v in t[2]): return True
            if t[0] == "eq" and (any(x in (a, v) for x in t[1:]) and any(x in T for x in t[1:])): 
                if not k: return True
            if t[0] == "eq" and k and t[1:] and any(x[0] == "end" and ("member", x[1]) in st.props for x in t[1:]) and any(x[0] == "found" and (a in x[5] or v in x[5]) for x in t[1:]): return True
            r = self.calls.get(t)
            if r is not None and r.name.rpartition("::")[2] in ("operator==", "operator!="):
                ops = ([r.obj] if r.obj is not None else []) + r.args + r.vals
                if k == (r.name.rpartition("::")[2] == "operator!=") and any(x in (a, v) for x in ops) and any(x in T for x in ops): return True
        return False


class Covered(Guard):
    """a need is ticked off only when the choices have been narrowed to those that satisfy it, too"""

    def __init__(self, ed, f):
        super().__init__(ed, f)
        self.seen = {}

    def pre_call(self, eng, st, call):
        short = norm_name(call.name or "").rpartition("::")[2]
        if short in ("insert", "emplace") and call.obj is not None and len(call.args) == 1 and call.node.get("ext"):
            d = call.node["a"][0]
            ty = call.fr.types[d["t"]] if d.get("t", -1) >= 0 else {}
            if "long" in ty.get("s", "") or "int" in ty.get("s", "") or "size_t" in ty.get("s", ""):
                a = call.args[0]
                v = eng.rval(st, a, d) if d.get("lv") else a
                live = [x for x in st.store.values() if x in self.calls and x[0] == "sym" and self.calls[x].fid in self.ed.p.functions]
                elem = [x for x in st.store.values() if x[0] == "ld" and any(y[0] == "operator[]" for y in subterms(x))]
                if live or elem:
                    ok = False
                    for x in live:
                        r = self.calls[x]
                        uses = any(y == v for z in r.args + r.vals for y in subterms(z))
                        some = any(not k and t[0] == "eq0" and any(y == x for y in subterms(t)) for t, k in self.facts(eng, st))
                        if uses and some: ok = True
                    o = self.seen.get(call.where())
                    if o is None or o[0]: self.seen[call.where()] = (ok, "ticks off a need although the choices were not narrowed to those that satisfy it")
        return super().pre_call(eng, st, call)
