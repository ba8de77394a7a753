"""C03: nothing placed in an arena ever needs its destructor run."""
from bsa.prog import AnalysisError, norm_name, fn_nodes, walk

TECHNIQUE = 'type query over every type constructed in arena memory'
NOTE = 'Every type constructed in arena memory, found by following placement construction through all templates, is checked for a destructor that has an effect, recursively over members and bases.'
EXPLANATION = (
  "Collects every type the resolved program constructs in arena memory: each instantiation of Arena::New, each placement "
  "new-expression and each element type of an arena container. The type checker decides for each whether destruction does "
  "anything (members, bases and array elements included); only types whose destruction is a no-op are allowed (trivial, or user-declared/virtual with empty bodies all the way down).")
UNITS = []


def check(p, rep, tier):
    def ob(rule, t, where):
        if "tdtor" not in t:
            raise AnalysisError("destruction of %s unknown" % t["s"])
        path = effect(p, t)
        rep.ob(rule, t["s"], where, path is None,
               "" if path is None else "destroying %s has an effect, but it lives in an arena, which runs no destructors: %s" % (t["s"], " -> ".join(path)))
    for f in p.functions.values():
        where = "%s:%s" % (f["file"], f["line"])
        T = f["_types"]
        if norm_name(f["q"]) == "bant::Arena::New":
            rep.functions.add(f["id"])
            ob("arena-constructed", T[T[f["ret"]]["to"]], where)
        for n in fn_nodes(f):
            if n.get("k") == "new" and n.get("pl") and not norm_name(n["pl"][0].get("n") or "").startswith("std::nothrow"):
                rep.functions.add(f["id"])
                ob("placement-constructed", T[n["at"]], "%s:%s" % (f["file"], n["l"]))
    for r in p.records.values():
        if norm_name(r["q"]).startswith("bant::ArenaDeque::Block"):
            for fl in r["fields"]:
                t = r["_types"][fl["type"]]
                if t["k"] == "arr":
                    ob("container-element", r["_types"][t["to"]], "%s:%s" % (r["file"], fl["line"]))
    rep.require("arena-constructed", 10)
    rep.require("container-element", 3)


def effect(p, t, types=None, seen=()):
    """path to something a destructor of type t does, or None when destruction is a no-op"""
    if t.get("tdtor"):
        return None
    if t["k"] == "arr" and types:
        return effect(p, types[t["to"]], types=types, seen=seen)
    r = p.records.get(t.get("rec"))
    if r is None:
        return [t["s"]]
    if r["id"] in seen:
        return None
    for m in r["methods"]:
        if m["name"].startswith("~") and not m["implicit"] and not m["defaulted"]:
            f = p.functions.get(m["id"])
            body = f and f.get("body")
            if body is None or any(x.get("k") not in ("block", "null") for x in walk(body)):
                return ["~" + r["q"]]
    for f in r["fields"]:
        x = effect(p, r["_types"][f["type"]], types=r["_types"], seen=seen + (r["id"],))
        if x is not None:
            return [f["id"]] + x
    for b in r["bases"]:
        x = effect(p, r["_types"][b], types=r["_types"], seen=seen + (r["id"],))
        if x is not None:
            return ["base of " + r["q"]] + x
    return None
