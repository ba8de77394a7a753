"""What a path writes to its output streams, as a sequence of pieces.

Pieces: ("t", text) literal text, ("n", term) a number printed in decimal, ("s", term) a string value,
("x", term) anything else.  Adjacent literal text is merged, so it does not matter how a literal is split."""
from . import lin
from .engine import Rule, c, show
from .prog import norm_name


def norm(ps):
    out = []
    for p in ps:
        if p[0] == "t" and p[1] == "":
            continue
        if p[0] == "t" and out and out[-1][0] == "t":
            out[-1] = ("t", out[-1][1] + p[1])
        else:
            out.append(p)
    return tuple(out)


def pieces(v, t=None):
    """text of value v of static type t"""
    t = t or {}
    k = t.get("k")
    if k == "int" and t.get("bits") == 8 and t.get("s", "").split()[-1] == "char":
        return (("t", chr(v[1] & 255)),) if v[0] == "c" else (("x", ("char", v)),)
    if v[0] == "str":
        return (("t", v[1]),)
    if v[0] == "cat":
        return v[1]
    if v[0] == "num":
        return (("n", v[1]),)
    if v[0] == "call":
        nm, a = v[1], v[2]
        if nm in ("absl::StrCat", "std::operator+", "absl::StrAppend"):
            r = ()
            for x in a:
                r += pieces(x)
            return norm(r)
        if nm in ("std::to_string",):
            return (("n", a[0]),)
    if v[0] == "ctor" and v[1] in ("absl::AlphaNum", "std::basic_string", "std::basic_string_view") and len(v[2]) == 1:
        return pieces(v[2][0])
    if v[0] == "ctor" and v[1] in ("std::basic_string", "std::basic_string_view") and not v[2]:
        return ()
    if k in ("int", "enum"):
        return (("t", str(v[1])),) if v[0] == "c" else (("n", v),)
    if k == "bool":
        return (("x", ("bool", v)),)
    if v[0] == "lin":
        return (("n", v),)
    if v[0] == "substr" or k in ("rec", "ptr") or v[0] in ("sv", "ld", "param", "fld", "sym"):
        return (("s", v),)
    return (("x", v),)


def shows(ps):
    return " ".join(repr(p[1]) if p[0] == "t" else "<%s %s>" % (p[0], show(p[1])) for p in ps)


STREAMS = ("std::basic_ostream", "std::basic_stringstream", "std::basic_ostringstream", "std::basic_ofstream",
           "std::basic_fstream", "std::basic_iostream", "std::ostream")
MAXP = 60


class OutputRule(Rule):
    """collects st.props[("out", stream address)]"""

    def emit(self, st, stream, ps):
        k = ("out", stream)
        new = norm(st.props.get(k, ()) + tuple(ps))
        if len(new) > MAXP:
            new = new[:MAXP]
        st.props[k] = new

    def pre_call(self, eng, st, call):
        n, nm = call.node, call.name or ""
        if nm in ("std::operator<<", "std::basic_ostream::operator<<") or (nm.endswith("::operator<<") and n.get("ext") and self.is_stream(eng, call)):
            if call.obj is not None:
                stream, val, an = call.obj, call.args[0], n["a"][0]
            else:
                stream, val, an = call.args[0], call.args[1], n["a"][1]
            v = eng.rval(st, val, an)
            t = eng.typ(call.fr, an.get("t"))
            if v[0] == "&fn" or t["k"] in ("func",) or (t["k"] == "ptr" and eng.typ(call.fr, t["to"])["k"] == "func"):
                nmf = v[1] if v[0] == "&fn" else str(an.get("n", an.get("e", {}).get("n", "")))
                self.emit(st, stream, (("t", "\n"),) if "endl" in nmf else ())
            else:
                self.emit(st, stream, pieces(v, t))
            return [(st, stream)]
        cls, _, short = nm.rpartition("::")
        if call.obj is not None and n.get("ext") and cls in STREAMS:
            if short == "str" and not call.args:
                return [(st, ("cat", st.props.get(("out", call.obj), ())))]
            if short == "put":
                self.emit(st, call.obj, (("t", chr(call.args[0][1])),) if call.args[0][0] == "c" else (("x", ("char", call.args[0])),))
                return [(st, call.obj)]
            if short == "write" and len(call.args) == 2:
                self.emit(st, call.obj, (("s", ("sv", call.args[0], call.args[1])),))
                return [(st, call.obj)]
            if short == "flush":
                return [(st, call.obj)]
        if nm == "absl::StrCat":
            ps = ()
            for a, an in zip(call.args, n["a"]):
                ps += pieces(self.alpha(eng, st, a, an, call.fr), None)
            return [(st, ("cat", norm(ps)))]
        if nm == "absl::AlphaNum::AlphaNum" or (n["k"] == "ctor" and norm_name(n.get("rq") or "") == "absl::AlphaNum"):
            return None
        if nm == "std::to_string":
            return [(st, ("cat", pieces(call.args[0], {"k": "int"})))]
        if nm in ("std::operator+",) and len(call.args) == 2:
            ps = ()
            for a, an in zip(call.args, n["a"]):
                ps += pieces(eng.rval(st, a, an), eng.typ(call.fr, an.get("t")))
            return [(st, ("cat", norm(ps)))]
        if cls == "std::basic_string" and short in ("append", "operator+=", "push_back") and call.obj is not None and len(call.args) == 1:
            old = eng.load(st, call.obj)
            ps = pieces(old, {"k": "rec"}) + pieces(eng.rval(st, call.args[0], n["a"][0]), eng.typ(call.fr, n["a"][0].get("t")))
            eng.do_store(st, call.obj, ("cat", norm(ps)), n, call.fr)
            return [(st, call.obj)]
        return None

    def alpha(self, eng, st, a, an, fr):
        """argument of a StrCat: the thing the AlphaNum was made of"""
        v = eng.rval(st, a, an)
        while v[0] == "ctor" and v[1] == "absl::AlphaNum" and len(v[2]) >= 1:
            inner = v[2][0]
            node = an
            while node.get("k") in ("cast",):
                node = node["e"]
            t = eng.typ(fr, node["a"][0].get("t")) if node.get("k") == "ctor" and node.get("a") else {}
            if t.get("k") == "int" and inner[0] not in ("cat", "str"):
                return ("cat", pieces(inner, {"k": "int"}))
            v = inner
        return v

    def is_stream(self, eng, call):
        nodes = [call.node["obj"]] if call.node.get("obj") else call.node.get("a", [])[:1]
        for x in nodes:
            t = eng.typ(call.fr, x.get("t"))
            if norm_name(t.get("q") or "") in STREAMS:
                return True
        return False


def struct(eng, p, rid, name, leaves):
    """symbolic value of record rid; leaves maps field paths to the symbols made"""
    r = p.records[rid]
    items = []
    for f in r["fields"]:
        t = r["_types"][f["type"]]
        path = name + "." + f["name"]
        if t["k"] == "rec" and t.get("rec") in p.records:
            v = struct(eng, p, t["rec"], path, leaves)
        else:
            v = ("param", name, f["name"])
            leaves[path] = v
        items.append((f["id"], v))
    return ("upd", ("agg", rid), tuple(sorted(items)))
