"""Shared model for scripts/run-clang-tidy-cached.cc: paths and strings as sequences of pieces,
file-system, thread, lock and process calls as events on the path."""
from . import lin
from .engine import Engine, St, Frame, c, show, eq0, ge0, fld, C0, C1, neg, size_of, subst
from .outputs import OutputRule, norm, pieces, shows
from .prog import AnalysisError, norm_name, fn_nodes, walk

UNIT = "scripts/run-clang-tidy-cached.cc"
LOCKS = ("std::lock_guard", "std::unique_lock", "std::scoped_lock")
FS = "std::filesystem::"
PATH = "std::filesystem::path"
FILESTREAMS = ("std::basic_ofstream", "std::basic_fstream")


def script_fns(p):
    return [f for f in p.functions.values() if f["file"] == UNIT and f.get("body")]


def reach(p, fid, seen=None):
    seen = seen if seen is not None else set()
    if fid in seen:
        return seen
    seen.add(fid)
    for c_, _ in p.calls.get(fid, ()):
        if c_ in p.functions:
            reach(p, c_, seen)
    return seen


def names_called(f):
    return {norm_name(x.get("n") or "") for x in fn_nodes(f) if x.get("k") == "call"}


def has_loop(f):
    return any(x.get("k") in ("while", "for", "foreach", "do") for x in fn_nodes(f))


class ScriptRule(OutputRule):
    def __init__(self, p):
        self.p = p
        self.threads = []     # (lambda / function value, extra args, state, frame, node)
        self.calls = []

    # ---- roles
    def const_inputs(self, f):
        T = f["_types"]
        for q in f["params"]:
            t = T[q["t"]]
            if t["k"] in ("ref", "ptr") and not T[t["to"]].get("const") and T[t["to"]].get("k") != "func" and "FILE" not in T[t["to"]].get("s", "FILE"):
                return False
        return True

    def pure(self, f):
        """helpers kept as uninterpreted functions of their arguments"""
        r = self.__dict__.setdefault("_pure", {})
        if f["id"] not in r:
            T = f["_types"]
            ret = T[f["ret"]] if f.get("ret") is not None and f["ret"] >= 0 else {"k": "void"}
            names = set()
            for g in reach(self.p, f["id"]):
                names |= names_called(self.p.functions[g])
            eff = names & {"system", "rename", FS + "rename", "std::thread::join", "exit"} or any(n.startswith(("std::mutex", "std::thread")) for n in names)
            local_arr = any(x.get("k") == "decl" and any(T[v["t"]]["k"] == "arr" for v in x["vars"]) for x in fn_nodes(f))
            reads = bool(names & {"fread", "fgets", "getline", "std::getline"} or any(n.startswith("std::basic_ifstream") for n in names)) and \
                norm_name(ret.get("q") or "") == "std::basic_string" and not f.get("rec")
            hashes = any("hash" in n and n.startswith("std::") for n in names_called(f))
            r[f["id"]] = (ret.get("k") not in ("void",) and self.const_inputs(f) and not eff
                          and (has_loop(f) or local_arr or hashes or reads))
        return r[f["id"]]

    def inline(self, eng, fn, fr):
        return fn["file"] == UNIT and not self.pure(fn)

    def ev(self, st, *e):
        st.props["ev"] = st.props.get("ev", ()) + (e,)

    def held(self, st):
        return st.props.get("held", ())

    def val(self, eng, st, call, i):
        return eng.rval(st, call.args[i], call.node["a"][i])

    def text(self, eng, st, call, i):
        v = self.val(eng, st, call, i)
        t = eng.typ(call.fr, call.node["a"][i].get("t"))
        if v[0] == "data":      # c_str() of something
            v = v[1]
        return pieces(v, t)

    # ---- library
    def pre_call(self, eng, st, call):
        n, nm = call.node, call.name or ""
        cls, _, short = nm.rpartition("::")
        f = self.p.functions.get(call.fid)
        r = self.special(eng, st, call, nm, cls, short)
        if r is not None:
            return r
        if cls == PATH and call.obj is not None:
            if n["k"] == "ctor":
                if call.args and n["k"] == "ctor" and short == "path":
                    v = self.val(eng, st, call, 0)
                    return [(st, self.pathval(v))]
                return None
            v = eng.load(st, call.obj)
            if short in ("string", "native", "c_str", "generic_string", "u8string") or short.startswith("operator basic_string") or short.startswith("operator string"):
                return [(st, v)]
            if short in ("operator/=", "append", "operator+=", "concat") and len(call.args) == 1:
                ps = pieces(v, {"k": "rec"}) + ((("t", "/"),) if short in ("operator/=", "append") else ()) + self.text(eng, st, call, 0)
                eng.do_store(st, call.obj, ("cat", norm(ps)), n, call.fr)
                return [(st, call.obj)]
        if nm == FS + "operator/" and len(call.args) == 2:
            return [(st, ("cat", norm(self.text(eng, st, call, 0) + (("t", "/"),) + self.text(eng, st, call, 1))))]
        if cls == "std::basic_string" and n["k"] == "ctor" and len(call.args) >= 1:
            v = self.val(eng, st, call, 0)
            if v[0] == "cat":
                return [(st, v)]
        if cls in ("std::basic_string",) and short == "c_str" and call.obj is not None:
            return [(st, eng.load(st, call.obj))]
        if nm == "std::operator+" and len(call.args) == 2:
            ps = self.text(eng, st, call, 0) + self.text(eng, st, call, 1)
            return [(st, ("cat", norm(ps)))]
        if f is not None and f["file"] == UNIT and self.pure(f):
            args = tuple(self.val(eng, st, call, i) for i in range(len(call.args)))
            return [(st, ("call", "fn:" + f["q"], ((eng.load(st, call.obj),) if call.obj is not None and not f.get("const") else ()) + args))]
        return super().pre_call(eng, st, call)

    def pathval(self, v):
        if v[0] == "ctor" and len(v[2]) == 1:
            return self.pathval(v[2][0])
        return v

    def special(self, eng, st, call, nm, cls, short):
        return None
