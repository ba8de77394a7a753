"""The command line: options, names of commands and formats, the usage text, and what each command does."""
import re
from .engine import Engine, Rule, St, c, C0, C1, show, eq0
from .prog import AnalysisError, norm_name, fn_nodes, walk

OPTARG = ("&g", "g:optarg")


def production(f): return f["file"].startswith("bant/") and "_test" not in f["file"]


def strip(n):
    while isinstance(n, dict) and (n.get("k") in ("cast", "ld") or n.get("k") == "ctor" and len(n.get("a", ())) == 1): n = n["e"] if "e" in n else n["a"][0]
    return n


def literal(n):
    n = strip(n)
    return n["v"] if isinstance(n, dict) and n.get("k") == "str" else None


def enumerator(n):
    n = strip(n)
    return (n["en"], n["v"]) if isinstance(n, dict) and n.get("k") == "int" and n.get("en") else None


def enum_of(en, enums):
    q = en.rpartition("::")[0]
    return q if q in enums else None


class CommandLine:
    def __init__(self, p):
        self.p = p
        self.main = None
        for f in p.functions.values():
            if production(f) and any(x.get("k") == "call" and x.get("n") == "getopt" for x in fn_nodes(f)): self.main = f
        if not self.main: raise AnalysisError("no reading of options found")
        self.tables = self.name_tables()
        self.usage = self.usage_text()

    def bodies(self):
        for f in self.p.functions.values():
            if production(f): yield f["q"], f["file"], fn_nodes(f)
        for g in self.p.globals.values():
            if g.get("init"): yield g.get("n") or g.get("q") or "global", g.get("file", ""), walk(g["init"])

    def name_tables(self):
        """enum -> [(name, value, where)]"""
        res = {}
        for q, file, nodes in self.bodies():
            for x in nodes:
                ch = x.get("a") if x.get("k") == "ctor" else x.get("es") if x.get("k") == "init" else None
                if not ch or len(ch) != 2: continue
                s, e = literal(ch[0]), enumerator(ch[1])
                if s is not None and e:
                    en = enum_of(e[0], self.p.enums)
                    if en: res.setdefault(en, []).append((s, e[1], "%s:%s" % (file, x.get("l"))))
        return {k: v for k, v in res.items() if len(v) > 2}

    def usage_text(self):
        best = ""
        for q, file, nodes in self.bodies():
            for x in nodes:
                if x.get("k") == "str" and len(x["v"]) > len(best) and re.search(r"^\s+-\w ", x["v"], re.M): best = x["v"]
        return best

    def documented_options(self):
        """letter -> takes an argument"""
        res = {}
        for m in re.finditer(r"(?<![\w'\"-])-([A-Za-z])(?![\w-])(\s*<)?", self.usage): res[m[1]] = res.get(m[1], False) or bool(m[2])
        return res

    def documented_commands(self):
        """name -> text that belongs to it"""
        res, cur, sec = {}, None, ""
        for line in self.usage.splitlines():
            m = re.match(r"^    ([a-z][a-z-]+)\s*: ", line)
            if m:
                cur = m[1]
                res[cur] = dict(text=line[m.end():], section=sec)
            elif re.match(r"^    (%s|-- )", line) or re.match(r"^    %s", line):
                sec, cur = line.strip() if not line.strip().startswith("--") else sec + " " + line.strip(), None
            elif cur: res[cur]["text"] += "\n" + line
        return res

    # ---------------------------------------------------------- options
    def optstring(self):
        for x in fn_nodes(self.main):
            if x.get("k") == "call" and x.get("n") == "getopt":
                rule = OptRule(self, None)
                e = Engine(self.p, rule, K=50)
                e.run(self.main)
                if rule.optstring is not None:
                    s = rule.optstring
                    res, i = {}, 0
                    while i < len(s):
                        ch = s[i]; i += 1
                        if ch in "+-:" : continue
                        n = 0
                        while i < len(s) and s[i] == ":": n += 1; i += 1
                        res[ch] = n
                    return s, res
        raise AnalysisError("option letters not found")

    def option(self, letter, argument):
        """what happens for one option: (behaviours, uses of a missing argument, flags set)"""
        rule = OptRule(self, letter, argument)
        e = Engine(self.p, rule, K=50)
        outs = e.run(self.main)
        for s, v in outs: rule.behaviour.add((s.props.get("did"), ("ends", show(v))))
        return rule, e


class OptRule(Rule):
    peel = False

    def __init__(self, cl, letter, argument=2):
        self.cl, self.letter, self.argument = cl, letter, argument
        self.optstring = None
        self.behaviour = set()
        self.missing = []
        self.sets = {}
        self.calls = set()

    def inline(self, eng, fn, fr): return fn["id"].startswith("lambda@")

    def pre_call(self, eng, st, call):
        if call.name == "getopt":
            v = call.args[2] if len(call.args) > 2 else None
            if v is not None and v[0] == "str": self.optstring = v[1]
            if self.letter is None: return []
            if st.props.get("did") is not None:
                self.behaviour.add((st.props["did"], "next"))
                return []
            st.props["did"] = ()
            st.store[OPTARG] = C0 if self.argument == 0 else ("sym", ("argument", 0, ()))
            if self.argument == 2:                      # argument may be left out
                s2 = st.copy()
                s2.store[OPTARG] = C0
                return [(st, c(ord(self.letter))), (s2, c(ord(self.letter)))]
            return [(st, c(ord(self.letter)))]
        if st.props.get("did") is not None:
            fid = call.fid or call.name
            self.calls.add(fid)
            for a, nd in zip(call.args, call.node.get("a", ())):
                x = strip(nd) if isinstance(nd, dict) else None
                if a == C0 and x is not None and x.get("k") == "var" and x.get("glob") == "optarg": self.missing.append(call.where())
            st.props["did"] = st.props["did"] + ((call.name, tuple(sorted(ingredients(eng, st, call), key=str))),)
        return None

    def on_store(self, eng, st, addr, val, node, fr):
        if st.props.get("did") is None or addr == OPTARG: return
        a = addr
        while a[0] == "&i": a = a[1]
        if a[0] in ("&f", "&v"):
            if a[0] == "&f": self.sets[a[2]] = fr.where(node) if isinstance(node, dict) else ""
            st.props["did"] = st.props["did"] + (("=", show(a), show(val)),)


def ingredients(eng, st, call, leave=()):
    """constants, texts and members that go into a call"""
    res = set()
    for i, (a, nd) in enumerate(zip(call.args, call.node.get("a", ()))):
        if i < len(leave) and leave[i]: continue
        v = a
        if a[0] == "c" and isinstance(nd, dict) and "t" in nd and call.fr.fn["_types"][nd["t"]].get("s") in ("char", "const char") and 0 < a[1] < 128:
            res.add(("s", chr(a[1])))
            continue
        if isinstance(nd, dict) and (nd.get("lv") or nd.get("tmp")): v = eng.load(st, a)
        collect(v, res)
        collect(a, res)
    return res


def collect(v, res, depth=0):
    if not isinstance(v, tuple) or depth > 12 or not v: return
    k = v[0]
    if k == "c": res.add(("c", v[1])); return
    if k == "str": res.add(("s", v[1])); return
    if k == "&f": res.add(("m", v[2])); collect(v[1], res, depth + 1); return
    if k == "fld": res.add(("m", v[2])); collect(v[1], res, depth + 1); return
    if k in ("sym", "phi", "new", "&v", "&t", "ep"): return
    if k in ("call", "ctor") and isinstance(v[1], str): res.add(("f", v[1]))
    for x in v[1:]: collect(x, res, depth + 1)


class DispatchRule(Rule):
    """what a routine does for one value of a kind"""
    peel = False

    def __init__(self, p, enum, same):
        self.p, self.enum, self.same = p, enum, same
        self.may = set()

    def inline(self, eng, fn, fr): return fn["id"].startswith("lambda@") or fn["id"] in self.same

    def forwards(self, call, a, nd):
        """the kind itself is passed on as such"""
        if self.enum is None or not isinstance(nd, dict) or "t" not in nd or a[0] != "c": return False
        return call.fr.fn["_types"][nd["t"]].get("enum") == self.enum

    def pre_call(self, eng, st, call):
        if call.fid is None and call.name is None: return None
        if call.fid in self.same: return None
        f = self.p.functions.get(call.fid)
        ext = f is None
        if ext and not (call.name or "").startswith(("std::operator", "std::basic_ostream", "std::basic_string", "std::make_unique", "absl::")): return None
        if f is not None and call.node.get("cm") : return None
        fid = call.fid if f is not None else call.name
        passed = [self.forwards(call, a, nd) for a, nd in zip(call.args, call.node.get("a", ()))]
        k = (fid or call.fid or call.name, tuple(sorted(ingredients(eng, st, call, passed), key=str)))
        self.may.add(k)
        st.props["calls"] = st.props.get("calls", frozenset()) | {k}
        return None


def kinds_handled(p, fn, index, vals, same=(), K=200, this=None, enum=None):
    """value -> (calls that may happen, calls on every way out, engine, ways out)"""
    res = {}
    for name, v in vals:
        rule = DispatchRule(p, enum, set(same))
        e = Engine(p, rule, K=K, max_depth=6)
        args = [("param", fn["id"], q["id"]) for q in fn["params"]]
        args[index] = c(v)
        outs = e.run(fn, args=args, this=this)
        sets = [s.props.get("calls", frozenset()) for s, _ in outs]
        res[name] = (rule.may, outs, sets, e)
    return res
