"""C20: results go to the chosen stream and nothing else does."""
import re
from bsa.cmdline import CommandLine, kinds_handled, production, OPTARG
from bsa.engine import Engine, Rule, C0, C1, c, show
from bsa.prog import AnalysisError, fn_nodes, walk, norm_name
from bsa.streams import Streams, DIAG, LOCAL, COUT
from .c12 import takes

TECHNIQUE = "classification of the origins of every stream expression (def-use over variables, parameters, members and accessors to a fixpoint), abstract interpretation of the option reader up to the construction of the session, and reachability of primary output from what each command does"
NOTE = "What counts as a diagnostic is decided by its form (a source location, prose, an error status that follows, code shared by all commands)."
EXPLANATION = ("Every expression that denotes an output stream is traced to where it comes from. Standard output is mentioned only as the default of the primary stream; the option reader, interpreted for every option and every pair of options that choose streams, hands the session the stream the user chose; "
               "factories of tables and edits get the primary stream only; code that all commands share, paths that end with an error status, and commands that print a table never write to it directly; data goes nowhere else.")
UNITS = ["bant/bant.cc", "bant/cli-commands.cc", "bant/util/table-printer.cc", "bant/tool/compilation-db.cc", "bant/tool/dwyu.cc", "bant/frontend/parsed-project.cc"]

LOWLEVEL = {"write", "dprintf", "dup2", "dup", "pwrite", "writev"}
STDOUT_CALLS = {"printf", "vprintf", "puts", "putchar", "putc_unlocked", "putchar_unlocked", "std::printf", "std::puts", "std::putchar", "std::vprintf", "std::print", "std::println", "absl::PrintF"}
DEVICES = ("/dev/stdout", "/dev/fd/1", "/proc/self/fd/1", "/dev/tty")
WORD = re.compile(r"[A-Za-z]{2,}")


def check(p, rep, tier):
    cl = CommandLine(p)
    S = Streams(p, cl.main)
    prim, info = roots(p, cl, S)
    stdout_uses(p, rep, cl, S, prim)
    selection(p, rep, cl, S, tier)
    V = View(p, S, prim, info)
    factories(p, rep, V)
    statuses(p, rep, V)
    commands(p, rep, cl, V)
    forms(p, rep, cl, V)
    rep.steps += S.steps
    rep.require("standard-output", 100)
    rep.require("selection", 10)
    rep.require("result-sink", 4)
    rep.require("error-status", 2)
    rep.require("shared-code", 3)
    rep.require("command-result", 8)
    rep.require("result-form", 3)
    rep.require("diagnostic-form", 10)


def roots(p, cl, S):
    """the variables of the main program that hold the two streams"""
    prim, info = set(), set()
    m = cl.main
    for (k, v), ds in list(S.defs.items()):
        if k != "v" or S.owner.get(v, {}).get("id") != m["id"]: continue
        gl = {x.get("glob") for g, d in ds if g["id"] == m["id"] for x in walk(d) if x.get("k") == "var"}
        if gl & {"std::cout", "stdout"}: prim.add(("main", v))
        elif gl & {"std::cerr", "std::clog", "stderr"}: info.add(("main", v))
    if not prim: raise AnalysisError("no variable that is initially standard output")
    return prim, info


class View:
    def __init__(self, p, S, prim, info):
        self.p, self.S, self.prim, self.info = p, S, prim, info | {DIAG}
        self.cache = {}

    def of(self, f, e):
        k = (f["id"], e.get("_id"))
        if k not in self.cache: self.cache[k] = self.S.of(f, e)
        return self.cache[k]

    def primary(self, f, e): return bool(self.of(f, e) & (self.prim | {COUT}))
    def diagnostic(self, f, e):
        o = self.of(f, e)
        return bool(o) and o <= self.info

    def direct(self, f, e):
        """the stream is asked for here, not handed in"""
        return direct(self.S, f, e, set())


def direct(S, f, e, seen):
    for _ in range(60):
        k = e.get("k") if isinstance(e, dict) else None
        if k in ("ld", "cast", "un"): e = e["e"]; continue
        if k == "call":
            g = S.p.functions.get(e.get("f"))
            nm = norm_name(e.get("n") or "")
            if nm.rpartition("::")[2].startswith("operator"):
                e = e["obj"] if e.get("obj") is not None else e["a"][0]; continue
            for a in e["a"]:
                if S.stream_type(f, a.get("t")): e = a; break
            else: return True
            continue
        if k == "var":
            if e.get("glob"): return True
            key = e["id"]
            if key in seen or key in S.params: return False
            return any(direct(S, g, d, seen | {key}) for g, d in S.defs.get(("v", key), ()))
        return False
    return False


# ----------------------------------------------------------- standard output
def stdout_uses(p, rep, cl, S, prim):
    names = {v for _, v in prim}
    for f in sorted(p.functions.values(), key=lambda f: f["id"]):
        if not production(f) or not f.get("body"): continue
        ok = set()
        if f["id"] == cl.main["id"]:
            for x in fn_nodes(f):
                if x.get("k") == "decl":
                    for v in x["vars"]:
                        if v["id"] in names and v.get("init"): ok |= {y.get("_id") for y in walk(v["init"])}
                elif x.get("k") == "asg" and S.place(x["a"]) in {("v", n) for n in names}: ok |= {y.get("_id") for y in walk(x["b"])}
        bad = None
        for x in fn_nodes(f):
            if x.get("k") == "var" and x.get("glob") in ("std::cout", "std::wcout", "stdout") and x.get("_id") not in ok: bad = (x, x["glob"])
            elif x.get("k") == "call":
                nm = x.get("n") or ""
                if nm in STDOUT_CALLS: bad = (x, nm)
                elif nm.rpartition("::")[2] in LOWLEVEL and x.get("ext") and any(fd_one(a) for a in x["a"][:2]): bad = (x, nm)
            elif x.get("k") == "str" and x["v"] in DEVICES: bad = (x, x["v"])
        rep.ob("standard-output", f["q"], "%s:%s" % (f["file"], (bad[0].get("l") if bad else None) or f["line"]), bad is None, bad and "writes to standard output itself (%s)" % bad[1])
        rep.functions.add(f["id"])


def fd_one(a):
    while isinstance(a, dict) and a.get("k") in ("ld", "cast"): a = a["e"]
    return isinstance(a, dict) and a.get("k") == "int" and a.get("v") == 1


# ----------------------------------------------------------------- selection
class SelRule(Rule):
    """the option reader for a given sequence of options, up to the making of the session"""
    peel = False

    def __init__(self, cl, letters, args, flow):
        self.cl, self.letters, self.args = cl, letters, args
        self.made = {}
        self.got = []
        self.flow = flow

    def inline(self, eng, fn, fr):
        if fn["id"].startswith("lambda@"): return True
        # helpers of the program file that make or choose streams
        return fn["file"] == self.cl.main["file"] and bool(fn.get("body")) and any("stream" in str(fn["_types"][t].get("s") or fn["_types"][t].get("q") or "") for t in [q["t"] for q in fn["params"]] + [fn["ret"]] if t is not None and t >= 0) and not fn.get("rec")

    def pre_call(self, eng, st, call):
        if call.name == "getopt":
            i = st.props.get("pos", 0)
            st.props["pos"] = min(i + 1, len(self.letters))
            if i >= len(self.letters): return [(st, c(-1))]
            st.store[OPTARG] = ("sym", ("argument", i, ())) if self.args[i] else C0
            return [(st, c(ord(self.letters[i])))]
        nm = call.name or ""
        if nm.rpartition("::")[2] in ("operator==", "operator!=", "strcmp", "compare") and st.props.get("pos") and self.letters[st.props["pos"] - 1] == "o":
            vals = [eng.rval(st, a, n) if isinstance(n, dict) and n.get("lv") else a for a, n in zip(call.args, call.node.get("a", ()))] + ([eng.load(st, call.obj)] if call.obj is not None else [])
            if any(v == ("str", "-") or v[0] == "ctor" and v[2] and v[2][0] == ("str", "-") for v in vals):
                s2 = st.copy()
                st.props["dash"], s2.props["dash"] = True, False
                same, other = (C1, C0) if nm.endswith("==") else (C0, C1)
                return [(st, same), (s2, other)]
        if nm.rpartition("::")[2] == "empty" and call.obj is not None and any(uses(eng.load(st, call.obj), ("sym", ("argument", i, ()))) for i in range(len(self.letters))):
            return [(st, C0)]           # a name is given
        if nm in ("std::make_unique", "std::make_shared"):
            t = self.flow.made_type(call.fr.fn, call.node)
            if t.startswith("std::basic_") and "stream" in t:
                a = eng.fresh("mk", call.node, call.fr, "new")
                self.made[a] = (t, tuple(whole(eng, st, x, n) for x, n in zip(call.args, call.node["a"])), call.node)
                return [(st, ("ctor", "std::unique_ptr", (a,)))]
        cls = norm_name(call.node.get("rq") or "") if call.node.get("k") == "ctor" else ""
        if cls.startswith("std::basic_") and "stream" in cls:
            self.made[call.obj] = (cls, tuple(whole(eng, st, x, n) for x, n in zip(call.args, call.node["a"])), call.node)
        if cls == "bant::Session":
            self.got.append((st.copy(), [call.args[i] for i in range(len(call.args))], call))
            return []
        return None


def whole(eng, st, x, n):
    """an argument, with what a reference or address of a variable leads to"""
    for _ in range(4):
        if x[0] not in ("&t", "&v"): break
        y = eng.load(st, x)
        if y == x: break
        x = y
    return x


def selection(p, rep, cl, S, tier):
    s, accepted = cl.optstring()
    where = "%s:%s" % (cl.main["file"], cl.main["line"])
    letters = [L for L in accepted]
    seqs = [()] + [(L,) for L in letters] + [("o", "q"), ("q", "o"), ("o", "o"), ("o", "v"), ("q", "v")]
    if tier == "thorough": seqs += [(a, b) for a in letters for b in letters if (a, b) not in seqs]
    for seq in seqs:
        rule = SelRule(cl, seq, [accepted.get(L, 0) for L in seq], S.flow)
        e = Engine(p, rule, K=60)
        e.run(cl.main)
        rep.eng(e)
        key = "-" + "".join(seq) if seq else "none"
        if not rule.got:
            if not seq: raise AnalysisError("no session is made")
            continue                                     # options that end the program
        for st, args, call in rule.got:
            ps = sources(e, st, args[0])
            ds = sources(e, st, args[1]) if len(args) > 1 else set()
            pw, dw = [kind(rule, e, x) for x in ps], [kind(rule, e, x) for x in ds]
            pos = [i for i, L in enumerate(seq) if L == "o"]
            if not pos: okp = bool(pw) and all(k == "cout" for k, _ in pw)
            else: okp = bool(pw) and all(k == "cout" or k == "file" and d in pos for k, d in pw)
            rep.ob("selection", key + " primary", call.where(), okp, "with these options results go to %s" % ", ".join(sorted(k for k, _ in pw)))
            if pos:
                dash = {st.props.get("dash")}
                if dash == {True}: rep.ob("selection", key + " -", call.where(), all(k == "cout" for k, _ in pw), "results do not go to standard output although that was chosen")
                elif dash == {False}: rep.ob("selection", key + " named", call.where(), all(k == "file" and d == pos[-1] for k, d in pw), "a chosen file is not used for results")
            okd = bool(dw) and all(k == ("null" if "q" in seq else "cerr") for k, _ in dw)
            rep.ob("selection", key + " diagnostics", call.where(), okd, "with these options diagnostics go to %s" % ", ".join(sorted(k for k, _ in dw)))
        for obj, (cls, args, node) in rule.made.items():
            if "fstream" not in cls: continue
            mode = openmode(node)
            if mode is not None:
                rep.ob("selection", "file mode", "%s:%s" % (cl.main["file"], node.get("l")), not mode & 1 and not (mode & 8 and not mode & 32), "the chosen file keeps what it contained before")


def openmode(node):
    vals = []
    for a in node.get("a", ())[1:]:
        for x in walk(a):
            if x.get("k") == "var" and (x.get("glob") or "").startswith("std::ios"): vals.append({"app": 1, "ate": 2, "binary": 4, "in": 8, "out": 16, "trunc": 32}.get(x["glob"].rpartition("::")[2], 0))
            elif x.get("k") == "int" and x.get("en", "").startswith("std::_S_"): vals.append(x["v"])
    if not vals: return None
    r = 0
    for v in vals: r |= v
    return r


def sources(eng, st, v):
    seen, todo, res = set(), [v], set()
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x)
        if x in eng.phi_src: todo += list(eng.phi_src[x]); continue
        res.add(x)
    return res


def kind(rule, eng, v):
    while v[0] == "ctor" and v[1] in ("std::unique_ptr", "std::shared_ptr") and len(v[2]) == 1: v = v[2][0]
    if v == ("&g", "g:std::cout"): return "cout", None
    if v in (("&g", "g:std::cerr"), ("&g", "g:std::clog")): return "cerr", None
    m = rule.made.get(v)
    if m:
        cls, args, node = m
        if "fstream" in cls:
            for i in range(len(rule.letters)):
                if any(uses(a, ("sym", ("argument", i, ()))) for a in args): return "file", i
            return "another file", None
        if norm_name(cls) == "std::basic_ostream" and args and args[0] == C0: return "null", None
    return "something else", None


def uses(v, x):
    return v == x or isinstance(v, tuple) and any(uses(y, x) for y in v)


# ----------------------------------------------------------------- factories
def factories(p, rep, V):
    for f in p.functions.values():
        if not production(f) or not f.get("body"): continue
        for x, a, pos in V.S.touches(f):
            g = p.functions.get(x.get("f"))
            if g is None or x.get("k") != "call" or g.get("ret") is None: continue
            rt = g["_types"][g["ret"]] if g["ret"] >= 0 else {}
            q = norm_name(rt.get("q") or rt.get("rec") or "")
            if not q.startswith(("std::unique_ptr", "std::shared_ptr", "std::function")): continue
            o = V.of(f, a)
            rep.ob("result-sink", "%s in %s" % (g["name"], f["q"]), "%s:%s" % (f["file"], x.get("l")), bool(o) and o <= V.prim, "results are written to %s" % ", ".join(sorted(map(str, o - V.prim))))


# ------------------------------------------------------------------ statuses
class StatusRule(Rule):
    def __init__(self, V): self.V = V

    def inline(self, eng, fn, fr): return fn["id"].startswith("lambda@")

    def pre_call(self, eng, st, call):
        n, f = call.node, call.fr.fn
        if n.get("k") in ("call", "ctor"):
            for a in ([n["obj"]] if n.get("obj") is not None else []) + list(n.get("a", ())):
                if isinstance(a, dict) and self.V.S.stream_type(f, a.get("t")) and self.V.primary(f, a): st.props["wrote"] = call.where()
        return None


def statuses(p, rep, V):
    for f in sorted(p.functions.values(), key=lambda f: f["q"]):
        if not production(f) or not f.get("body") or f.get("ret") is None or f["ret"] < 0: continue
        en = f["_types"][f["ret"]].get("enum")
        if en not in p.enums: continue
        names = {x["v"]: x["n"] for x in p.enums[en]["vals"]}
        bad = {v for v, n in names.items() if re.search("Fail|Error|Clarif|Usage|Invalid", n)}
        if not bad or not re.search("Status|Exit|Result", en.rpartition("::")[2]): continue
        e = Engine(p, StatusRule(V), K=120)
        for s, v in e.run(f):
            if v is None or v[0] != "c": continue
            w = s.props.get("wrote")
            rep.ob("error-status", "%s:%s" % (f["name"], names.get(v[1], v[1])), w or "%s:%s" % (f["file"], f["line"]), not (v[1] in bad and w), "results stream is written to before the program reports %s" % names.get(v[1]))
        rep.eng(e)


# ------------------------------------------------------------------ commands
def closure(p, fids):
    seen, todo = set(), list(fids)
    while todo:
        x = todo.pop()
        if x in seen or x is None: continue
        seen.add(x)
        for cid, n in p.calls.get(x, ()):
            todo.append(cid)
            todo += list(p.overriders.get(cid, ()))
    return seen


def commands(p, rep, cl, V):
    docs = cl.documented_commands()
    # where primary output is asked for
    asks = {}
    for f in p.functions.values():
        if not production(f) or not f.get("body"): continue
        for x, a, pos in V.S.touches(f):
            if not V.primary(f, a) or not V.direct(f, a): continue
            g = p.functions.get(x.get("f"))
            sink = is_sink(x, g)
            asks.setdefault(f["id"], []).append((sink, "%s:%s" % (f["file"], x.get("l"))))
    inner = {}                                      # lambdas belong to the routine they are written in
    for en, entries in sorted(cl.tables.items()):
        if not sum(1 for d in docs if any(n.startswith(d) for n, v, w in entries)) > len(docs) // 2: continue
        vals = [(x["n"], x["v"]) for x in p.enums[en]["vals"]]
        fs = [(f, i) for f in p.functions.values() if production(f) and f.get("body") for i, e in takes(p, f) if e == en]
        ids = {f["id"] for f, i in fs}
        tops = [(f, i) for f, i in fs if not any(c_ and c_[0] == f["id"] for g in ids if g != f["id"] for c_ in p.calls.get(g, ()))]
        for f, i in tops:
            res = kinds_handled(p, f, i, vals, same=ids, enum=en)
            for r in res.values(): rep.eng(r[3])
            per = {k: {fid for fid, ing in r[0]} for k, r in res.items()}
            if len(set(map(frozenset, per.values()))) < len(vals) // 2: continue
            count = {}
            for s in per.values():
                for x in s: count[x] = count.get(x, 0) + 1
            common = {x for x, n in count.items() if 2 * n > len(vals) and x in p.functions and "Session" not in (p.functions[x].get("rec") or "")}
            stops = {x for x in p.functions if (p.functions[x].get("rec") or "").rpartition("::")[2] in ("Session", "SessionStreams")}
            shared = closure(p, common)
            for x in sorted(common):
                bad = [w for y in closure(p, {x}) for _, w in asks.get(y, ())]
                g = p.functions[x]
                rep.ob("shared-code", g["q"], bad[0] if bad else "%s:%s" % (g["file"], g["line"]), not bad, "code that most commands run writes to the results stream")
            for n, v, w in entries:
                k = next(k for k, u in vals if u == v)
                own = closure(p, per[k] - common)
                mine = [a for y in own for a in asks.get(y, ())] + [a for a in own_asks(p, f, V, res[k], asks)]
                d = next((docs[x] for x in docs if n.startswith(x)), {"text": "", "section": ""})
                where = "%s:%s" % (f["file"], f["line"])
                if n != "parse" and k != vals[0][0]:
                    rep.ob("command-result", n, where, bool(mine), "the command '%s' never writes to the results stream" % n)
                if any(s for s, _ in mine):
                    bad = [w2 for s, w2 in mine if not s]
                    rep.ob("table-alone", n, bad[0] if bad else where, not bad, "'%s' writes beside its table or list of edits" % n)


def own_asks(p, f, V, res, asks):
    """primary output asked for in the dispatching routine itself, for this command"""
    fids = {fid for fid, ing in res[0]}
    keep = []
    for x, a, pos in V.S.touches(f):                # a call says for which commands it is made
        g = p.functions.get(x.get("f"))
        if g is not None and g["id"] in fids and V.primary(f, a) and V.direct(f, a): keep.append((is_sink(x, g), "%s:%s" % (f["file"], x.get("l"))))
    return keep


def is_sink(x, g):
    rt = g["_types"][g["ret"]] if g is not None and g.get("ret") is not None and g["ret"] >= 0 else {}
    q = norm_name(rt.get("q") or rt.get("rec") or "")
    return x.get("k") == "call" and q.startswith(("std::unique_ptr", "std::shared_ptr", "std::function"))


# --------------------------------------------------------------------- forms
def chains(S, f):
    """outermost << expressions: (node, stream, [operands])"""
    inner = set()
    top = []
    for x in fn_nodes(f):
        if x.get("k") == "call" and norm_name(x.get("n") or "").rpartition("::")[2] == "operator<<":
            first = x["obj"] if x.get("obj") is not None else x["a"][0]
            if not S.stream_type(f, first.get("t")): continue
            top.append((x, first))
            y = first
            while isinstance(y, dict) and y.get("k") in ("ld", "cast", "un"): y = y["e"]
            inner.add(y.get("_id"))
    for x, first in top:
        if x.get("_id") in inner: continue
        ops, y = [], x
        while True:
            while isinstance(y, dict) and y.get("k") in ("ld", "cast", "un"): y = y["e"]
            if not (isinstance(y, dict) and y.get("k") == "call" and norm_name(y.get("n") or "").rpartition("::")[2] == "operator<<"): break
            rest = y["a"] if y.get("obj") is not None else y["a"][1:]
            ops = list(rest) + ops
            y = y["obj"] if y.get("obj") is not None else y["a"][0]
        yield x, y, ops


def texts(e):
    return [x["v"] for x in walk(e) if x.get("k") == "str"]


def forms(p, rep, cl, V):
    for f in sorted(p.functions.values(), key=lambda f: f["id"]):
        if not production(f) or not f.get("body"): continue
        for x, a, pos in V.S.touches(f):
            g = p.functions.get(x.get("f"))
            if g is not None and norm_name(g["q"]).endswith("SourceLocator::Loc"):
                rep.ob("located", f["q"], "%s:%s" % (f["file"], x.get("l")), not V.primary(f, a), "a message with a source location goes to the results stream")
        plain = wordy = None
        for x, root, ops in chains(V.S, f):
            if not isinstance(root, dict): continue
            where = "%s:%s" % (f["file"], x.get("l"))
            lits = [t for o in ops for t in texts(o)]
            if V.primary(f, root) and V.direct(f, root):
                prose = next((t for t in lits if len(WORD.findall(t)) >= 2 and re.search(r"[A-Za-z]{2,} +[A-Za-z]{2,}", t)), None)
                rep.ob("result-form", f["q"], where, prose is None, "a message (%r) is written to the results stream" % prose)
            elif V.diagnostic(f, root) and V.direct(f, root) and ops:
                calls = any(norm_name(y.get("n") or "").endswith(("::Loc", "::str")) for o in ops for y in walk(o) if y.get("k") == "call")
                if calls or any(WORD.search(re.sub(r"^-\w$", "", t)) for t in lits): wordy = where
                elif not all(literal_only(o) for o in ops): plain = where
        if plain or wordy:
            rep.ob("diagnostic-form", f["q"], plain or wordy, wordy is not None, "plain data, and nothing else, is written to the diagnostic stream")


def literal_only(o):
    while isinstance(o, dict) and o.get("k") in ("ld", "cast", "un"): o = o["e"]
    return isinstance(o, dict) and o.get("k") in ("str", "int")
