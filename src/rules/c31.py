"""C31: commands meant for a shell quote all project text."""
from bsa.prog import AnalysisError, norm_name, fn_nodes, walk
from bsa import textflow
from bsa.textflow import TextFlow, context, shell_quoter

TECHNIQUE = "interprocedural provenance (taint) analysis of text over the resolved AST, quoting routines verified by abstract interpretation"
NOTE = ("Flow-insensitive: every definition of every string that can reach a shell command or the edit script is followed through helpers, members and containers to literals, numbers, "
        "quoting routines or the environment. A routine counts as quoting only if every path of it is shown to quote. Text from environment variables is trusted as the user's own command text.")
EXPLANATION = ("Every call that hands a command to a shell (system, popen) and every write to the stream of an edit script is a sink. Each piece of the text that reaches a sink is a literal, a number, "
               "a constant of the program, the user's environment, or the result of a routine verified to quote its argument for the shell, and quoted pieces do not stand inside quotes opened by literal text.")
UNITS = ["scripts/run-clang-tidy-cached.cc", "bant/tool/edit-callback.cc"]
SHELL = {"system", "popen", "std::system", "execl", "execlp", "execle", "posix_spawn"}


def edit_fns(p):
    """routines that are given an edit request, and what they call"""
    todo, seen = [], set()
    for f in p.functions.values():
        if f["file"].endswith("_test.cc"): continue
        T = f["_types"]
        for q in f["params"]:
            t = T[q["t"]]
            if t.get("k") == "enum" and norm_name(t.get("q") or t.get("s") or "").endswith("EditRequest"):
                todo.append(f["id"])
    while todo:
        x = todo.pop()
        if x in seen or x not in p.functions: continue
        seen.add(x)
        todo += [c for c, n in p.calls.get(x, ())]
    return [p.functions[x] for x in seen]


def chain(e):
    """operands of nested stream insertions, leftmost first"""
    ops = []
    while e is not None and e.get("k") == "call" and norm_name(e.get("n") or "").rpartition("::")[2] == "operator<<":
        args = ([e["obj"]] if e.get("obj") else []) + e["a"]
        if len(args) != 2: break
        ops.append((args[1], e))
        e = textflow.unload(args[0])
    return e, ops[::-1]


def check(p, rep, tier):
    qc = {}
    def quoter(call, fr):
        f = p.functions.get(call.get("f"))
        return f is not None and shell_quoter(p, f, qc)
    def trusted(kind, name):
        if kind == "call" and name in ("getenv", "std::getenv"): return "environment"
        return None
    tf = TextFlow(p, quoter, trusted)

    def judge(rule, f, key, ps, e):
        where = "%s:%s" % (f["file"], e.get("l"))
        bad = next((x for x in ps if x[0] == "raw"), None)
        i = context(ps)
        rep.ob(rule, key, where, bad is None, bad and "unquoted text (%s at %s) is part of it" % (bad[1], bad[2]))
        rep.ob("not-inside-quotes", key, where, i is None, "quoted text stands inside quotes")
        rep.functions.add(f["id"])

    n = 0
    for f in p.functions.values():
        if f["file"].endswith("_test.cc") or not f.get("body"): continue
        for x in fn_nodes(f):
            if x.get("k") == "call" and norm_name(x.get("n") or "") in SHELL and x.get("ext"):
                n += 1
                for a in x["a"][:1]:
                    judge("shell-command", f, "%s in %s" % (x["n"], f["q"]), tf.pieces(f, a), x)
    edits = 0
    for f in edit_fns(p):
        if not f.get("body") or f["id"] in qc and qc[f["id"]]: continue
        inner = set()
        for x in fn_nodes(f):
            if x.get("k") == "call" and norm_name(x.get("n") or "").rpartition("::")[2] == "operator<<" and id(x) not in inner:
                root, ops = chain(x)
                for _, y in ops: inner.add(id(y))
                t = f["_types"][root["t"]] if root and root.get("t", -1) >= 0 else {}
                if "ostream" not in (t.get("q") or "") + t.get("s", ""):
                    continue
                if any("std::c" == norm_name(y.get("glob") or "")[:6] for y in walk(root)):
                    continue        # diagnostics
                edits += 1
                ps = []
                for a, y in ops:
                    at = f["_types"][a["t"]] if a.get("t", -1) >= 0 else {}
                    if norm_name((at.get("q") or "")).startswith("bant::"):
                        # printed by an insertion routine of its own
                        ps.append(("raw", "printed " + (at.get("q") or "object"), "%s:%s" % (f["file"], a.get("l"))))
                        continue
                    if a.get("k") == "fn" or at.get("k") == "func": continue
                    ps += tf.pieces(f, a)
                judge("edit-script", f, "write in %s" % f["q"], ps, x)
    rep.functions |= tf.analysed
    rep.steps += tf.steps
    for fid, ok in qc.items():
        if ok: rep.ob("quoting-routine", p.functions[fid]["q"], "%s:%s" % (p.functions[fid]["file"], p.functions[fid]["line"]), True)
    rep.require("shell-command", 1)
    rep.require("edit-script", 1)
