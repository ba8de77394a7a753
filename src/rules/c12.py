"""C12: every command, option, format and token kind is handled."""
import re
from bsa.cmdline import CommandLine, kinds_handled, production, enum_of
from bsa.engine import Engine, Rule, show
from bsa.prog import AnalysisError, fn_nodes

TECHNIQUE = "abstract interpretation of each routine that distinguishes kinds, once per enumerator, and comparison of the effects; option string, name tables and usage text compared with what is handled"
NOTE = "Says that every kind has a treatment of its own, not that the treatment is the right one."
EXPLANATION = ("The option reader is interpreted once for each possible option letter: what it does there is compared with what it does for an unknown letter, with the letters the program accepts, and with the usage text. Each routine that turns kinds (commands, formats, edits, list and token kinds) into effects is "
               "interpreted once per kind: no two kinds may have the same effects, and none may be without. The tables of names must name each kind unmistakably.")
UNITS = ["bant/bant.cc", "bant/cli-commands.cc", "bant/util/table-printer.cc", "bant/tool/edit-callback.cc", "bant/frontend/print-visitor.cc", "bant/frontend/scanner.cc"]


def check(p, rep, tier):
    cl = CommandLine(p)
    options(p, rep, cl)
    names(p, rep, cl)
    kinds(p, rep, cl)
    commands(p, rep, cl)
    rep.require("option-accepted", 10)
    rep.require("option-documented", 8)
    rep.require("name-unique", 10)
    rep.require("kind-distinct", 20)


# ------------------------------------------------------------------ options
def options(p, rep, cl):
    s, accepted = cl.optstring()
    docs = cl.documented_options()
    where = "%s:%s" % (cl.main["file"], cl.main["line"])
    def plain(rule, letter):
        return {(tuple(x for x in did or () if not (x[0] == "=" and x[2] == str(ord(letter)))) if isinstance(did, tuple) else did, end if end == "next" else re.sub(r"\d+", "", str(end))) for did, end in rule.behaviour}
    r, e = cl.option("?", 0)
    rep.eng(e)
    unknown = plain(r, "?")
    does = {}
    for L in "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz":
        r, e = cl.option(L, accepted.get(L, 0))
        rep.eng(e)
        does[L] = r
        handled = plain(r, L) != unknown
        if handled:
            rep.ob("option-accepted", L, where, L in accepted, "-%s is handled but not among the letters the program accepts (\"%s\")" % (L, s))
            for w in sorted(set(r.missing)): rep.ob("option-argument", L, w, False, "-%s uses an argument that may be missing" % L)
            rep.ob("option-effect", L, where, any(did or end != "next" for did, end in plain(r, L)), "-%s is accepted but does nothing" % L)
            rep.ob("option-argument", L, where, not r.missing, "-%s uses an argument that may be missing" % L)
            for f, w in sorted(r.sets.items()):
                readers = [g["q"] for g in p.functions.values() if production(g) and g["id"] != cl.main["id"] and any(x.get("k") == "mem" and x.get("f") == f for x in fn_nodes(g))]
                rep.ob("option-used", "%s:%s" % (L, f.split("::")[-1]), w, bool(readers), "-%s sets %s, which nothing reads" % (L, f))
        if L in docs:
            line = next((x for x in cl.usage.splitlines() if re.search(r"-%s\b" % L, x)), "")
            rep.ob("option-documented", L, where, L in accepted and (handled or "help" in line), "-%s is documented but %s" % (L, "does nothing" if L in accepted else "not accepted"))
            if L in accepted and docs[L]:
                rep.ob("option-documented", L + "<>", where, accepted[L] == 1, "-%s is documented with an argument but accepted without" % L)


# -------------------------------------------------------------------- names
def names(p, rep, cl):
    docs = cl.documented_commands()
    if not cl.tables: raise AnalysisError("no table of names found")
    documented = None
    for en, entries in sorted(cl.tables.items()):
        named = [n for n, v, w in entries]
        for n, v, w in entries:
            rep.ob("name-unique", "%s:%s" % (en.split("::")[-1], n), w, not any(m != n and m.startswith(n) for m in named) and named.count(n) == 1, "'%s' can not be told from another name" % n)
            same = [m for m, u, _ in entries if u == v and m != n]
            rep.ob("name-means", "%s:%s" % (en.split("::")[-1], n), w, not same, "'%s' and '%s' mean the same" % (n, ", ".join(same)))
        vals = {v for n, v, w in entries}
        first = min(x["v"] for x in p.enums[en]["vals"])
        for x in p.enums[en]["vals"]:
            rep.ob("kind-named", "%s" % x["n"], entries[0][2], x["v"] in vals or x["v"] == first, "%s can not be chosen by any name" % x["n"])
        if sum(1 for d in docs if any(n.startswith(d) for n in named)) > len(docs) // 2: documented = (en, entries)
    if documented:
        en, entries = documented
        for d in docs:
            rep.ob("name-documented", d, entries[0][2], sum(1 for n, v, w in entries if n.startswith(d)) == 1, "the documented command '%s' is not known" % d)
        for n, v, w in entries:
            rep.ob("name-documented", n, w, any(n.startswith(d) for d in docs), "the command '%s' is not documented" % n)


# -------------------------------------------------------------------- kinds
def takes(p, f):
    """positions of parameters that are a kind"""
    for i, x in enumerate(f["params"]):
        ty = f["_types"][x["t"]]
        if ty.get("k") == "ref": ty = f["_types"][ty["to"]]
        if ty.get("k") == "enum" and ty.get("enum") in p.enums: yield i, ty["enum"]


def kinds(p, rep, cl):
    by_enum = {}
    for f in p.functions.values():
        if not production(f) or not f.get("body"): continue
        for i, en in takes(p, f): by_enum.setdefault(en, []).append((f, i))
    for en, fs in sorted(by_enum.items()):
        if not p.enums[en].get("file", "").startswith("bant/"): continue
        vals = []
        for x in p.enums[en]["vals"]:
            if x["v"] not in [v for _, v in vals]: vals.append((x["n"], x["v"]))
        if len(vals) < 3: continue
        ids = {f["id"] for f, i in fs if "operator<<" not in f["q"]}
        for f, i in sorted(fs, key=lambda x: x[0]["q"]):
            if f["_types"][f["ret"]].get("k") == "bool" if "ret" in f else False: continue
            distinguish(p, rep, cl, en, vals, f, i, ids)


def distinguish(p, rep, cl, en, vals, f, i, ids):
    res = kinds_handled(p, f, i, vals, same=ids, enum=en)
    does = {}
    void = f["_types"][f["ret"]].get("k") == "void" if "ret" in f else False
    for name, (may, outs, sets, e) in res.items():
        rep.eng(e)
        does[name] = (frozenset(may), frozenset("()" if void else what(v) for s, v in outs))
    classes = len(set(does.values()))
    if classes < (len(vals) + 1) // 2: return          # a question about kinds, not a treatment of each
    where = "%s:%s" % (f["file"], f["line"])
    if "operator<<" in f["q"]: spelled(p, rep, en, {v: {x[1] for fid, ing in does[n][0] for x in ing if x[0] == "s"} for n, v in vals}, dict((v, n) for n, v in vals), where)
    idle = cl.tables.get(en)
    first = vals[0][0]
    order = [n for n, v in vals]
    for n in order:
        same = [m for m in order[:order.index(n)] if does[m] == does[n]]
        rep.ob("kind-distinct", "%s:%s" % (en.split("::")[-1], n) + ("=" + same[0] if same else ""), where, not same, "%s is treated like %s" % (n, ", ".join(same)))
        if not (idle and n == first):
            rep.ob("kind-handled", "%s:%s" % (f["q"], n), where, bool(does[n][0]) or len(does[n][1] - {"()"}) > 0, "nothing is done for %s" % n)


def spelled(p, rep, en, text, names, where):
    """a routine that finds out a kind by comparing with its spelling"""
    fields = {}
    for r in p.records.values():
        for fd in r.get("fields", ()):
            if r["_types"][fd["type"]].get("enum") == en: fields[r["id"]] = fd["id"]
    for f in p.functions.values():
        if not production(f) or not f.get("body") or f["_types"][f["ret"]].get("rec") not in fields: continue
        if sum(1 for x in fn_nodes(f) if x.get("k") == "str") < 3: continue
        e = Engine(p, Rule(), K=60)
        read = set()
        fd = fields[f["_types"][f["ret"]]["rec"]]
        for s, v in e.run(f):
            if v is None or v[0] != "upd": continue
            kind = dict(v[2]).get(fd)
            lits = [k for k, t in s.facts.items() if t is True and isinstance(k, tuple) and k and isinstance(k[-1], tuple) and k[-1][:1] == ("str",)]
            if kind is None or kind[0] != "c" or len(lits) != 1: continue
            spelling = lits[0][-1][1]
            read.add(spelling)
            rep.ob("kind-spelled", "%s:%s" % (f["q"], spelling), where, any((t + " ").startswith(spelling + " ") for t in text.get(kind[1], ())), "'%s' is read as %s, which is written %s" % (spelling, names.get(kind[1]), sorted(text.get(kind[1], ()))))
        for spelling in sorted({x["v"] for x in fn_nodes(f) if x.get("k") == "str"} & {t for ts in text.values() for t in ts}):
            rep.ob("kind-spelled", "%s:%s" % (f["q"], spelling), where, spelling in read or not read, "'%s' is not read as a kind of its own" % spelling)
        rep.eng(e)


# ----------------------------------------------------------------- commands
def commands(p, rep, cl):
    """what the usage text says about a command"""
    docs = cl.documented_commands()
    for en, entries in sorted(cl.tables.items()):
        if not sum(1 for d in docs if any(n.startswith(d) for n, v, w in entries)) > len(docs) // 2: continue
        vals = [(x["n"], x["v"]) for x in p.enums[en]["vals"]]
        fs = [(f, i) for f in p.functions.values() if production(f) and f.get("body") for i, e in takes(p, f) if e == en]
        ids = {f["id"] for f, i in fs}
        tops = [(f, i) for f, i in fs if not any(c_ and c_[0] == f["id"] for g in ids if g != f["id"] for c_ in p.calls.get(g, ()))]
        depth = option_field(p, cl, "r")
        makers = {f["id"] for f in p.functions.values() if production(f) and f.get("body") and any(e != en and e in cl.tables for i, e in takes(p, f))}
        for f, i in tops:
            where = "%s:%s" % (f["file"], f["line"])
            res = kinds_handled(p, f, i, vals, same=ids, enum=en)
            for n, v, w in entries:
                kind = next(k for k, u in vals if u == v)
                may = res[kind][0]
                rep.eng(res[kind][3])
                d = next((docs[x] for x in docs if n.startswith(x)), None)
                if d is None: continue
                if depth and "-r" in d["section"]:
                    rep.ob("follows-with-r", n, where, any(("m", depth) in ing for fid, ing in may), "'%s' is documented to follow dependencies with -r, but the depth is not used" % n)
                if re.search(r"\bcolumn table\b", d["text"]):
                    rep.ob("prints-table", n, where, any(reaches(p, fid, makers) for fid, ing in may), "'%s' is documented to print a table, but makes none" % n)


def option_field(p, cl, letter):
    r, e = cl.option(letter, 2)
    return next(iter(r.sets), None)


def reaches(p, fid, goal):
    seen, todo = set(), [fid]
    while todo:
        x = todo.pop()
        if x in goal: return True
        if x in seen: continue
        seen.add(x)
        todo += [y[0] for y in p.calls.get(x, ()) if y[0]]
    return False


def what(v):
    if v is None: return "()"
    return re.sub(r"(new|mk|sym)\([^()]*\)|@\d+", "", show(v)) if v[0] in ("c", "str", "ctor", "init") else v[0]
