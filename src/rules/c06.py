"""C06: tokenising never reads or yields text outside the content."""
from bsa import lin
from bsa.engine import Engine, Rule, St, c, C0, C1, show, eq0, ge0, fld, size_of, data_of, neg
from bsa.prog import AnalysisError, norm_name, fn_nodes, walk
from bsa.scan import Roles, ScanRule

TECHNIQUE = "interval analysis with linear relations between positions (abstract interpretation of the tokeniser with all helpers in place, loops by fixpoint)"
NOTE = "Covers every byte sequence: the content is symbolic. Assumes that positions are pointers into the content and that the content does not change while it is tokenised (C27)."
EXPLANATION = ("The constructor is interpreted to find which members hold the current position and the end of the content. Every public operation is then interpreted from an unknown state in which the position lies in the content: each byte read must lie at or after the start and before "
               "the end; each token returned must be a part of the content; the position stays in the content, and either moves forward, or the end of file is reported, which happens only and always at the end of the content. Looking ahead returns the token that is returned "
               "next and consumes nothing else.")
UNITS = ["bant/frontend/scanner.cc"]


def check(p, rep, tier):
    R = Roles(p).bounds()
    rep.eng(R.ctor_eng)
    BEG, SIZE = data_of(R.content), size_of(R.content)
    POS, ENDF = R.addr(R.pos), R.addr(R.end)
    bools = [x["id"] for x in R.scanner["fields"] if R.scanner["_types"][x["type"]]["k"] == "bool"]
    toks = [x["id"] for x in R.scanner["fields"] if R.scanner["_types"][x["type"]].get("rec") == R.token["id"]]
    eof = R.enum.get("kEof")
    if not R.methods: raise AnalysisError("no public operations on the tokeniser")
    if not R.enum: raise AnalysisError("kinds of token not found")
    ntok = 0
    for f in sorted(R.methods, key=lambda f: f["line"]):
        gives = f.get("ret") is not None and f["_types"][f["ret"]].get("rec") == R.token["id"]
        rule = ScanRule(R, rep)
        e = Engine(p, rule, K=1000)
        st = St()
        P0, E0 = e.load(st, POS), e.load(st, ENDF)
        rule.BEG, rule.END = BEG, E0
        end = lin.add(BEG, SIZE)
        st.lin += [lin.add(P0, BEG, -1), lin.add(E0, P0, -1), lin.add(E0, end, -1), lin.add(end, E0, -1)]
        buffered = [e.load(st, R.addr(x)) for x in toks]
        flags = {x: e.load(st, R.addr(x)) for x in bools}
        for x in flags.values(): e.boolv.add(x)
        # a token kept from looking ahead is a part of the content
        for b in buffered:
            t = fld(b, R.text)
            st.lin += [lin.add(data_of(t), BEG, -1), lin.add(E0, lin.add(data_of(t), size_of(t)), -1)]
        where = "%s:%s" % (f["file"], f["line"])
        outs = e.run(f, st, this=R.this)
        rep.eng(e)
        rule.report(rep)
        for s, v in outs:
            P1, E1 = e.load(s, POS), e.load(s, ENDF)
            rep.ob("end-fixed", f["q"], where, E1 == E0, "changes the end of the content")
            rep.ob("position-inside", f["q"], where, e.entails(s, lin.add(P1, P0, -1)) and e.entails(s, lin.add(E0, P1, -1)), "may leave the position %s before where it was or behind the end of the content" % show(P1)[:60])
            kept = [fld(e.load(s, R.addr(x)), R.text) for x in toks]
            for b, t in zip(buffered, kept):
                rep.ob("token-inside", f["q"] + ": kept", where, t == fld(b, R.text) or inside(e, s, t, BEG, E0), "keeps a token whose text is not shown to be a part of the content")
            if not gives: continue
            ntok += 1
            t = fld(v, R.text)
            old = any(v == b or t == fld(b, R.text) for b in buffered)
            rep.ob("token-inside", f["q"], where, old or inside(e, s, t, BEG, E0), "returns a token whose text [%s, +%s) is not shown to be a part of the content" % (show(data_of(t))[:50], show(size_of(t))[:50]))
            if old:
                rep.ob("progress", f["q"] + ": token looked at before", where, P1 == P0, "returns a token read earlier, yet moves on in the content")
                continue
            ty = fld(v, R.type)
            iseof = ty == c(eof)
            if iseof:
                rep.ob("progress", f["q"] + ": end", where, same(e, s, P1, E0), "reports the end of file at %s, which is not shown to be the end of the content" % show(P1)[:60])
            else:
                may = ty[0] != "c" and e.truth(s, eq0(lin.add(ty, c(-eof)))) is not False
                rep.ob("progress", f["q"], where, e.entails(s, lin.add(lin.add(P1, P0, -1), c(-1))) and not may, "returns a token without moving forward")
                rep.ob("progress", f["q"] + ": not empty", where, e.entails(s, lin.add(size_of(t), c(-1))), "returns an empty token that is not the end of file")
        # at the end of the content nothing but the end of file
        if gives:
            e = Engine(p, ScanRule(R, rep), K=1000)
            st = St()
            P0, E0 = e.load(st, POS), e.load(st, ENDF)
            st.lin += [lin.add(P0, E0, -1), lin.add(E0, P0, -1)]
            for s, v in e.run(f, st, this=R.this):
                if any(v == b or fld(v, R.text) == fld(b, R.text) for b in buffered): continue
                rep.ob("keeps-reporting-end", f["q"], where, fld(v, R.type) == c(eof), "may report something else than the end of file at the end of the content")
    lookahead(p, rep, R, toks, bools, POS)
    rep.notes.append("position %s, end %s, content %s; %d operations, %d outcomes with a token" % (R.pos, R.end, show(R.content)[:60], len(R.methods), ntok))
    rep.require("token-inside", 2)
    rep.require("read-inside", 3)
    rep.require("progress", 2)
    rep.require("keeps-reporting-end", 1)


def lookahead(p, rep, R, toks, bools, POS):
    """with a token kept, every operation returns that one, and only taking it forgets it"""
    if len(toks) != 1 or not bools: return
    kept = R.addr(toks[0])
    gives = [f for f in R.methods if f.get("ret") is not None and f["_types"][f["ret"]].get("rec") == R.token["id"]]
    # the member that says whether a token is kept: the one under which the kept token is returned
    for b in bools:
        res = {}
        for val in (C0, C1):
            for f in gives:
                e = Engine(p, ScanRule(R, rep), K=1000)
                st = St()
                st.store[R.addr(b)] = val
                buf = e.load(st, kept)
                pos = e.load(st, POS)
                outs = []
                for s, v in e.run(f, st, this=R.this):
                    k = e.load(s, kept)
                    outs.append((v == buf or fld(v, R.text) == fld(buf, R.text), v == k or fld(v, R.text) == fld(k, R.text), e.load(s, R.addr(b)), e.load(s, POS) == pos))
                res[f["id"], val] = outs
        on = [v for v in (C0, C1) if all(all(o[0] for o in res[f["id"], v]) for f in gives)]
        off = [v for v in (C0, C1) if not any(o[0] for f in gives for o in res[f["id"], v])]
        if len(on) != 1 or len(off) != 1: continue
        for f in gives:
            where = "%s:%s" % (f["file"], f["line"])
            a, z = res[f["id"], on[0]], res[f["id"], off[0]]
            looks = all(o[2] == on[0] for o in a)
            takes = all(o[2] == off[0] for o in a)
            rep.ob("look-ahead", f["q"], where, looks or takes, "sometimes keeps and sometimes forgets the token it returns")
            rep.ob("look-ahead", f["q"] + ": consumes nothing", where, all(o[3] for o in a), "moves on in the content although a token is kept")
            if looks: rep.ob("look-ahead", f["q"] + ": keeps", where, all(o[1] and o[2] == on[0] for o in z), "does not keep the token it shows for the next request")
            else: rep.ob("look-ahead", f["q"] + ": takes", where, all(o[2] == off[0] for o in z), "returns a token that will be returned again")
        rep.require("look-ahead", 4)
        return
    rep.ob("look-ahead", "token kept", "%s:%s" % (R.scanner["file"], R.scanner["line"]), False, "no member decides whether the kept token is returned next")


def inside(e, s, t, BEG, END):
    return e.entails(s, lin.add(data_of(t), BEG, -1)) and e.entails(s, lin.add(lin.add(END, data_of(t), -1), size_of(t), -1)) and e.entails(s, size_of(t))


def same(e, s, a, b):
    d = lin.add(a, b, -1)
    return d == C0 or (e.entails(s, d) and e.entails(s, lin.scale(d, -1)))

