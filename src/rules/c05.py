"""C05: parsing terminates: every loop and recursion consumes input."""
from bsa.engine import Engine, St, C0, eq0
from bsa import lin
from bsa.engine import c, size_of, data_of
from bsa.scan import ScanRule
from bsa.grammar import Grammar, Progress, ATEND

TECHNIQUE = "termination by a ranking argument: abstract interpretation counts the tokens taken on every path around each loop and each circle of calls"
NOTE = "Together with C06 (each token taken moves forward in the content). Stack depth for deeply nested input is not bounded by this."
EXPLANATION = ("The tokeniser is replaced by a stream of unknown tokens that ends in end-of-file tokens. Every loop of the parser must take at least one token other than the end of file each time around; the circle of calls between grammar routines is cut at the fewest routines, "
               "and every path from the start of a cut routine to the next call of one must have taken such a token.")
UNITS = ["bant/frontend/parser.cc", "bant/frontend/scanner.cc"]


def check(p, rep, tier):
    g = Grammar(p)
    giving = set(g.cuts)
    while True:
        runs = [(fid,) + run(p, g, fid, giving, rep) for fid in g.entries + g.cuts]
        bad = {fid for fid, e, rule, outs in runs if fid in giving and any(s.props.get("root") != 1 and e.truth(s, eq0(v)) is not True for s, v in outs)}
        if not bad: break
        giving -= bad            # the others relied on it
    for fid, e, rule, outs in runs:
        rep.eng(e)
        f = g.inner[fid]
        for (q, line, _), (ok, file) in sorted(rule.found.items(), key=str):
            rep.ob("loop-takes-token", q, "%s:%s" % (file, line), ok, "goes around without having taken a token")
        if fid in g.cuts:
            for callee, ok, node, fr in rule.edges:
                rep.ob("recursion-takes-token", "%s: %s -> %s" % (f["q"], fr.fn["q"], g.inner[callee]["q"].rpartition("::")[2]), fr.where(node), ok, "reaches %s again without having taken a token (%s)" % (g.inner[callee]["q"], fr.chain()))
    rep.notes.append("recursion cut at %s; a result other than null means a token was taken: %s; started at %s; %d routines" % (", ".join(g.inner[x]["q"] for x in g.cuts), ", ".join(g.inner[x]["q"] for x in sorted(giving)) or "none", ", ".join(g.inner[x]["q"] for x in g.entries), len(g.inner)))
    scanner(p, rep, g.R.bounds(), g)
    rep.require("loop-takes-token", 2)
    if g.cuts: rep.require("recursion-takes-token", 2)


def run(p, g, fid, giving, rep):
    rule = Progress(g, giving)
    e = Engine(p, rule, K=40, max_depth=24)
    st = St()
    g.fresh_state(e, st)
    st.store[ATEND] = e.created(("sym", "end before"))
    st.props["root"] = 0
    return e, rule, e.run(g.inner[fid], st, this=g.this)


class Advance(ScanRule):
    """on every way around a loop of the tokeniser the same position or count grows"""
    def __init__(self, R, rep):
        super().__init__(R, rep)
        self.rounds = {}

    def on_loop_back(self, eng, head, st, node, fr):
        if node.get("k") != "foreach":
            ups = set()
            for a, v in st.store.items():
                o = eng.load(head.copy(), a)
                if o == v: continue
                d = lin.add(lin.add(v, o, -1), c(-1))
                if (d[1] >= 0) if d[0] == "c" else eng.entails(st, d): ups.add((a[0], repr(a)))
            k = (fr.fn["q"], node.get("l"), node.get("_id"))
            old = self.rounds.get(k)
            self.rounds[k] = (ups if old is None else old[0] & ups, fr.fn["file"])
        super().on_loop_back(eng, head, st, node, fr)


def scanner(p, rep, R, g):
    BEG, SIZE = data_of(R.content), size_of(R.content)
    POS, ENDF = R.addr(R.pos), R.addr(R.end)
    for f in R.methods:
        if f["id"] not in g.takes: continue
        rule = Advance(R, rep)
        e = Engine(p, rule, K=1000)
        st = St()
        P0, E0 = e.load(st, POS), e.load(st, ENDF)
        rule.BEG, rule.END = BEG, E0
        end = lin.add(BEG, SIZE)
        st.lin += [lin.add(P0, BEG, -1), lin.add(E0, P0, -1), lin.add(E0, end, -1), lin.add(end, E0, -1)]
        e.run(f, st, this=R.this)
        rep.eng(e)
        for (q, line, _), (ups, file) in sorted(rule.rounds.items(), key=str):
            rep.ob("loop-advances", q, "%s:%s" % (file, line), bool(ups), "goes around without moving on in the content")
    rep.require("loop-advances", 2)
