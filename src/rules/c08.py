"""C08: parts of a syntax tree that may be missing are checked before use."""
from bsa.nulls import Nulls

TECHNIQUE = "nullness analysis: path-sensitive abstract interpretation of every function that handles tree nodes, with parameters, results and members resolved over the whole program (greatest fixpoint)"
NOTE = "About the nodes of the syntax tree; other pointers and optional values are C26's."
EXPLANATION = ("Every function that handles tree nodes is interpreted from an unknown state. Wherever a node is used and the path does not show that it is there, its origins are followed: parameters to all call sites, results to all returns of the callee, members and list elements to everything "
               "that is ever put there, through the whole program; what meets a missing node is reported, what only meets itself holds. The same is asked of every cast to a special kind of node: the node must be known to be of that kind.")
UNITS = ["bant/frontend/parser.cc", "bant/frontend/ast.cc", "bant/frontend/elaboration.cc", "bant/frontend/print-visitor.cc", "bant/frontend/variable-extracting-visitor.cc", "bant/explore/query-utils.cc", "bant/tool/dwyu.cc"]


def check(p, rep, tier):
    nf = Nulls(p, rep)
    for (fid, what, _), evs in sorted(nf.uses.items(), key=str):
        f = p.functions[fid]
        for d, w, ch in evs:
            why = nf.solve(d, "there")
            rep.ob("checked-before-use", "%s:%s" % (f["q"], what), w, why is None, "uses a node that may not be there: %s" % why)
    for (fid, want, _), evs in sorted(nf.casts.items(), key=str):
        f = p.functions[fid]
        for d, w, ch in evs:
            why = nf.solve(d, want)
            rep.ob("right-kind", "%s:%s" % (f["q"], want), w, why is None, "takes a node for a %s: %s" % (want, why))
    rep.require("checked-before-use", 30)
    rep.require("right-kind", 2)
