"""C26: results that may be absent are checked before they are used."""
from bsa.absence import Absence

TECHNIQUE = "presence analysis: path-sensitive abstract interpretation of every function, with parameters resolved at their call sites and results at the returns of the callee over the whole program"
NOTE = ("Nodes of the syntax tree are C08's. Parameters are trusted where no call in the program hands an absent value over, members and elements of containers are trusted. 'Nothing found' in a keyed container is excluded for keys that come from a list which is only ever extended together with that container.")
EXPLANATION = ("Every function that deals with optional values, pointers or searches is interpreted from an unknown state. Wherever such a value is used and the path does not show its presence, its origins are followed: a search in a container, a library function that returns nothing on failure, "
               "a returned null or empty optional anywhere down the callees (including overriding functions), an argument at any call site. What can be traced to an absent value is reported with that trace.")
UNITS = ["bant/frontend/parsed-project.cc", "bant/frontend/source-locator.cc", "bant/tool/dwyu.cc", "bant/tool/compilation-db.cc", "bant/tool/canon-targets.cc", "bant/cli-commands.cc", "bant/bant.cc", "bant/workspace.cc", "bant/explore/dependency-graph.cc",
         "bant/explore/header-providers.cc", "scripts/run-clang-tidy-cached.cc", "bant/session.h", "bant/util/file-utils.cc", "bant/frontend/elaboration.cc"]


def check(p, rep, tier):
    ab = Absence(p, rep)
    for (fid, kind, _), evs in sorted(ab.uses.items(), key=str):
        f = p.functions[fid]
        for d, w, what in evs:
            why = ab.solve(d)
            rep.ob("checked-before-use-" + kind, "%s:%s" % (f["q"], what), w, why is None, "%s is used, but may be absent: %s" % (what, why))
    rep.require("checked-before-use-optional", 40)
    rep.require("checked-before-use-pointer", 40)
    rep.require("checked-before-use-iterator", 8)
    rep.notes.append("%d functions, %d call arguments and %d results resolved" % (len(ab.fns), len(ab.args), len(ab.rets)))
