"""C18: the clang-tidy cache key covers all that determines the result."""
from bsa.report import Report
from bsa import gather
TECHNIQUE = "symbolic dependence analysis of cache locations over the resolved AST (abstract interpretation)"
NOTE = ("Decides for every path which inputs the location of a result depends on, not that different inputs hash differently: hash collisions are out of reach. "
        "Include directives are recognised as far as samples of their spellings match the pattern.")
EXPLANATION = ("Interprets main (the three phases kept abstract), the routine building the work list and the one running the tool. The location of each result contains the full hash of the file's whole content, "
  "to which every include found in the whole text adds the recorded hash of all headers of that name in a way that neither cancels nor overwrites; headers are recorded under the same function of the path they are looked up by. "
  "Every variable part of the command run, the version output and the content of the configuration file are hashed into the directory. A file without result is queued on every path, one with findings unless newer than both build file and compilation database. "
  "Results are written where they are looked for, and every result of a tool that ran to its end replaces what was stored.")
UNITS = ["scripts/run-clang-tidy-cached.cc"]


def check(p, rep, tier):
    gather.analyse_keys(p, rep, Report("-"))
    for r in ("header-recorded", "headers-accumulate", "include-key", "include-accumulates", "content-hashed", "includes-hashed", "location-by-hash", "missing-refreshed", "stale-refreshed",
              "command-in-key", "version-in-key", "configuration-in-key", "freshness-limit", "same-location", "result-kept"):
        rep.require(r, 1)
