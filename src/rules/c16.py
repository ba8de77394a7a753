"""C16: the clang-tidy cache only ever holds complete results."""
from bsa.report import Report
from bsa import worker
TECHNIQUE = "typestate and path-condition analysis of the worker over the resolved AST (abstract interpretation)"
NOTE = ("Every path of a worker through its iteration is summarised; at each publishing rename the path's conditions, open streams and the symbolic file names "
        "are checked. Assumes rename within a directory is atomic and a shell passes on the tool's termination signal; contents the tool itself fails to write are out of reach.")
EXPLANATION = ("Interprets the routine that starts the workers and one worker's iteration on every path. At each rename that publishes a result: the target is the name "
  "results are looked up under, the source is another name in the same directory that the tool's output was redirected to (tool in the foreground), that is different for different work items, "
  "that no stream still has open and whose last write was checked; the conditions on the path exclude that the tool was interrupted, killed or not started. "
  "The status is that of the tool itself, not of a pipe, and rewriting the temporary file replaces its content. No final name is opened for writing or written by the tool directly.")
UNITS = ["scripts/run-clang-tidy-cached.cc"]


def check(p, rep, tier):
    worker.analyse(p, rep, Report("-"))
    for r in ("published-name", "same-directory", "interrupted", "tool-finished", "written-out", "own-temporary"):
        rep.require(r, 1)
