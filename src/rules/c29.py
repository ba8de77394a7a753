"""C29: the clang-tidy report covers every file and decides the exit status."""
from bsa.report import Report
from bsa import gather
TECHNIQUE = "path-sensitive loop and return-value analysis over the resolved AST (abstract interpretation)"
NOTE = ("Every path through one iteration of the search, report and count loops is examined, so it holds for any number of files and findings. The pattern recognising findings is matched against samples of check names.")
EXPLANATION = ("Interprets main and the routines that search files and write the report. Every file found that is not excluded by configuration is in the list the report goes over; on every path of an iteration of that loop the "
  "whole stored result is read from where it was kept, written out if not empty, and every match in all of it counted as one more of its check; no loop ends early. A report replaces the one of an earlier run; every count is printed. The number returned is zero exactly if nothing was counted; "
  "the exit status is zero (mod 256) exactly if that number is, and non-zero on every path that ends before the report. The steps run in order and with the gathered work list.")
UNITS = ["scripts/run-clang-tidy-cached.cc"]


def check(p, rep, tier):
    gather.analyse_keys(p, Report("-"), rep)
    for r in ("file-listed", "all-directories", "result-reported", "result-counted", "finding-counted", "number-returned", "exit-status", "setup-failure", "order", "work-passed-on"):
        rep.require(r, 1)
