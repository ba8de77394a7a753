"""C17: parallel clang-tidy workers take each work item exactly once."""
from bsa.report import Report
from bsa import worker
TECHNIQUE = "lockset and critical-section typestate analysis of the worker over the resolved AST"
NOTE = ("Every queue access on every path of a worker is checked for the lock held; what is known about the queue is forgotten whenever the lock is taken, so the result holds for "
        "every interleaving. Joining is decided on every path of the starting routine. Assumes mutexes exclude and exceptions do not escape.")
EXPLANATION = ("Interprets the routine that starts the workers and one worker. Each access to the shared work queue from a worker holds a lock common to all accesses and shared by all workers; "
  "an item is taken only when the queue is known not to be empty within the same critical section, and is removed in that section; the tool runs without the lock; workers are started if there is "
  "work, and all of them are joined on every path before the routine returns or touches the queue again.")
UNITS = ["scripts/run-clang-tidy-cached.cc"]


def check(p, rep, tier):
    worker.analyse(p, Report("-"), rep)
    for r in ("queue-locked", "common-lock", "checked-not-empty", "take-and-remove", "tool-unlocked", "workers-joined"):
        rep.require(r, 1)
