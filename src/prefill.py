"""Fill the per-unit cache once (only a cache: every check re-reads /repo and re-exports what changed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(30000)
from bsa import prog
p = prog.load()
print("units %d, functions %d" % (len(p.units), len(p.functions)) if hasattr(p, "units") else "ok")
