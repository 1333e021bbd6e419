"""Writes ref/funcs.txt: the functions the reference specifications know (run once, on the tree they were written for)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "an"))
import facts
F = facts.load()
qs = sorted({f["q"] for f in F.funcs.values() if "/src/" in f["file"]})
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "ref", "funcs.txt"), "w").write("\n".join(qs) + "\n")
