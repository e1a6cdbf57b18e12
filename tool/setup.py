"""Builds the exporter and warms the caches (every check does the same by itself when they are missing)."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, summ, specio
S = summ.summaries(None, specio.printfns())
print("functions summarised:", sum(1 for e in S.values() if e["lines"] is not None), "failed:", [e["q"] for e in S.values() if e["lines"] is None])
