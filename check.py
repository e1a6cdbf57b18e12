#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property from /repo's current source (see DESIGN.md)."""
import os, sys, time, json
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tool"))
import run
sys.exit(run.main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
