#!/usr/bin/env python3
"""replay.py <ID> <unit> <seed> <case>: rebuilds the harness and re-runs one case verbosely."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check as C, props as P
pid, unit, seed, case = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
u = C.Unit(P.PROPS[pid], P.PROPS[pid]["units"][unit], "quick", seed)
u.build()
sys.exit(subprocess.run(u.cmd(["--case", case, "-v"]), env=u.env()).returncode)
