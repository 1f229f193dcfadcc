#!/usr/bin/env python3
"""Writes engine/known_functions.txt: the functions each check decides about by itself (follow or summarise).
Functions not in it, such as helpers extracted later, are always followed."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/engine"]
from program import Program, REPO
P = Program(REPO)
qs = sorted({f["q"] for f in P.functions.values() if f["repo"] and not f.get("lambda")})
open(V + "/engine/known_functions.txt", "w").write("\n".join(qs) + "\n")
print(len(qs))
