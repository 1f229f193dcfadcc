#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, checks/pNN.py and tools/not_applicable.json."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, "engine"), os.path.join(HERE, "checks")]
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
na = json.load(open(os.path.join(HERE, "tools", "not_applicable.json")))
checks, out = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        m = importlib.import_module(i.lower())
        checks.append({
            "property": i,
            "quick_cmd": "python3 run.py " + i,
            "thorough_cmd": "python3 run.py %s --tier thorough" % i,
            "technique": m.TECHNIQUE,
            "level": getattr(m, "LEVEL", "other"),
            "level_note": getattr(m, "NOTE", "Static: every path of the analysed functions in /repo's current source is covered by a sound over-approximation (loops to a fixpoint, unknown calls havoc what they can reach); assumes: " + "; ".join(getattr(m, "ASSUMPTIONS", [])) + "."),
        })
    else:
        out.append({"property": i, "reason": na.get(i, "no check yet")})
man = {
    "version": 1,
    "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, 'engine'); import program; program.Program()\"",
    "checks": checks,
    "not_applicable": out,
    "notes": "Each check extracts the typed syntax trees of /repo's current sources with tools/extract.cpp (clang libTooling) and decides its property by analysis of them; nothing of /repo is executed. DESIGN.md describes the rules; known-findings.txt lists repaired and recorded defects.",
}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(out), "not applicable")
