#!/usr/bin/env python3
"""developer tool: generate and verify one unit, print the diagnostics"""
import sys, os, importlib, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.dirname(HERE) + "/units"]
import vunit
name = sys.argv[1]; probe = "--probe" in sys.argv
m = importlib.import_module(name)
u = m.unit()
d = f"/tmp/vx/{name}"; os.makedirs(d, exist_ok=True)
p = d + "/unit.rs"
open(p, "w").write(u.generate(probe))
r = vunit.run_verus(p, u.flags, 600)
for e in (r.get("errors", []) + r.get("other", []))[:6]: print("\n".join(e["rendered"].splitlines()[:22]))
print(r["status"], r.get("reason"), "verified", r.get("verified"), "errors", r.get("nerr"), "wall %.1f" % r["wall"])
if "-v" in sys.argv: print(r["raw"])
