"""Writes MANIFEST.json from the list of claimed properties."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, "vf")
import importlib
os.chdir(os.path.dirname(os.path.abspath(__file__)))
checks = []
for f in sorted(os.listdir("vf/props")):
    if not f.endswith(".py") or f.startswith("_"):
        continue
    pid = f[:-3]
    m = importlib.import_module("props." + pid)
    checks.append(dict(property=pid, quick_cmd="python3 vf/main.py " + pid, thorough_cmd="VERIF_TIER=thorough python3 vf/main.py " + pid,
                       evidence_file="evidence/%s.json" % pid,
                       technique=getattr(m, "TECHNIQUE", "runtime monitoring of the real binary: generated workloads, offline oracle over recorded events and store states"),
                       level=m.LEVEL, level_note=getattr(m, "NOTE", "Held on the executions produced; nothing is claimed beyond them. ") + " Assumes: " + ("; ".join(m.ASSUMPTIONS) or "nothing further") + "."))
json.dump(dict(version=1, setup_cmd="python3 vf/main.py setup", checks=checks, not_applicable=[],
               notes="No hooks in /repo: all observation is at the process boundary."), open("MANIFEST.json", "w"), indent=1)
print(len(checks))
