#!/usr/bin/env python3
"""Nothing is prebuilt: every check builds from /repo's tree.  This verifies the tools are present."""
import subprocess, sys, os
for c in ("g++", "clang++"): subprocess.run([c, "--version"], check=True, stdout=subprocess.DEVNULL)
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import specs
for p in specs.SPECS.values():
    for j in p["jobs"]: assert os.path.exists(os.path.join(H, "src", j["src"])), j["src"]
print("setup ok:", len(specs.SPECS), "checks")
