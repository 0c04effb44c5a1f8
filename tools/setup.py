#!/usr/bin/env python3
"""Makes sure that the tools the checks use work here."""
import subprocess, sys, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
os.makedirs(os.path.join(ROOT, "build"), exist_ok=True)
import check
for cmd in (["g++", "--version"], ["java", "-version"]):
    subprocess.run(cmd, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
rc, o = check.tlc("MC_BoolFun", "mc/MC_BoolFun2", os.path.join(ROOT, "build"), "setup")
if rc != 0: print(o[-2000:]); sys.exit(1)
print("ok")
