#!/usr/bin/env python3
"""Checks that the tools are there and that the specification is well-formed."""
import glob, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
subprocess.run(["cargo", "--version"], check=True)
bad = 0
for m in ["MC"]:
    r = subprocess.run(["java", "-DTLA-Library=" + V + "/spec", "-cp", JAR, "tla2sany.SANY", V + "/spec/" + m + ".tla"], capture_output=True, text=True)
    if r.returncode != 0 or "*** Errors" in r.stdout or "Fatal" in r.stdout:
        print(r.stdout[-2000:])
        bad = 1
sys.exit(bad)
