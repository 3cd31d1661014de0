#!/usr/bin/env python3
"""Builds the harness and parses the specifications."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import harness
harness.build([])
for f in sorted(os.listdir(os.path.join(V, "spec"))):
    if f.endswith(".tla"):
        r = subprocess.run(["java", "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tla2sany.SANY", f], cwd=os.path.join(V, "spec"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or "error" in r.stdout.lower().replace("errors: 0", ""):
            print(r.stdout)
            sys.exit(2)
print("ready")
