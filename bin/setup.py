#!/usr/bin/env python3
"""Builds the harness and parses every specification module (checks repeat what they need)."""
import glob, os, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = subprocess.call(["cargo", "build", "--offline", "--quiet", "--bins", "--target-dir", os.path.join(V, ".build", "default")],
                    cwd=os.path.join(V, "harness"))
if r:
    sys.exit(r)
for f in sorted(glob.glob(os.path.join(V, "spec", "*.tla"))):
    p = subprocess.run(["java", "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
                        "tla2sany.SANY", os.path.basename(f)], cwd=os.path.dirname(f), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode or "*** Errors" in p.stdout or "Fatal errors" in p.stdout:
        print(p.stdout[-3000:])
        sys.exit(1)
print("specification modules parse, harness builds")
