#!/usr/bin/env python3
"""Check that what the checks need is there: the tools, and specifications that parse."""
import glob, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ("java", "g++", "clang++"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
bad = 0
mods = sorted(glob.glob(os.path.join(HERE, "spec", "*.tla")))
r = subprocess.run(["java", "-cp", CP, "tla2sany.SANY"] + [os.path.basename(m) for m in mods], cwd=os.path.join(HERE, "spec"),
                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if r.returncode or "*** Errors" in r.stdout or "Could not parse" in r.stdout:
    print(r.stdout[-4000:]); bad = 1
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
print("%d specification modules parse" % len(mods) if not bad else "specification does not parse")
sys.exit(bad)
