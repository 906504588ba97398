#!/usr/bin/env python3
"""Offline sanity check: the toolchain is there and the specifications parse."""
import glob, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bad = 0
d = tempfile.mkdtemp(prefix="mbsetup")
for x in glob.glob(V + "/specs/*/*.*"):
    if x.endswith(".tla"): shutil.copy(x, d)
for t in ("g++", "clang++", "java"):
    if not shutil.which(t): print("missing", t); bad = 1
for f in sorted(glob.glob(d + "/*.tla")):
    r = subprocess.run(["java", "-Djava.io.tmpdir=" + d, "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar:/opt/veriftools/tla/CommunityModules.jar", "tla2sany.SANY", f], capture_output=True, text=True, cwd=d)
    if r.returncode: print("does not parse:", os.path.basename(f), r.stdout[-800:]); bad = 1
shutil.rmtree(d, ignore_errors=True)
sys.exit(bad)
