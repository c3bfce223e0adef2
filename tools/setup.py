#!/usr/bin/env python3
"""setup_cmd: checks that the toolchain is present; checks build everything else."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("build", "evidence", "replays"):
    os.makedirs(os.path.join(V, d), exist_ok=True)
for cmd in (["java", "-version"], ["g++", "--version"]):
    if subprocess.run(cmd, capture_output=True).returncode:
        print("missing", cmd[0]); sys.exit(1)
for f in ("/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"):
    if not os.path.exists(f):
        print("missing", f); sys.exit(1)
print("ok")
