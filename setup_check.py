#!/usr/bin/env python3
"""Nothing to build ahead of time: every check extracts /repo's current sources itself.  This only confirms the tools answer."""
import subprocess, sys
for t in (["cbmc", "--version"], ["goto-cc", "--version"], ["goto-instrument", "--version"], ["g++", "--version"]):
    if subprocess.run(t, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode != 0:
        print("missing tool:", t[0])
        sys.exit(1)
