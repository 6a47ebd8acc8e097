#!/usr/bin/env python3
"""setup_cmd: nothing needs building beforehand; checks that the tools the checks use are present."""
import shutil, subprocess, sys
for t in ("clang++", "g++", "z3-new", "cvc5", "z3", "/opt/veriftools/pyvenv/bin/python3"):
    if not shutil.which(t):
        print("missing", t)
        sys.exit(1)
sys.exit(subprocess.call(["/opt/veriftools/pyvenv/bin/python3", "-c", "import z3"]))
