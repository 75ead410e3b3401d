#!/usr/bin/env python3
"""setup_cmd: checks that the tools the checks need are there (everything is
built by each check from /repo's working tree, so there is nothing to prepare)."""
import shutil, sys, os, subprocess
need = ["clang", "clang++", "gcc"]
missing = [t for t in need if not shutil.which(t)]
if not os.path.exists("/opt/optv-venv/bin/python"):
    missing.append("/opt/optv-venv/bin/python")
if missing:
    sys.exit("missing tools: " + ", ".join(missing))
subprocess.check_call([sys.executable, "-c", "import sys; sys.path.insert(0, %r); import checks" % os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")])
print("ok")
