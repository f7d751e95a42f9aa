"""Checks that the installed tools the machinery needs are there."""
import subprocess, sys
for c in (["python3-vt", "-c", "import z3, numpy"], ["/opt/venv/bin/python", "-c", "import numpy, scipy"], ["g++", "--version"]):
    if subprocess.run(c, capture_output=True).returncode: sys.exit("missing: " + " ".join(c))
print("ok")
