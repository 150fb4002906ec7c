"""Builds every variant of GPRpy that some check uses, from /repo's tree."""

import glob
import importlib
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/phd-venv/bin/python"

if sys.prefix != "/opt/phd-venv":
    sys.exit(subprocess.run([PY] + sys.argv).returncode)

sys.path.insert(0, HERE)
import build

names = []
for f in sorted(glob.glob(f"{HERE}/props/c*.py")):
    name = os.path.basename(f)[:-3]
    if name == "common":
        continue
    for law in importlib.import_module("props." + name).L.laws:
        if law.variant not in names:
            names.append(law.variant)
build.build(names)
print("built", *names)
