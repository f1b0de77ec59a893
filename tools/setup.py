#!/usr/bin/env python3
"""Nothing to install; verifies that the tools the checks use are there.
The checks build their harness themselves from /repo's current tree."""
import os
import shutil
import subprocess
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for tool in ("g++", "python3"):
    if not shutil.which(tool):
        sys.exit("missing tool: " + tool)
p = subprocess.run(["g++", "-std=c++17", "-fsyntax-only", "-I" + os.path.join(here, "lib"),
                    os.path.join(here, "lib", "pbt.cpp")])
sys.exit(p.returncode)
