#!/usr/bin/env python3
"""Nothing to build: checks that the tools are there and that every specification module parses."""
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(VERIF, "tools"))
import check  # noqa: E402

for name in sorted(os.listdir(SPEC)):
    if name.endswith(".tla"):
        p = subprocess.run(["java", "-cp", check.classpath(), "tla2sany.SANY", os.path.join(SPEC, name)],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=SPEC)
        if p.returncode != 0:
            print(p.stdout.decode())
            sys.exit(1)
        print("parsed", name)
subprocess.run([check.PYPY, "-c", "import sys"], check=True)
