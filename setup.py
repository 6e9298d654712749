#!/usr/bin/env python3
"""Checks that the toolchain is there, parses every specification, and warms the Go build cache."""
import glob, os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib
c = vlib.Ctx("setup")
try:
    c.build()
    bad = 0
    for f in sorted(glob.glob(os.path.join(c.work, "spec", "*.tla"))):
        r = subprocess.run(["java", "-cp", vlib.CP, "tla2sany.SANY", os.path.basename(f)], cwd=os.path.dirname(f),
                           capture_output=True, text=True)
        if r.returncode != 0:
            print(r.stdout[-2000:])
            bad = 1
    sys.exit(bad)
finally:
    c.close()
