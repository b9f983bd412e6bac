#!/usr/bin/env python3
"""setup_cmd: builds the monitor once, plain and with the race detector, so
that the checks find the compiled packages in the build cache."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
for race, cli in ((False, True), (True, False)):
    tmp = tempfile.mkdtemp(prefix="vsetup-")
    try:
        if check.build(tmp, race, cli) is None:
            sys.exit(1)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
print("built")
