#!/bin/bash
# builds the driver once; every check builds it again from /repo's working tree
set -e
cd /verif
python3 - <<'P'
import sys
sys.argv=["run.py"]; sys.path.insert(0, "/verif")
import run
run.ENV = run.env()
print("built in %.0f s" % run.build("html"))
P
