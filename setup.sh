#!/bin/bash
# builds the harness once, so that the checks only rebuild what changed
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys, tempfile, os
sys.path.insert(0, ".")
import run
os.makedirs("scratch", exist_ok=True)
with tempfile.TemporaryDirectory(dir="scratch") as d:
    assert run.build(d)
    run.build(d, "-model")
P
echo built
