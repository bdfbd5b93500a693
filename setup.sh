#!/bin/bash
# Builds the fact driver and warms the dependency artefacts; every check does the same when it has to.
cd "$(dirname "$0")" && exec python3 - <<'P'
import sys
sys.path.insert(0, "lib")
import build
print("driver:", build.driver() if not __import__("os").makedirs(build.CACHE, exist_ok=True) else "")
print("facts:", build.facts("all"))
P
