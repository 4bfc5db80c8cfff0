#!/bin/bash
# Builds the conformance harness once; every check rebuilds what it needs.
cd "$(dirname "$0")/.." || exit 1
mkdir -p .build evidence
python3 - <<'P'
import sys
sys.path.insert(0, "tools")
import check, time
check.T0 = time.time()
print(check.build_harness())
P
