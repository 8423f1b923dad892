#!/bin/bash
# Everything is built per check from /repo's working tree; only verify that the tools are here.
set -e
cd "$(dirname "$0")/.."
gcc --version | head -1
python3 -c 'import sys; sys.path.insert(0,"bin"); import plan; print(len(plan.PLAN), "checks")'
mkdir -p evidence
