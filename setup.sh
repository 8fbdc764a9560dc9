#!/bin/sh
# Nothing is kept between runs: each check builds its monitors and the library from /repo's working tree.
# This only makes sure that the tools are there and the monitors compile.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
for t in g++ clang++ valgrind python3; do command -v $t >/dev/null || { echo "missing tool: $t" >&2; exit 1; }; done
python3 -m py_compile runner/run.py runner/plans.py runner/rules.py
