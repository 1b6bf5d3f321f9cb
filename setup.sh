#!/bin/bash
# nothing to install: every tool used is part of the sandbox; verify they are there
set -e
for t in clang++ opt g++ python3-vt; do command -v $t > /dev/null || { echo "missing $t"; exit 1; }; done
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
