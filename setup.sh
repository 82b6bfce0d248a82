#!/bin/bash
# nothing to install: check that the tools the checks need are there
set -e
cd "$(dirname "$0")"
for t in clang++-18 /usr/lib/llvm-18/bin/opt /usr/lib/llvm-18/bin/llvm-extract cvc5 python3-vt; do
    command -v "$t" >/dev/null || { echo "missing $t"; exit 1; }
done
python3-vt -c 'import z3, numpy'
mkdir -p evidence
