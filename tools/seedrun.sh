#!/bin/bash
# run the quick check of each planted bug's property with the bug applied; undo straight afterwards
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
    p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
    git -C "${NEO_REPO:-/repo}" apply "$PWD/seeded/$d/patch.diff" || { echo "$d: does not apply"; continue; }
    s=$(date +%s)
    out=$(timeout 900 python3-vt check.py $p --tier quick 2>&1); rc=$?
    git -C "${NEO_REPO:-/repo}" checkout -q -- .
    echo "$d $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -m1 VIOLATION || echo "$out" | tail -1)"
done
