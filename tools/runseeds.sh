#!/bin/bash
# runs the owning check against each planted change (args: subset), on a scratch copy of /repo
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  t=$(mktemp -d); cp -a /repo "$t/repo"
  git -C "$t/repo" apply "$PWD"/seeded/$d/patch.diff || { echo "$d: does not apply"; rm -rf "$t"; continue; }
  out=$(VERIF_REPO="$t/repo" python3-vt check.py $p 2>&1); rc=$?
  rm -rf "$t"
  echo "$d rc=$rc $(echo "$out" | grep -a '^VIOLATION' | sed 's/.*replay=[^ ]*//') | failed contracts: $(echo "$out" | grep -aE '^  h_' | grep -avE 'ok .*failed 0' | awk '{print $1}' | tr '\n' ' ')"
done
