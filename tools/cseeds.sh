#!/bin/bash
# Runs the full check of each planted change's property against it (scratch copy of /repo).
s=$(mktemp -d); cp -a /repo "$s/repo"
for d in /verif/seeded/*/; do
  id=$(basename $d); [ $# -gt 0 ] && [[ " $* " != *" $id "* ]] && continue
  git -C $s/repo checkout -q -- . ; git -C $s/repo apply $d/patch.diff || continue
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  echo "== $id"; VERIF_REPO=$s/repo python3-vt /verif/check.py $p | grep -E "^(failed obl|VIOL|OK)" | cut -c1-220 | head -${LINES_MAX:-6}
done
rm -rf "$s"
