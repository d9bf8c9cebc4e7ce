#!/bin/bash
# Runs the harness of each planted change's property against it (scratch copy of /repo).
s=$(mktemp -d); cp -a /repo "$s/repo"
for d in /verif/seeded/*/; do
  id=$(basename $d); [ $# -gt 0 ] && [[ " $* " != *" $id "* ]] && continue
  git -C $s/repo checkout -q -- . ; git -C $s/repo apply $d/patch.diff || continue
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  mkdir -p $s/w
  VERIF_REPO=$s/repo HW=$s/w python3 - $p $id <<'P'
import sys,os; sys.path.insert(0,'/verif/engine'); import harness
b=harness.make(os.environ['HW']); r=harness.run(b,sys.argv[1],1,0); f=r['failure']
print(sys.argv[2], 'CAUGHT' if f else 'MISSED', f['output'].strip()[:200] if f else '', flush=True)
P
  rm -rf $s/w
done
rm -rf "$s"
