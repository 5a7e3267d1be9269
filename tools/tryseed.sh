#!/bin/bash
# tryseed.sh <id>...: applies the patch to a copy (/tmp/wt) and runs the property's check against the copy
for i in "$@"; do
  s=/verif/seeded/$i; p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  (cd /tmp/wt && git checkout -q -- . && git apply $s/patch.diff) || continue
  echo "== $i ($p)"; VERIF_REPO=/tmp/wt /verif/check.py $p 2>&1 | grep -v "^  bounded" | cut -c1-300 | tail -${N:-6}; 
  (cd /tmp/wt && git checkout -q -- . )
done
