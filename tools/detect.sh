#!/bin/bash
# bash tools/detect.sh BUG [CHECK...]: apply a planted bug to /repo, run the quick checks (all, or those given),
# undo it, and print which of them reported.
id=$1; shift
cd /verif
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
checks="$*"; [ -n "$checks" ] || checks=$(python3 -c "import json;print(' '.join(c['property'] if 'property' in c else c['id'] for c in json.load(open('MANIFEST.json'))['checks']))")
git -C /repo apply /verif/seeded/$id/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
out=""
for c in $checks; do
  cmd=$(python3 -c "
import json,sys
for c in json.load(open('MANIFEST.json'))['checks']:
  if c.get('property',c.get('id'))==sys.argv[1]: print(c.get('quick_cmd') or c.get('quick'))" $c)
  s=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash -c "$cmd" >/tmp/detect.$id.$c.log 2>&1; rc=$?
  e=$(( $(date +%s) - s ))
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$c " /tmp/detect.$id.$c.log; then out="$out $c(${e}s)"; elif [ $rc != 0 ]; then out="$out $c!rc$rc(${e}s)"; else [ $# = 1 ] && out="$out $c:quiet(${e}s)"; rm -f /tmp/detect.$id.$c.log; fi
done
echo "$id:${out:- NOTHING}"
