#!/bin/bash
# seed_check.sh ID...: run the check of its property against each planted bug
cd /repo && [ -z "$(git status --short)" ] || exit 1
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  git apply /verif/seeded/$i/patch.diff || { echo "APPLY FAILED $i"; continue; }
  (cd /verif; VERIF_SEED=1 VERIF_TIER=quick python3 bin/check.py $p >/tmp/seed_check.log 2>&1; echo "$i ($p): exit $? $(grep -m1 VIOLATION /tmp/seed_check.log)"; for f in replays/$p-*; do [ -e "$f" ] && grep -h -m1 key $f | cut -c1-200; done; rm -f /verif/replays/$p-*)
  git checkout -- .
done
