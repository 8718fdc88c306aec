#!/bin/bash
# seed_batch.sh ID...: in the scratch clone /tmp/sr (made from /repo and /opt/vp), apply all patches together,
# rebuild, run the tests and the demos; then undo
if [ ! -d /tmp/sr/repo ]; then
  mkdir -p /tmp/sr && cp -a /opt/vp /tmp/sr/vp && git clone -q /repo /tmp/sr/repo && cd /tmp/sr/vp &&
  sed -i 's#/opt/vp#/tmp/sr/vp#g; s#/repo#/tmp/sr/repo#g' env.sh build.sh test.sh run_tests.py results.py
fi
cd /tmp/sr/repo && git checkout -q -- . && git pull -q || exit 1
for i in "$@"; do git apply /verif/seeded/$i/patch.diff || echo "APPLY FAILED $i"; done
bash /tmp/sr/vp/build.sh >/tmp/sr/seed_build.log 2>&1 || { echo BUILD FAILED; grep error /tmp/sr/seed_build.log | head; }
bash /tmp/sr/vp/test.sh /tmp/sr/seed_test.json >/tmp/sr/seed_test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('/tmp/sr/seed_test.json'))
print(len(r['passed']),'passed; stable not passing:',[t for t in b if t not in r['passed']][:12])
P
for i in "$@"; do bash /verif/seeded/$i/demo.sh >/tmp/sr/seed_demo.log 2>&1; echo "$i demo with patch: $? $(head -c 150 /tmp/sr/seed_demo.log | tr '\n' ' ')"; done
git checkout -q -- .
