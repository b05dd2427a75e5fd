#!/bin/bash
# Development helper: confirm planted bugs one after another on /repo: build, stable tests, demo, own check.
# usage: tryseed.sh [-n] ID...    (-n: skip the test suite)   results appended to /tmp/tryseed.log
notest=0; [ "$1" = -n ] && { notest=1; shift; }
cd /repo || exit 2
for id in "$@"; do
  d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo checkout -q -- . ; r="$id $prop"
  if ! git -C /repo apply $d/patch.diff; then echo "$r APPLY-FAILED" | tee -a /tmp/tryseed.log; continue; fi
  if ! bash /opt/vp/build.sh > /tmp/ts.build 2>&1; then echo "$r BUILD-FAILED" | tee -a /tmp/tryseed.log; git -C /repo checkout -q -- .; continue; fi
  bash $d/demo.sh > /tmp/ts.demo 2>&1; r="$r demo=$?"
  if [ $notest = 0 ]; then
    bash /opt/vp/test.sh /tmp/ts.json > /tmp/ts.test 2>&1
    r="$r tests=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/ts.json'))
def names(x,k):
    v=x.get(k); return set(v) if v is not None else set()
bs=names(b,'passed') or names(b,'stable') or set(b if isinstance(b,list) else [])
ps=names(o,'passed')
m=bs-ps
print(f"{len(bs)-len(m)}/{len(bs)}", sorted(m)[:4] if m else "", sep="")
P
)"; fi
  s=$SECONDS; (cd /verif && ./check $prop) > /tmp/ts.check 2>&1; rc=$?
  r="$r check=$rc ($((SECONDS-s))s) $(grep -m1 VIOLATION /tmp/ts.check)"
  echo "$r" | tee -a /tmp/tryseed.log
  git -C /repo checkout -q -- .
done
bash /opt/vp/build.sh > /dev/null 2>&1
