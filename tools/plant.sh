#!/bin/bash
# plant.sh ID...: tries planted bugs in the scratch copy /tmp/sw of /repo: builds, tests, demonstration with and without.
. /opt/vp/env.sh
S=/tmp/sw
sed "s#/repo#$S#g" /opt/vp/test.sh > /tmp/sw-test.sh
git -C $S checkout -q -- . ; git -C $S fetch -q /repo HEAD 2>/dev/null && git -C $S reset -q --hard FETCH_HEAD
build() { (cd $S && cargo test --workspace --all-targets --no-run --offline > /tmp/sw-build.log 2>&1) || { grep -A9 ^error /tmp/sw-build.log | head -40; return 1; }; }
build || exit 1
for id in "$@"; do
  (cd $S && timeout 300 bash /verif/seeded/$id/demo.sh > /tmp/sw-demo-clean.log 2>&1); a=$?
  echo "$id clean demo rc=$a"; [ $a = 0 ] || tail -5 /tmp/sw-demo-clean.log
done
for id in "$@"; do
  git -C $S apply /verif/seeded/$id/patch.diff || { echo "$id DOES NOT APPLY"; continue; }
  if build; then
    (cd $S && bash /tmp/sw-test.sh /tmp/sw-res.json > /tmp/sw-test.log 2>&1)
    python3 - $id <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/sw-res.json'))
def names(x,k='passed'):
    v=x.get(k) or x.get('stable') or x.get('tests')
    return set(v if isinstance(v,list) else [n for n,s in v.items() if s in('passed','ok',True)])
bl=names(b); rr=names(r)
print(sys.argv[1],'tests', 'ALL PASS' if bl<=rr else 'FAIL '+str(sorted(bl-rr)))
P
    (cd $S && timeout 300 bash /verif/seeded/$id/demo.sh > /tmp/sw-demo.log 2>&1); a=$?
    echo "$id patched demo rc=$a: $(grep -v '^note' /tmp/sw-demo.log | tail -2 | cut -c1-200)"
  else echo "$id DOES NOT BUILD"; fi
  git -C $S checkout -q -- .
done
