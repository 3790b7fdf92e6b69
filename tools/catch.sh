#!/bin/bash
# catch.sh ID...: runs the check of each planted bug's property against it. /repo and /verif are replaced by
# copies under /tmp/cw in a mount namespace of its own, so nothing here has to stay still meanwhile.
# ALSO="C05 ...": more checks to run against each.
W=/tmp/cw
if [ -z "$CATCH_INNER" ]; then
  mkdir -p $W
  rsync -a --delete --exclude /target /repo/ $W/repo/
  rsync -a --delete --exclude /evidence --exclude /replays --exclude /target /verif/ $W/verif/
  [ -d $W/verif/target ] || cp -a /verif/target $W/verif/
  mkdir -p $W/verif/evidence $W/verif/replays
  CATCH_INNER=1 exec unshare -Urm bash -c "mount --bind $W/repo /repo && mount --bind $W/verif /verif && cd /verif && exec bash tools/catch.sh \"\$@\"" catch "$@"
fi
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id DOES NOT APPLY"; continue; }
  (cd /verif && ./build.sh 2>&1 | grep -A9 ^error; s=$SECONDS
   for q in $p $ALSO; do timeout 900 ./check.sh $q > $W/catch.log 2>&1; echo "$id $q rc=$? $((SECONDS-s))s $(grep -m1 "^$q in scenario\|^VIOLATION" $W/catch.log | cut -c1-180)"; done)
  git -C /repo checkout -q -- .
done
