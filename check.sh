#!/bin/bash
# check.sh ID: builds against /repo's working tree and runs one check. VERIF_TIER=quick|thorough.
cd "$(dirname "$0")" || exit 2
./build.sh || { echo "BUILD FAILED"; exit 2; }
# Scratch directories of runs that were killed.
for d in /dev/shm/possum-mc-*; do
  [ -d "$d" ] || continue
  p=$(basename "$d"); p=${p#possum-mc-}; p=${p%%-*}
  kill -0 "$((10#$p))" 2>/dev/null || rm -rf "/dev/shm/$(basename "$d")"
done
if [ "$1" = C23 ]; then
  gomc/build.sh || { echo "BUILD FAILED"; exit 2; }
  exec target/gomc/stubmc check
fi
exec target/debug/mc check "$1"
