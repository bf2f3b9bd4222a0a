#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds /repo's current working tree with the
# simulator and decides PROPERTY.  Exit 0: held on everything explored; exit 1 with
# a line "VIOLATION property=... replay=..."; 2: the check itself failed.
here=$(cd "$(dirname "$0")" && pwd)
id=$1; tier=${2:-${VERIF_TIER:-quick}}
export LC_ALL=C
out=$here/build
mkdir -p "$out" "$here/evidence" "$here/out"
( flock 9; "$here/sim/build.sh" "$out" release driver ) 9>"$out/lock" >"$out/build.log" 2>&1 || { tail -40 "$out/build.log"; echo "check.sh: cannot build"; exit 2; }
exec "$out/simhost-release" check --property "$id" --seed "${VERIF_SEED:-1}" --tier "$tier" \
  --corpus "$here/corpus" --known "$here/known-findings.txt" \
  --evidence "$here/evidence/$id.json" --out "$here/out"
