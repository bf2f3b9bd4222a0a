#!/bin/bash
# tools/determinism.sh [COUNT]: the event hashes of the same cases, drawn twice
# and by different numbers of workers, must be the same for every property.
set -u
cd "$(dirname "$0")/.."
n=${1:-400}; bad=0; t=$(mktemp -d)
for p in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do
  for w in 1 8; do
    build/simhost-release hashes --property "$p" --seed 1 --count "$n" --workers $w --corpus corpus > "$t/$w" 2>/dev/null
  done
  if cmp -s "$t/1" "$t/8" && [ -s "$t/1" ]; then echo "$p: $(wc -l < "$t/1") hashes, the same"; else echo "$p: DIFFERENT"; bad=1; fi
done
rm -r "$t"
exit $bad
