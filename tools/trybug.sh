#!/bin/bash
# trybug.sh ID [PROP...]: applies seeded/ID to /repo, runs the project's tests, the
# demonstration and the quick checks of its property (or of PROP...), and undoes it.
here=$(cd "$(dirname "$0")/.." && pwd)
id=$1; shift; d=$here/seeded/$id
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
props=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
rundemo() { t=$(mktemp -d); cp "$d"/* "$t"; rm -f "$t"/*.diff "$t"/meta.json; (cd /repo && timeout 300 bash "$t/demo.sh" >"$t/log" 2>&1); r=$?; [ -n "$V" ] && cat "$t/log"; rm -r "$t"; return $r; }
if [ -z "$NODEMO" ]; then
bash /opt/vp/build.sh >/dev/null 2>&1; rundemo; echo "$id demo clean: $?"
fi
git -C /repo apply "$d/patch.diff" || exit 2
if [ -z "$NODEMO" ]; then
bash /opt/vp/test.sh /tmp/tb.json >/tmp/tb.log 2>&1 
python3 - <<P
import json;b=json.load(open('/opt/vp/BASELINE.json'))['stable'];p=json.load(open('/tmp/tb.json'))['passed']
print("$id tests:", "ok" if set(map(str,b))<=set(map(str,p)) else "BROKEN %d of %d"%(len(set(map(str,b))&set(map(str,p))),len(b)))
P
rundemo; echo "$id demo patched: $?"
fi
for p in $props; do
  s=$(date +%s); VERIF_SEED=${VERIF_SEED:-1} "$here/check.sh" $p ${TIER:-quick} >/tmp/tb.$p.log 2>&1; rc=$?
  echo "$id check $p: rc=$rc $(( $(date +%s)-s ))s $(grep VIOLATION /tmp/tb.$p.log | head -1 | cut -c1-200)"
done
