#!/bin/bash
# Confirms planted bugs: the patch applies, builds, passes the stable tests, and
# the demo separates the two trees. usage: seedcheck.sh ID... (no check uses it)
here=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh
for id in "$@"; do
  s=$here/seeded/$id
  d=$(mktemp -d /tmp/seed-XXXXXX)
  cp -a /repo "$d/repo"; cp -a "$s" "$d/demo"; rm -f "$d/demo/patch.diff" "$d/demo/meta.json"
  (
    cd "$d/repo" || exit 1
    bash "$d/demo/demo.sh" >"$d/clean.log" 2>&1 && echo "$id demo clean: ok" || { echo "$id demo clean: FAILED"; tail -c 1500 "$d/clean.log"; }
    git apply "$s/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
    go build ./... 2>"$d/b.log" || { echo "$id: build fails"; head -c 1500 "$d/b.log"; exit 1; }
    bash "$d/demo/demo.sh" >"$d/bug.log" 2>&1 && echo "$id demo patched: NOT DETECTED" || { echo "$id demo patched: fails as wanted"; grep -a -E "zz_demo|panic|FAIL" "$d/bug.log" | head -5 | cut -c1-250; }
    go test -json -vet=off -count=1 -timeout 10m ./... >"$d/go.json" 2>/dev/null
    python3 /opt/vp/results.py "$d/out.json" "gojson:$d/go.json" >/dev/null
    python3 - "$d/out.json" "$id" <<'P'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
def names(x): return set(x if isinstance(x,list) else x.get('passed',x.get('stable',x)))
want=names(b); got=names(o)
miss=sorted(want-got)
print(sys.argv[2],"stable tests:", "ok" if not miss else "MISSING "+str(miss[:5]), len(want))
P
  )
  rm -rf "$d"
done
