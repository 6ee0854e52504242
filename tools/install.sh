#!/bin/bash
# tools/install.sh ID... : copies planted changes from /tmp/seeds, confirms demo and stable tests against /repo
. /opt/vp/env.sh
for id in "$@"; do
  d=/verif/seeded/$id; mkdir -p "$d"; cp /tmp/seeds/$id/* "$d"/
  git -C /repo apply --check "$d/patch.diff" || { echo "$id does not apply"; continue; }
  tmp=$(mktemp -d); cp "$d"/demo.* "$tmp"/
  (cd /repo && timeout 300 bash "$tmp/demo.sh" >/dev/null 2>&1); a=$?
  git -C /repo apply "$d/patch.diff"
  (cd /repo && timeout 300 bash "$tmp/demo.sh" >/dev/null 2>&1); b=$?
  bash /opt/vp/test.sh /tmp/seed_out.json >/dev/null 2>&1
  git -C /repo checkout -q -- .
  n=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed_out.json'))
def names(x):
    if isinstance(x, dict):
        x = x.get('passed', x.get('stable', x.get('tests', x)))
    return {y if isinstance(y, str) else (y.get('name') or y.get('id')) for y in x}
print(len(names(b) - names(o)))
P
)
  echo "$id demo $a/$b stable tests broken: $n"
  rm -rf "$tmp"
done
