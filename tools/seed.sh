#!/bin/bash
# tools/seed.sh ID PROPERTY : takes the diff of the scratch copy /tmp/seedrepo as the planted change,
# runs its demo (already in seeded/ID/demo.sh) without and with it, the stable tests, and the check.
id=$1; prop=$2
d=/verif/seeded/$id
git -C /tmp/seedrepo diff > $d/patch.diff
git -C /tmp/seedrepo checkout -q -- .
[ -s $d/patch.diff ] || { echo "empty diff"; exit 1; }
git -C /repo apply --check $d/patch.diff || exit 1
tmp=$(mktemp -d); cp $d/* $tmp/; rm -f $tmp/patch.diff $tmp/meta.json
(cd /repo && timeout 300 bash $tmp/demo.sh >/tmp/demo0.log 2>&1); a=$?
git -C /repo apply $d/patch.diff
(cd /repo && timeout 300 bash $tmp/demo.sh >/tmp/demo1.log 2>&1); b=$?
echo "demo: unchanged=$a patched=$b"
if [ "$3" != nocheck ]; then
  if [ "$4" = "" ]; then (cd /verif && ./check.sh $prop quick | grep -v "^  undecided" | tail -4 | cut -c1-250); fi
fi
if [ "$3" = tests ] || [ "$4" = tests ]; then
  bash /opt/vp/test.sh /tmp/seed_out.json >/dev/null 2>&1
  python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed_out.json'))
def passed(x):
    if isinstance(x,dict):
        for k in ('passed','stable','tests'):
            if k in x: return passed(x[k])
        return {k for k,v in x.items() if v in (True,'passed','pass')}
    return {y if isinstance(y,str) else (y.get('name') or y.get('id')) for y in x}
print("stable tests broken:", sorted(passed(b)-passed(o))[:5], len(passed(b)))
P
fi
git -C /repo checkout -q -- .
rm -rf "$tmp"
