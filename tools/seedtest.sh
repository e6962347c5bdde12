#!/bin/bash
# seedtest.sh ID [CHECK..]: confirm a planted bug (demo, tests) and run its check (or the given ones) against it
id=$1; shift
d=/verif/seeded/$id
checks=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
bash $d/demo.sh >/tmp/demo.out 2>&1; a=$?
git apply $d/patch.diff || exit 2
bash /opt/vp/build.sh >/tmp/build.out 2>&1; b=$?
bash $d/demo.sh >>/tmp/demo.out 2>&1; c=$?
bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
t=$(python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json')).get('stable', json.load(open('/opt/vp/BASELINE.json')).get('passed',[])))
p=set(json.load(open('/tmp/t.json'))['passed'])
print('tests-ok' if b<=p else 'TESTS-FAIL %s'%sorted(b-p)[:4])
P
)
echo "$id: demo unchanged=$a patched=$c build=$b $t"
[ $a = 0 ] && [ $c != 0 ] || tail -4 /tmp/demo.out
for k in $checks; do
  timeout 900 /verif/check $k > /tmp/seed_$k.out 2>&1; r=$?
  echo "   check $k exit=$r $(grep -c ^VIOLATION /tmp/seed_$k.out)"; grep -B1 ^VIOLATION /tmp/seed_$k.out | cut -c1-220| head -2
done
