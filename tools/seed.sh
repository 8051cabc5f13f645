#!/bin/bash
# seed.sh ID...: confirm planted bugs in a scratch copy (builds, tests pass, demo 0/nonzero)
# and tell which checks see them.
cd "$(dirname "$0")/.." ; v=$(pwd); . /opt/vp/env.sh
for id in "$@"; do
 s=$v/seeded/$id
 rm -rf /tmp/seedw; cp -a /repo /tmp/seedw; rm -rf /tmp/seedd; mkdir /tmp/seedd; cp $s/* /tmp/seedd/; rm -f /tmp/seedd/*.diff /tmp/seedd/meta.json
 (cd /repo && timeout 300 bash /tmp/seedd/demo.sh >/tmp/seed.un 2>&1) && u=ok || u="FAILS-UNCHANGED"
 git -C /repo apply $s/patch.diff || { echo "$id: patch does not apply"; continue; }
 b=ok; (bash /opt/vp/build.sh >/tmp/seed.b 2>&1) || b="BUILD-FAILS"
 bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.t 2>&1
 t=$(python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);r=json.load(open('/tmp/seed.json'))
p=r.get('passed') or r
p=set(p if isinstance(p,list) else [k for k,x in p.items() if x in('pass','passed',True)])
m=b-p
print('ok' if not m else 'TESTS-FAIL '+' '.join(sorted(m)))
P
)
 (cd /repo && timeout 300 bash /tmp/seedd/demo.sh >/tmp/seed.pa 2>&1) && p="DEMO-PASSES-PATCHED" || p=ok
 ${CHK:-$v/bin/checker} -q -repo /repo > /tmp/seed.chk 2>&1
 git -C /repo checkout -- .
 echo "$id: prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])") unchanged=$u build=$b tests=$t patched=$p detected: $(grep VIOL /tmp/seed.chk | awk '{print $2}' | sort -u | tr '\n' ' ')"
done
rm -rf /tmp/seedw /tmp/seedd
