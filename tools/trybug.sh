#!/bin/bash
# trybug.sh ID: confirm a planted change (demo 0 on clean, stable tests pass with it, demo nonzero with it)
d=/verif/seeded/$1; cd /repo || exit 2
[ -z "$(git status --porcelain -uno)" ] || { echo "/repo dirty"; exit 2; }
bash /opt/vp/build.sh >/tmp/tb.log 2>&1 || exit 2
t=$(mktemp -d); cp -r $d/. $t/; rm -f $t/*.diff $t/meta.json
timeout 300 bash $t/demo.sh >/tmp/tb.clean 2>&1; a=$?
git apply $d/patch.diff || exit 2
if bash /opt/vp/build.sh >/tmp/tb.log 2>&1; then
 timeout 300 bash $t/demo.sh >/tmp/tb.bug 2>&1; b=$?
 [ "$2" = nt ] || { bash /opt/vp/test.sh /tmp/tb.json >/dev/null 2>&1
 python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); p=set(json.load(open('/tmp/tb.json'))['passed'])
print('missing stable:',[x for x in b['stable'] if x not in p])
P
 }
else echo BUILD FAILED; tail -5 /tmp/tb.log; fi
git checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1
echo "demo clean=$a bug=$b"; tail -3 /tmp/tb.bug
rm -rf "$t"
