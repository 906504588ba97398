#!/bin/bash
# runbug.sh ID [PID]: run the check of the bug's property against the planted change (in /repo, undone afterwards)
d=/verif/seeded/$1; p=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
w=$(mktemp -d /tmp/rb.XXXX); cp -a /repo/. $w/; git -C $w checkout -q -- . ; git -C $w apply $d/patch.diff || exit 2
MB_REPO=$w timeout 900 python3 /verif/bin/check.py $p > /tmp/rb.$1.$p 2>&1; r=$?
echo "$1 $p rc=$r $(grep -c VIOLATION /tmp/rb.$1.$p) $(tail -1 /tmp/rb.$1.$p)"
rm -rf "$w"
