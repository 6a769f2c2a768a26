#!/bin/bash
# trybug.sh BUG [CHECK]: applies a planted bug to /repo, runs its check, undoes it
b=$1; p=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$b/patch.diff || exit 9
cd /verif; timeout 900 python3 run.py $p >/tmp/t/bug-$b.log 2>&1; rc=$?
git -C /repo checkout -q -- .
echo "$b $p rc=$rc $(grep -c '^VIOLATION' /tmp/t/bug-$b.log) violations: $(grep -o '^\[[^]]*\]   [^ ]*:.\{0,150\}' /tmp/t/bug-$b.log | head -2 | tr '\n' ' ')"
