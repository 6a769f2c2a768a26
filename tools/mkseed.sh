#!/bin/bash
# mkseed.sh ID PROP "needs" "what it breaks": takes the edits made in /tmp/w/seed as the patch of a planted bug
set -e
d=/verif/seeded/$1; mkdir -p "$d"
cd /tmp/w/seed
git diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo empty patch; exit 1; }
git checkout -q -- .
python3 - "$@" <<'P'
import json,sys
_,i,p,n,w=sys.argv
json.dump(dict(property=p,needs=n,what_it_breaks=w),open('/verif/seeded/%s/meta.json'%i,'w'),indent=1)
P
git -C /repo apply --check "$d/patch.diff" && echo ok "$1"
