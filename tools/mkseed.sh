#!/bin/bash
# mkseed.sh <id> <property> <needs> <what it breaks>: turns the current uncommitted change of /repo into a planted bug.
S=/verif/seeded/$1; mkdir -p $S
git -C /repo diff > $S/patch.diff
git -C /repo checkout -q -- .
[ -s $S/patch.diff ] || { echo "empty patch"; exit 1; }
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
P
