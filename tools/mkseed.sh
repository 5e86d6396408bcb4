#!/bin/bash
# mkseed.sh ID PROPERTY NEEDS BREAKS  : the change in /repo's working tree becomes seeded/ID (demo.rs or demo.sh written before)
s=/verif/seeded/$1; mkdir -p $s
git -C /repo diff > $s/patch.diff; git -C /repo checkout -q -- .
python3 - "$@" <<'P' > $s/meta.json
import json,sys
print(json.dumps(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),indent=1))
P
[ -f $s/demo.sh ] || cp /verif/tools/demo_lib.sh $s/demo.sh
wc -l $s/patch.diff
