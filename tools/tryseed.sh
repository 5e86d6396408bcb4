#!/bin/bash
# tryseed.sh ID... : is the planted bug what it claims to be, and does its property's check see it?
# (for working on the machinery; edits /repo's working tree and puts it back)
. /opt/vp/env.sh >/dev/null 2>&1
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
for id in "$@"; do
  s=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  git apply --check $s/patch.diff || { echo "$id: does not apply"; continue; }
  if [ -z "$SKIP_DEMO" ]; then
    bash $s/demo.sh >/tmp/w/demo-$id.clean 2>&1 || { echo "$id: demo fails on the clean tree"; tail -5 /tmp/w/demo-$id.clean; continue; }
  fi
  git apply $s/patch.diff
  res=ok
  if [ -z "$SKIP_TESTS" ]; then
    if ! bash /opt/vp/build.sh >/tmp/w/seed-build.log 2>&1; then res="does not build"; tail -20 /tmp/w/seed-build.log; else
      bash /opt/vp/test.sh /tmp/w/seed-res.json >/dev/null 2>&1
      res=$(python3 -c "
import json
r=json.load(open('/tmp/w/seed-res.json')); print('ok' if len(r['passed'])==867 and not r['failed'] else 'tests fail: %s' % r['failed'][:5])")
    fi
  fi
  demo=-
  if [ -z "$SKIP_DEMO" ]; then
    if bash $s/demo.sh >/tmp/w/demo-$id.bug 2>&1; then demo="DEMO PASSES"; else demo="demo fails: $(grep -v '^note' /tmp/w/demo-$id.bug | tail -1 | cut -c1-120)"; fi
  fi
  chk=-
  if [ -z "$SKIP_CHECK" ]; then
    python3 /verif/run.py $prop quick >/tmp/w/check-$id.log 2>&1; c=$?
    chk="check $prop exit $c: $(grep -m1 -A1 VIOLATION /tmp/w/check-$id.log | tail -1 | cut -c1-100)"
  fi
  git checkout -q -- .
  echo "$id [$prop]: $res | $demo | $chk"
done
