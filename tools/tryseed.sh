#!/bin/bash
# Development aid: tryseed.sh ID [CHECK...]
# Applies seeded/ID/patch.diff to /repo, builds, runs the stable tests, the demo and the checks, and undoes it.
id=$1; shift
d=/verif/seeded/$id
[ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo is not clean"; exit 2; }
bash /opt/vp/build.sh >/tmp/tryseed.log 2>&1
(cd /repo && timeout 300 bash $d/demo.sh) >/tmp/demo-clean.log 2>&1; echo "demo clean: $?"
git -C /repo apply --check $d/patch.diff || exit 2
git -C /repo apply $d/patch.diff
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /tmp/rt.sh
bash /opt/vp/build.sh >/tmp/tryseed.log 2>&1 || { tail -5 /tmp/tryseed.log; exit 2; }
(cd /repo && timeout 300 bash $d/demo.sh) >/tmp/demo-bug.log 2>&1; echo "demo patched: $?"
cd /verif
[ $# = 0 ] && set -- $(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
for c; do
  VERIF_NOSHRINK=1 timeout 900 python3 checks/$c.py >/tmp/tryseed-$c.log 2>&1; rc=$?
  echo "check $c: exit $rc $(grep -a -m1 '^--- ' /tmp/tryseed-$c.log | cut -c1-150) $(grep -a -m1 'evaluations in' /tmp/tryseed-$c.log)"
done
