#!/bin/bash
# try.sh ID [check]: applies seeded/ID in /repo, builds, tests, runs the demo before/after, optionally the check, and undoes it
set -u
d=/verif/seeded/$1; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo && git diff --quiet || { echo "repo not clean"; exit 9; }
bash $d/demo.sh >/dev/null 2>&1; a=$?
git apply $d/patch.diff || exit 9
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/sd/build.log 2>&1 || echo "BUILD FAILED"
bash /opt/vp/test.sh /tmp/sd/t.json >/tmp/sd/test.log 2>&1; n=$(tail -1 /tmp/sd/test.log)
bash $d/demo.sh >/tmp/sd/demo.log 2>&1; b=$?
c=-; if [ "${2:-}" = check ]; then s=$(date +%s); (cd /verif && timeout 900 python3 check.py $prop --tier quick >/tmp/sd/$1.log 2>&1); c="exit $? $(( $(date +%s) - s ))s $(grep VIOLATION /tmp/sd/$1.log)"; fi
echo "$1 $prop demo clean=$a patched=$b tests=$n check: $c"
