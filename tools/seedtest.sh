#!/bin/bash
# tools/seedtest.sh <seed id> [demo|check|full]  -- try one planted bug (in /repo's working tree, undone afterwards)
S=/verif/seeded/$1; MODE=${2:-full}
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain -uno)" ] || { echo "repo dirty"; exit 2; }
if [ $MODE != check ]; then bash $S/demo.sh >/tmp/seed_clean.log 2>&1; echo "$1 demo clean rc=$?"; fi
git apply $S/patch.diff || { echo "patch does not apply"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ $MODE = full ]; then (bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seed_t.json) >/tmp/seed_build.log 2>&1; echo "$1 build/test: $(tail -1 /tmp/seed_build.log)"; fi
if [ $MODE != check ]; then bash $S/demo.sh >/tmp/seed_patched.log 2>&1; echo "$1 demo patched rc=$? : $(tail -1 /tmp/seed_patched.log)"; fi
if [ $MODE != demo ]; then (cd /verif; python3 check.py $P quick >/tmp/seed_check.log 2>&1; echo "$1 check $P rc=$? : $(grep -c VIOLATION /tmp/seed_check.log) violations; $(tail -1 /tmp/seed_check.log)"); fi
