#!/bin/bash
# trybug.sh <seeded id> [nocheck]: confirms a planted bug (build, stable tests, demo, check) and restores /repo
D=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 9; }
git apply $D/patch.diff || exit 9
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
/verif/tools/rt.sh; echo "tests rc=$?"
bash $D/demo.sh >/tmp/demo.out 2>&1; echo "demo with patch rc=$?"; tail -2 /tmp/demo.out
if [ "$2" != nocheck ]; then cd /verif; s=$SECONDS; python3 check.py $P quick >/tmp/bug_$1.log 2>&1; echo "check rc=$? $((SECONDS-s))s"; grep -E "VIOLATION|NOT-EX|UNCONF|ERROR" /tmp/bug_$1.log | head -4; cd /repo; fi
git checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1; bash $D/demo.sh >/tmp/demo.out 2>&1; echo "demo clean rc=$?"; tail -2 /tmp/demo.out
