#!/bin/bash
# seedcheck.sh ID [CHECK...]: confirms a planted change (applies, builds, tests pass, demo fails with it and passes
# without), then runs the named checks (default: the property's) against it.  Works in /repo itself and restores it.
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "dirty /repo"; exit 1; }
S=/verif/seeded/$1; id=$1; shift
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
git apply "$S/patch.diff" || { echo "does not apply"; exit 1; }
if [ -z "$CHECKONLY" ]; then
/verif/notes/runtests.sh > /tmp/seed.log 2>&1 || echo "BUILD FAILED"
tail -1 /tmp/seed.log
bash "$S/demo.sh" > /tmp/demo.log 2>&1; echo "$id demo with patch: $? $(tail -1 /tmp/demo.log | cut -c1-150)"
fi
for c in ${@:-$P}; do (cd /verif && ./check $c > /tmp/seed_$c.log 2>&1; echo "$id $c exit $?"; grep -m3 '^src\|BROKEN' /tmp/seed_$c.log | cut -c1-260); done
git checkout -- .
if [ -z "$CHECKONLY" ]; then
bash /opt/vp/build.sh > /tmp/seed.log 2>&1
bash "$S/demo.sh" > /tmp/demo.log 2>&1; echo "$id demo clean: $? $(tail -1 /tmp/demo.log | cut -c1-150)"
fi
