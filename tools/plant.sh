#!/bin/bash
# plant.sh ID [CHECK...] : confirms the planted bug seeded/ID in /repo (demo, tests, demo) and runs the checks on it
ID=$1; shift
D=/verif/seeded/$ID
cd /repo || exit 2
[ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "dirty /repo"; exit 2; }
# the demo runs from another folder
T=$(mktemp -d /tmp/demoXXXX); cp $D/* $T/; rm -f $T/patch.diff $T/meta.json
if [ -z "$SKIPCLEAN" ]; then
bash /opt/vp/build.sh >/dev/null 2>&1
bash $T/demo.sh >$T/clean.out 2>&1 && echo "demo clean: 0" || { echo "demo FAILS on clean"; tail -5 $T/clean.out; }
fi
git apply $D/patch.diff || exit 2
if bash /opt/vp/build.sh >$T/build.out 2>&1; then echo built; else echo "BUILD FAILS"; grep -a "^error" -A6 $T/build.out | head -20; fi
bash /opt/vp/test.sh $T/o.json 2>&1 | tail -1
bash $T/demo.sh >$T/bug.out 2>&1 && echo "demo PASSES with bug" || { echo "demo with bug: nonzero"; tail -3 $T/bug.out; }
for c in "$@"; do (cd /verif; python3 check.py $c > $T/$c.out 2>&1; echo "$c exit $?"; grep -a -m2 -E "^# |TOOL" $T/$c.out | cut -c1-300); done
git checkout -- . ; bash /opt/vp/build.sh >/dev/null 2>&1
rm -rf "$T"
