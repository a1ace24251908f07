#!/bin/bash
# tryseed.sh ID: the demo passes without and fails with the patch; the existing tests pass with it
d=/verif/seeded/$1; W=$(mktemp -d /tmp/seed.XXXXXX)
cp -a /repo $W/repo; cd $W/repo
sh $d/demo.sh >$W/o1 2>&1; a=$?
git apply $d/patch.diff || { echo "does not apply"; exit 1; }
sh $d/demo.sh >$W/o2 2>&1; b=$?
echo "$1: clean $a, patched $b ($(tail -1 $W/o2 | cut -c1-200))"; [ $a = 0 ] || tail -3 $W/o1
cd /; rm -rf "$W"
