#!/bin/bash
# mkseed.sh <id> : writes patch.diff of scratch copy /tmp/seed.<id> (made with 'mkseed.sh -n <id>') and runs the demo on both trees
if [ "$1" = -n ]; then rm -rf /tmp/seed.$2; mkdir /tmp/seed.$2; git -C /repo archive HEAD | tar x -C /tmp/seed.$2; cd /tmp/seed.$2; git init -q; git add -A; git -c user.name=x -c user.email=x commit -qm x; echo /tmp/seed.$2; exit; fi
id=$1; d=/tmp/seed.$id; s=/verif/seeded/$id
git -C $d diff > $s/patch.diff
cat $s/patch.diff | grep '^[+-]'
( cd /repo && bash $s/demo.sh >/tmp/demo.out 2>&1; echo "unchanged: $?"; tail -3 /tmp/demo.out )
( cd $d && bash $s/demo.sh >/tmp/demo.out 2>&1; echo "with patch: $?"; tail -3 /tmp/demo.out )
rm -rf $d
