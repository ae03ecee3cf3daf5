#!/bin/bash
# mut.sh <ids> <file> <sed expr>...   runs checks against a mutated scratch copy of /repo
ids=$1; f=$2; shift 2
d=$(mktemp -d /tmp/mrepo.XXXX); git -C /repo archive HEAD | tar x -C $d
for e in "$@"; do sed -i -E "$e" $d/$f; done
diff -u /repo/$f $d/$f | grep '^[+-]' | grep -v '^+++\|^---'
for id in ${ids//,/ }; do XTR_REPO=$d python3-vt /verif/check.py $id 2>&1 | tail -${LINES_OUT:-6}; done
rm -rf $d
