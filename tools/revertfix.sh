#!/bin/bash
# revertfix.sh HASH IDS...: runs checks with one of the fixes undone (leaves /repo as it was)
h=$1; shift
cd /repo || exit 1
git diff $h $h^ | git apply -3 --index 2>/dev/null || git diff $h $h^ | git apply -C1 || { git checkout -q HEAD -- . ; git reset -q --hard; echo "$h: does not apply"; exit 1; }
if git diff HEAD --quiet; then echo empty; fi
grep -l '<<<<<<<' -r pkg cmd && { git reset -q --hard; echo "$h: conflict"; exit 1; }
for i in "$@"; do bash /verif/run.sh $i 2>&1 | grep -v '^KNOWN' | cut -c1-220; done
git reset -q --hard
