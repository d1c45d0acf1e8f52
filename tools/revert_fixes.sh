#!/bin/bash
# For every fix commit of /repo: undo it in the working tree, run the check of
# its property, restore. Usage: revert_fixes.sh [hash...]
cd /verif
grep -h '^fixed:' KNOWN_FINDINGS.txt | sed 's/^fixed: property=\([A-Z0-9]*\) \([0-9a-f]*\) .*/\2 \1/' | while read h p; do
  if [ $# -gt 0 ] && ! [[ " $* " == *" $h "* ]]; then continue; fi
  if git -C /repo show $h | git -C /repo apply -R 2>/dev/null; then
    ./check.sh $p quick > /tmp/rv.log 2>&1; rc=$?
    git -C /repo checkout -- .
    echo "$h $p rc=$rc $(grep -m1 -o 'broken.*' /tmp/rv.log | head -c 100)"
  else
    echo "$h $p does-not-revert"
  fi
done
