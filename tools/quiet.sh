#!/bin/bash
# quiet.sh DIFF... [-- CHECK...]: apply the edits (all at once), run the stable tests and the checks (all of them unless
# named) at quick, print those that are not quiet, undo. Run inside tools/lab.sh.
cd "$(dirname "$0")/.." || exit 2
d=(); while [ $# -gt 0 ] && [ "$1" != -- ]; do d+=("$1"); shift; done; shift
git -C /repo checkout -q -- . 
for x in "${d[@]}"; do git -C /repo apply "$x" || { echo "does not apply: $x"; exit 2; }; done
cks=("$@"); [ ${#cks[@]} = 0 ] && cks=(V01 V02 V03 V04 V05 O01 P01 S01 S02 S03 S04 S05 S06 C01 T01 T02 T03 T04 T05 T06 D01 D02 D03 D04 H01)
for c in "${cks[@]}"; do
  s=$(date +%s); out=$(timeout 900 ./check.sh $c quick 2>&1); rc=$?; e=$(date +%s)
  echo "$c $rc $((e-s))s $(grep -m1 -A3 ^VIOLATION <<<"$out" | tr '\n' ' ' | cut -c1-600)"
done
git -C /repo checkout -q -- .
