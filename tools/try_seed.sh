#!/bin/bash
# try_seed.sh ID [CHECK...]: apply a planted bug to /repo, run its property's check (or those named), undo it.
cd "$(dirname "$0")/.." || exit 2
id=$1; shift
[ -z "$(git -C /repo status --short)" ] || { echo "/repo is not clean"; exit 2; }
p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
git -C /repo apply "$PWD/seeded/$id/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
for c in "${@:-$p}"; do
  s=$(date +%s); out=$(./check.sh $c quick 2>&1); rc=$?; e=$(date +%s)
  echo "$id: $c exit $rc ($((e-s)) s) $(grep -c ^VIOLATION <<<"$out") $(grep -m1 ^VIOLATION <<<"$out" | cut -c1-150)"
done
