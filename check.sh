#!/bin/bash
# check.sh ID [quick|thorough]: decide one property on /repo's current working tree.
# exit 0: it held on everything explored; 1: VIOLATION line; anything else: the check could not answer.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
b=mc; [ "$1" = P01 ] && b=mcpy
./build.sh $b || { echo "the explorer does not build against /repo" >&2; exit 2; }
[ "$1" = H01 ] && ./build.sh mcx && export VERIF_MCX="$PWD/target/bin/mcx"
exec "target/bin/$b" check "$1" "${2:-${VERIF_TIER:-quick}}"
