#!/bin/bash
# replay.sh ID TIER SPACE INDEX: run one explored case alone on /repo's current working tree (1: violated).
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
b=mc; [ "$1" = P01 ] && b=mcpy
./build.sh $b || exit 2
[ "$1" = H01 ] && ./build.sh mcx && export VERIF_MCX="$PWD/target/bin/mcx"
exec "target/bin/$b" case "$@"
