#!/bin/bash
# build.sh [mc|mcpy|mcx ...]: build the explorers from /repo's current working tree, hooks on.
# mcx, the explorer of interleavings, has every memory access of the library, its dependencies and std
# instrumented (rustc's ThreadSanitizer pass), and sched/rt.c in the place of the sanitizer's runtime.
set -u
cd "$(dirname "$0")" || exit 2
D=$PWD
export CARGO_TARGET_DIR="$D/target" CARGO_NET_OFFLINE=true
export RUSTFLAGS="--cfg ronda_verif" CARGO_INCREMENTAL=0
mkdir -p "$D/target/x"
exec 9>"$D/target/.lock"; flock 9
# cargo decides by file times; decide by content instead
now=$( { find /repo/core/src /repo/python/src /repo/core/Cargo.toml /repo/python/Cargo.toml harness/src harness/Cargo.toml harness/Cargo.lock pystub sched build.sh -type f -print0 | sort -z | xargs -0 sha256sum; rustc -V; } | sha256sum)
if [ "$now" != "$(cat target/.stamp 2>/dev/null)" ]; then
  rm -f target/.stamp
  for c in libronda ronda_py mc cpython; do
    rm -rf "$D/target/release/.fingerprint/$c"-* "$D/target/x/x86_64-unknown-linux-gnu/release/.fingerprint/$c"-*
  done
fi
rc=0
for b in "${@:-mc}"; do
  [ -f "target/.stamp" ] && [ -x "target/bin/$b" ] && [ "$(cat "target/bin/$b.stamp" 2>/dev/null)" = "$now" ] && continue
  o=target/release
  if (
    cd harness || exit 1
    case $b in
    mcx)
      export RUSTC_BOOTSTRAP=1 CARGO_TARGET_DIR="$D/target/x"
      export RUSTFLAGS="--cfg ronda_verif -Zsanitizer=thread -Zexternal-clangrt -Awarnings -Clink-arg=$D/target/x/rt.o"
      gcc -O2 -c -o "$D/target/x/rt.o" "$D/sched/rt.c" &&
        cargo build -q --release --offline --bin mcx --features sched -Zbuild-std=std,panic_unwind --target x86_64-unknown-linux-gnu ;;
    mcpy) cargo build -q --release --offline --bin mcpy --features py ;;
    *) cargo build -q --release --offline --bin "$b" ;;
    esac
  ) 2>"$D/target/build-$b.log"; then
    [ $b = mcx ] && o=target/x/x86_64-unknown-linux-gnu/release
    mkdir -p target/bin && cp "$o/$b" "target/bin/$b.new" && mv "target/bin/$b.new" "target/bin/$b" && echo "$now" >"target/bin/$b.stamp"
  else
    grep -E "^error" -A8 "target/build-$b.log" | head -60 >&2; rc=2
  fi
done
[ $rc = 0 ] && echo "$now" >target/.stamp
exit $rc
