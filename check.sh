#!/bin/bash
# check.sh ID [--replay FILE]: build the harness against /repo's current tree and
# run one check. Exit 0: held; 1: violation; anything else: no answer.
# Two builds: one as users have the library, searched at random, and one with
# coverage instrumentation, for the guided search that follows.
cd /verif/harness || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET RUST_LOG RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER
mkdir -p target/guided
# one at a time: the builds share their folder
exec 9>target/lock
flock -w 600 9
# cargo goes by file times, which a copied tree need not honour
rm -rf /verif/harness/target/release/.fingerprint/subtile-* /verif/harness/target/guided/release/.fingerprint/subtile-*
log=/verif/harness/target/build-$$.log
# only the check asked for
only=
case $1 in C[0-9][0-9]) only="--no-default-features --features $1" ;; esac
guided=
if [ "$2" != --replay ]; then
  CARGO_TARGET_DIR=/verif/harness/target/guided RUSTC_WRAPPER=/verif/harness/wrap.sh \
    cargo build --release --offline --quiet $only >"$log.guided" 2>&1 &
  guided=$!
fi
if ! cargo build --release --offline --quiet $only >"$log" 2>&1; then
  echo "the harness does not build against /repo:"
  tail -n 60 "$log"
  [ -n "$guided" ] && wait "$guided"
  rm -f "$log" "$log.guided"
  exit 2
fi
rm -f "$log"
if [ -n "$guided" ] && ! wait "$guided"; then
  echo "the instrumented harness does not build against /repo, so there is no guided search:"
  tail -n 20 "$log.guided"
  guided=
fi
rm -f "$log.guided"
if [ "$1" = setup ]; then exit 0; fi
[ "$2" = --replay ] && exec target/release/vh check "$@"
target/release/vh check "$1" || exit $?
[ -z "$guided" ] || exec target/guided/release/vh check "$1" --guided
