#!/bin/bash
# extract.sh REPO OUT.json : type-check REPO's current working tree with the fact-dumping compiler driver
set -e
REPO=$1; OUT=$2
HERE=$(cd "$(dirname "$0")" && pwd)
TGT=${MIRFACTS_TARGET:-$HERE/.build/target}
SYS=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH=$SYS/lib:$LD_LIBRARY_PATH
if [ ! -x $HERE/driver/target/debug/mirfacts ] || [ $HERE/driver/src/main.rs -nt $HERE/driver/target/debug/mirfacts ]; then
  (cd $HERE/driver && cargo +nightly build --offline -q)
fi
# cargo's freshness cache would skip the wrapper: drop the units of the crate under analysis
find $TGT -maxdepth 4 -name 'bitcoin-indexer*' -prune -exec rm -rf {} + 2>/dev/null || true
find $TGT -maxdepth 4 -name 'bitcoin_indexer*' -prune -exec rm -rf {} + 2>/dev/null || true
rm -f $OUT
cd $REPO
# debug assertions are not part of what a user relies on (the release build has none): they are left out; overflow checks stay visible
export CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=false CARGO_PROFILE_DEV_OVERFLOW_CHECKS=true
MIRFACTS_OUT=$OUT RUSTC_WORKSPACE_WRAPPER=$HERE/driver/target/debug/mirfacts CARGO_TARGET_DIR=$TGT cargo +nightly check --offline -q --bins
