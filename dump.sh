#!/bin/bash
# dump.sh lib|cli: dumps the MIR of everything reachable from the decoder (or from the command-line
# tool's main), from /repo's current source, to build/lib.json (build/cli.json)
set -e
V=$(cd "$(dirname "$0")" && pwd)
B=$V/build
what=${1:-lib}
mkdir -p $B
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
[ -x $V/driver/target/debug/mirdump ] || (cd $V/driver && cargo +nightly build --offline)
rm -f $B/$what.json
export RUSTC_WORKSPACE_WRAPPER=$V/driver/target/debug/mirdump RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0" MIRDUMP_OUT=$B/$what.json
if [ $what = lib ]; then
  cd $V/harness
  rm -rf $B/target/debug/build/absharness $B/target/debug/build/wadec $B/target/debug/incremental
  MIRDUMP_CFG=$V/harness/dump.cfg MIRDUMP_CRATE=absharness CARGO_TARGET_DIR=$B/target cargo +nightly check --offline
else
  mkdir -p $B/models
  (echo '#![feature(try_trait_v2, allocator_api)]'; cat $V/harness/src/models.rs) > $B/models/lib.rs
  sed -i 's,^//!,//,' $B/models/lib.rs
  rustc +nightly --edition 2024 --crate-type rlib --crate-name absmodels -Zalways-encode-mir -Zmir-opt-level=0 -Awarnings --emit=metadata,link --out-dir $B/models $B/models/lib.rs
  export MIRDUMP_MODELS=$B/models/libabsmodels.rlib
  cd /repo
  rm -rf $B/target-cli/debug/build/wadec-cli $B/target-cli/debug/build/wadec $B/target-cli/debug/incremental
  MIRDUMP_CFG=$V/harness/cli.cfg MIRDUMP_CRATE=wadec:bin CARGO_TARGET_DIR=$B/target-cli cargo +nightly check --offline --locked -p wadec-cli
fi
