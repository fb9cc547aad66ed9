#!/bin/bash
# builds the MIR dumper and warms the build directories
set -e
V=$(cd "$(dirname "$0")" && pwd)
bash $V/dump.sh lib
bash $V/dump.sh cli

cd $V/witness && for w in forbid witness; do CARGO_INCREMENTAL=0 RUSTFLAGS=$([ $w = forbid ] && echo -Funsafe_code) CARGO_TARGET_DIR=$V/build/target-$w cargo +nightly check --offline || true; done
