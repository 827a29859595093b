#!/bin/bash
# Compiles the harness and every vortex crate from /repo's working tree to LLVM IR plus the native replay binary.
. /opt/vp/env.sh
export CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
export CARGO_TARGET_DIR=${VSX_TARGET:-/verif/.cache/target}
export RUSTFLAGS="--emit=llvm-ir,link -C no-vectorize-loops -C no-vectorize-slp -C llvm-args=-vectorize-slp=false --cap-lints warn"
cd /verif/harness && exec cargo build --offline --target x86_64-unknown-linux-gnu "$@"
