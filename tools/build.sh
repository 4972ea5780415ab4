#!/bin/bash
# Build the conformance harness against /repo's current working tree.
# /repo/Cargo.toml cannot be resolved offline (its "fuzz" member has git dependencies), so a mirror of the
# tree is kept under /verif/build/ws (git-ignored), updated by content (tools/mirror.py).
set -e
V=/verif
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=1
export RUSTFLAGS="--cfg ferlium_verif"
mkdir -p "$V/build"
exec 9>"$V/build/lock"; flock 9
python3 $V/tools/mirror.py $V/build/ws
cd $V/harness
CARGO_TARGET_DIR=$V/build/target cargo build --offline --quiet
