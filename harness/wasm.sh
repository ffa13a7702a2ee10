#!/bin/bash
# wasm.sh CRATE OUT.wasm [REPO] [TARGET_DIR] [SCRATCH]: compiles one contract of REPO to WebAssembly, offline.
# The sources are copied to SCRATCH first, less the git dev-dependencies that cannot be had here.
set -e
C=$1 OUT=$2 REPO=${3:-$PWD} TGT=${4:-/opt/vp/target} SCR=${5:-/tmp/wasm-src-$$}
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.70.0 RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC=/root/.rustup/toolchains/1.69.0-x86_64-unknown-linux-gnu/bin/rustc CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=$TGT
mkdir -p "$SCR"
rsync -rlpc --delete --exclude /.git --exclude target "$REPO"/ "$SCR"/
sed -i -E '/^[A-Za-z0-9_-]+ *= *\{ *git *=/d' "$SCR/$C/Cargo.toml"
cd "$SCR/$C"
if [ "$C" = state-manipulation ]; then
    unset RUSTFLAGS
    export RUSTC_BOOTSTRAP=1
    F=${FEATURES:---all-features}
else
    export RUSTFLAGS='-C link-arg=-s'
    F=
fi
cargo build --target wasm32-unknown-unknown --release --offline $F
N=$(sed -nE 's/^name *= *"([^"]*)".*/\1/p' Cargo.toml | head -1 | tr - _)
cp "$TGT/wasm32-unknown-unknown/release/$N.wasm" "$OUT"
