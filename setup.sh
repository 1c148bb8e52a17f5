#!/bin/bash
# Pre-builds every explorer from /repo's working tree.
cd "$(dirname "$0")" || exit 2
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never PYO3_PYTHON=/usr/bin/python3 RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS RUSTDOCFLAGS
for b in $(sed -n 's/^name = "mc_\(.*\)"/\1/p' harness/Cargo.toml); do
  cargo build --release --offline --manifest-path harness/Cargo.toml --target-dir "$PWD/target" --features "$b" --bin "mc_$b" 2>&1 | tail -1
done
