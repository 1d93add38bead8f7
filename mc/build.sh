#!/bin/bash
# Build the checker from /repo's current working tree.
set -e
export PATH="$PATH:/usr/local/cargo/bin:$HOME/.cargo/bin"
export RUSTUP_TOOLCHAIN=1.90.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTFLAGS="--cfg papaya_mc --cap-lints warn"
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTC_WRAPPER
cd "$(dirname "$0")"
exec cargo build --release --offline "$@"
