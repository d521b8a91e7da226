#!/bin/bash
# builds the simulator with the current /repo sources; prints the path of the binary
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTFLAGS="--cfg nd_sim -A unexpected_cfgs" RUSTC_WRAPPER="$here/rustc-wrapper.sh" CARGO_INCREMENTAL=0
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
export ND_SRC_HASH=$(cd /repo && find src -type f -name '*.rs' -print0 | sort -z | xargs -0 cat /repo/Cargo.toml | sha256sum | cut -c1-16)
mkdir -p "$here/../target"
cd "$here" || exit 2
(
    flock 9
    cargo build --release --offline -p ndsim --target-dir "$here/../target" 2>"$here/../target/build.log" || {
        cat "$here/../target/build.log" >&2
        exit 2
    }
) 9>"$here/../target/.lock" || exit 2
echo "$here/../target/release/ndsim"
