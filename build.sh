#!/bin/sh
# Builds the simulator (with the hooks on), the tool as shipped, and the preload library from /repo's working tree.
# Everything goes to /verif/target. Usage: build.sh
set -e
here=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_INCREMENTAL
out="$here/target"
mkdir -p "$out"
log="$out/build.log"
fail() {
    cat "$log"
    echo "build failed"
    exit 2
}
# The working directory decides which .cargo/config.toml applies: sim's turns the hooks on.
(cd "$here/sim" && CARGO_TARGET_DIR="$out/sim" cargo build --release --locked --offline) > "$log" 2>&1 || fail
(cd "$here/cli" && RUSTFLAGS="-Awarnings" CARGO_TARGET_DIR="$out/cli" cargo build --release --locked --offline) >> "$log" 2>&1 || fail
if [ ! -e "$out/shim.so" ] || [ "$here/sim/shim/shim.c" -nt "$out/shim.so" ]; then
    cc -O2 -shared -fPIC -o "$out/shim.so.new" "$here/sim/shim/shim.c" -ldl >> "$log" 2>&1 || fail
    mv "$out/shim.so.new" "$out/shim.so"
fi
