#!/bin/bash
# Build the simulator from /repo's current working tree (offline).
set -u
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/sim" || exit 2
mkdir -p target
exec 9>target/.lock
flock 9
# cargo decides by time stamps; contents decide here, so that a tree restored or
# patched with older stamps is never mistaken for the one last built
want=$( { find /repo/src /repo/Cargo.toml src Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum; rustc -V; } | sha256sum | cut -d' ' -f1)
if [ "$(cat target/.stamp 2>/dev/null)" = "$want" ] && [ -x target/release/pedsim ]; then exit 0; fi
rm -f target/.stamp
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/sim/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
cargo clean --offline --release -p perf-event-data -p pedsim >/dev/null 2>&1
if ! cargo build --offline --locked --release >target/build.log 2>&1; then
    tail -40 target/build.log >&2
    exit 1
fi
echo "$want" >target/.stamp
