#!/bin/bash
# Build the command-line tool from /repo and the fault-injecting layer it runs on.
. /opt/vp/env.sh
export CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true
mkdir -p /verif/target
cd "$(dirname "$0")" || exit 2
gcc -O1 -Wall -shared -fPIC -o /verif/target/shim.so /verif/shim/shim.c -ldl &&
cargo build --release --offline -p rexiftool --manifest-path /repo/Cargo.toml --target-dir /verif/target/cli
