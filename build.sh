#!/bin/bash
# Build the simulator from /repo's current working tree (offline).
cd "$(dirname "$0")/sim" || exit 2
. /opt/vp/env.sh
CARGO_TARGET_DIR=/verif/target cargo build --release --offline
