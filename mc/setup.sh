#!/bin/bash
# Builds the explorers once (each check rebuilds what it needs itself).
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export CARGO_TARGET_DIR=$HERE/target
unset CARGO_INCREMENTAL
cd "$HERE" && cargo build --offline --quiet --bins
