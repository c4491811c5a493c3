# sourced: build environment (offline, pinned toolchain)
. /opt/vp/env.sh
export CARGO_TARGET_DIR=/verif/mc/target
cd /verif/mc
