#!/bin/bash
# Runs tools/plant.py on private copies of /repo and /verif (mounted over them in a namespace of its own), so
# that both can be edited meanwhile. Kept changes are copied to /verif/seeded. usage: plantbox.sh NAME ID...
N=$1; shift
B=/tmp/plantbox-$N
mkdir -p "$B" && cp -a /repo "$B/repo" && cp -a /verif "$B/verif" || exit 3
cd / && unshare -Urm bash -c "mount --bind $B/repo /repo && mount --bind $B/verif /verif && cd /verif && python3 tools/plant.py $*"
for i in "$@"; do [ -e "$B/verif/seeded/$i/meta.json" ] && mkdir -p /verif/seeded/$i && cp "$B/verif/seeded/$i/"* /verif/seeded/$i/; done
cp "$B"/verif/tools/caught/*.json /verif/tools/caught/ 2>/dev/null
rm -rf "$B"
