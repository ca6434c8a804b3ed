#!/bin/bash
# Builds the simulator's storage layer into /verif/build and brings /repo's compiled extensions up to date.
set -u
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/build" "$here/out"
exec 9> "$here/build/lock"
flock 9
if [ ! -f "$here/build/simio.so" ] || [ "$here/sim/simio.c" -nt "$here/build/simio.so" ]; then
    gcc -O2 -fPIC -shared -w -U_FORTIFY_SOURCE -o "$here/build/simio.so.tmp" "$here/sim/simio.c" -ldl || exit 1
    mv "$here/build/simio.so.tmp" "$here/build/simio.so"
fi
bash /opt/vp/build.sh 9>&- || exit 1
exit 0
