#!/bin/bash
# replay.sh <replay file>: runs a recorded violation again, exactly.
here=$(cd "$(dirname "$0")" && pwd)
"$here/build.sh" || exit 2
export DST_ROOT=$here
exec "$here/sim/target/release/dst" replay "$1"
