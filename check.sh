#!/bin/bash
# check.sh <property> [quick|thorough]: builds from /repo's working tree and searches.
here=$(cd "$(dirname "$0")" && pwd)
"$here/build.sh" || exit 2
export DST_ROOT=$here
[ -n "$2" ] && export VERIF_TIER=$2
exec "$here/sim/target/release/dst" check "$1"
