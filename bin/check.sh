#!/bin/bash
# check.sh ID [core server python...]: rebuild what the check needs, then decide property ID.
here=$(cd "$(dirname "$0")/.." && pwd)
id=$1; shift
"$here/bin/build.sh" "${@:-core}" || exit 2
cd "$here" || exit 2
ulimit -c 0
exec "$here/target/debug/vx" check "$id" "${VERIF_TIER:-quick}"
