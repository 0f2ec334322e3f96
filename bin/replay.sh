#!/bin/bash
# replay.sh FILE: run again the case a VIOLATION line names.
here=$(cd "$(dirname "$0")/.." && pwd)
f=$(readlink -f "$1")
"$here/bin/build.sh" core || exit 2
cd "$here" || exit 2
exec "$here/target/debug/vx" replay "$f"
