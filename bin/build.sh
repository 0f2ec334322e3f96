#!/bin/bash
# Builds the harness against /repo's working tree: build.sh [core] [server] [python]
# Output goes to /verif/target, which git ignores.  A content hash decides whether
# what an earlier build left may be reused, so file times do not matter.
here=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh || exit 2
set -o pipefail
mkdir -p "$here/target" || exit 2
exec 9>"$here/target/build.lock"; flock 9
T=$here/target
hash=$(cd /repo && find . \( -path ./target -o -path ./.git -o -path ./docs -o -path ./images -o -path ./fixtures \) -prune -o -type f ! -name '*.so' ! -name '*.pyc' -print0 | sort -z | xargs -0 sha1sum | sha1sum | cut -c1-40)
stale() { [ "$(cat "$T/$1.hash" 2>/dev/null)" != "$hash" ]; }
fail() { echo "build failed: $1" >&2; tail -40 "$T/$1.log" >&2; exit 2; }
for what in "${@:-core}"; do
  case $what in
  core)
    cd "$here/harness" || exit 2
    if stale core; then rm -f "$T/core.hash"; cargo clean --offline --target-dir "$T" -p polodb_core -p polodb_line_diff >/dev/null 2>&1; fi
    cargo build --offline --locked --target-dir "$T" >"$T/core.log" 2>&1 || fail core
    for s in "$here"/shim/*.c; do
      [ -e "$s" ] || continue
      o=$T/$(basename "$s" .c).so
      if [ ! -e "$o" ] || [ "$s" -nt "$o" ]; then gcc -O1 -g -Wall -shared -fPIC -o "$o" "$s" -ldl -lpthread >"$T/shim.log" 2>&1 || fail shim; fi
    done
    echo "$hash" >"$T/core.hash" ;;
  server)
    cd /repo || exit 2
    if stale server; then rm -f "$T/server.hash"; cargo clean --offline --locked --target-dir "$T/repo" -p polodb_core -p polodb >/dev/null 2>&1; fi
    cargo build --offline --locked -p polodb --target-dir "$T/repo" >"$T/server.log" 2>&1 || fail server
    echo "$hash" >"$T/server.hash" ;;
  python)
    cd /repo || exit 2
    if stale python; then rm -f "$T/python.hash"; cargo clean --offline --locked --target-dir "$T/repo" -p polodb_core -p py-binding-polodb >/dev/null 2>&1; fi
    cargo build --offline --locked -p py-binding-polodb --target-dir "$T/repo" >"$T/python.log" 2>&1 || fail python
    echo "$hash" >"$T/python.hash" ;;
  esac
done
