#!/bin/bash
# usage: check.sh <property> [--tier quick|thorough] [--seed N] [--part NAME] [--replay FILE]
# exit 0: held on everything explored; 1: VIOLATION line printed; anything else: the check itself failed
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here"
"$here/build.sh" || { echo "ERROR: the harness does not build against /repo" >&2; exit 4; }
if [ "${1:-}" = C27 ] && [ ! -x "$here/target/x86_64-unknown-linux-gnu/debug/victor-program" ]; then
    echo "ERROR: the victor program does not build" >&2; exit 4
fi
exec "$here/target/x86_64-unknown-linux-gnu/debug/vh" check "$@"
