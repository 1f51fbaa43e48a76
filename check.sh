#!/bin/bash
# check.sh ID [quick|thorough]      run the check of one property
# check.sh ID replay FILE           re-execute a replay file
# check.sh ID determinism           run seeds twice and compare
set -u
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
id=$1; shift
mode=${1:-${VERIF_TIER:-quick}}
cd "$here/sim" || exit 2
if ! cargo build --release --offline >"$here/sim/build.log" 2>&1; then
    tail -40 "$here/sim/build.log" >&2
    echo "build of the simulator against /repo failed" >&2
    exit 2
fi
bin="$CARGO_TARGET_DIR/release/nakasim"
case "$mode" in
    replay) exec "$bin" replay "$id" "$2" ;;
    determinism) exec "$bin" determinism "$id" ;;
    *) exec "$bin" check "$id" --tier "$mode" ;;
esac
