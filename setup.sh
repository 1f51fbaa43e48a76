#!/bin/bash
# Builds the simulator against /repo, offline.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
cd "$here/sim" && cargo build --release --offline
