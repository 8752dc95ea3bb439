#!/bin/bash
# Offline sanity build of the framework; every check also builds for itself.
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
export CARGO_TARGET_DIR="$here/target"
cd "$here/mc" && cargo build --offline --locked --lib || exit 1
