#!/bin/bash
# Builds the checker against /repo's working tree.
here="$(dirname "$(readlink -f "$0")")"
. /opt/vp/env.sh
export CARGO_INCREMENTAL=0
cd "$here" || exit 2
exec cargo build --offline "$@"
