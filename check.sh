#!/bin/bash
# check.sh ID [quick|thorough]: builds the checker against /repo's working tree
# and decides property ID. Exit 0 held, 1 violated, 2 no answer.
# check.sh setup: builds every variant of the checker.
here="$(dirname "$(readlink -f "$0")")"
id="$1"
tier="${2:-${VERIF_TIER:-quick}}"
export VERIF_ROOT="$here"
crate=mc
build() {
    log="$(mktemp)"
    if ! "$here/$crate/build.sh" "$@" >"$log" 2>&1; then
        tail -60 "$log"
        rm -f "$log"
        echo "the checker does not build against /repo"
        exit 2
    fi
    rm -f "$log"
}
dir="$here/mc/target"
case "$id" in
    setup)
        build
        build --features models
        build --features vello --target-dir "$here/mc/target-vello"
        crate=apps
        build
        exit 0
        ;;
    C18 | C22 | C26 | C27 | C28) build --features models ;;
    C23)
        dir="$here/mc/target-vello"
        build --features vello --target-dir "$dir"
        ;;
    X*)
        crate=apps
        dir="$here/apps/target"
        build
        ;;
    *) build ;;
esac
exec "$dir/debug/$crate" run "$id" "$tier"
