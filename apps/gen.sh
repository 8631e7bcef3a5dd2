#!/bin/bash
# Lays out a workspace in gen/ like /repo's: the library through a link to
# /repo/src, the example crates as copies to which the accessors in probes/
# are appended (what they reach is private to its module). Unchanged files
# keep their time stamps, so that only what changed in /repo is rebuilt.
here="$(dirname "$(readlink -f "$0")")"
gen="$here/gen"
mkdir -p "$gen/examples" || exit 2
put() { # text on stdin -> file, if different
    mkdir -p "$(dirname "$1")"
    cat >"$1.new" && { cmp -s "$1.new" "$1" && rm "$1.new" || mv "$1.new" "$1"; }
}
put "$gen/Cargo.toml" </repo/Cargo.toml
[ -L "$gen/src" ] || ln -s /repo/src "$gen/src"
[ -L "$gen/examples/assets" ] || ln -s /repo/examples/assets "$gen/examples/assets"
for c in scenes with_winit run_wasm; do
    # files that are gone in /repo
    [ -d "$gen/examples/$c" ] && (cd "$gen/examples/$c" && find . -type f) | while read -r f; do
        [ -f "/repo/examples/$c/$f" ] || rm "$gen/examples/$c/${f#./}"
    done
    (cd "/repo/examples/$c" && find . -type f) | while read -r f; do
        f="${f#./}"
        probe="$here/probes/$c/${f#src/}"
        if [ -f "$probe" ]; then
            cat "/repo/examples/$c/$f" "$probe" | put "$gen/examples/$c/$f"
        else
            put "$gen/examples/$c/$f" <"/repo/examples/$c/$f"
        fi
    done
done
