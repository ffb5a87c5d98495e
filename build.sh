#!/bin/bash
# build.sh [BIN]   builds one check (or all of them) against /repo's current working tree.
# Cargo decides what is stale from modification times; a tree restored or copied with old times
# would fool it, so the content of /repo's sources is hashed too.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="${CARGO_TARGET_DIR:-$here/harness/target}"
cd "$here/harness" || exit 2
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.verif-lock"
flock 9
now="$(cd /repo && find src Cargo.toml build.rs -type f -print0 2>/dev/null | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)"
stamp="$CARGO_TARGET_DIR/.verif-source-hash"
if [ "$now" != "$(cat "$stamp" 2>/dev/null)" ]; then
    rm -f "$stamp"
    cargo clean --offline -q -p bellframe >/dev/null 2>&1
    cargo clean --offline -q --release -p bellframe >/dev/null 2>&1
    for own in cclib ccgen; do
        (cd "$own" && cargo clean --offline -q -p bellframe >/dev/null 2>&1)
    done
fi
log="$CARGO_TARGET_DIR/.verif-build.log"
build() { # DIR ARGS
    (cd "$1" && shift && cargo build --offline -q "$@") >"$log" 2>&1 && return
    grep -E '^error' -A 12 "$log" | head -60 >&2
    echo "build of $* against /repo failed" >&2
    exit 2
}
# The checks which need the features for downloading and for XML are workspaces of their own, so that
# the others don't have them
case "${1:-}" in
    "") build . --bins; build . --release --bin c38; build cclib --bins; build ccgen --bins ;;
    c38) build . --bin c38; build . --release --bin c38 ;; # compares the two
    *)  if [ -e "cclib/src/bin/$1.rs" ]; then build cclib --bin "$1"
        elif [ -e "ccgen/src/bin/$1.rs" ]; then build ccgen --bin "$1"
        else build . --bin "$1"; fi ;;
esac
printf %s "$now" >"$stamp"
