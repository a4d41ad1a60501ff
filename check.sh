#!/bin/bash
# check.sh ID quick|thorough [family]   - decide one property on /repo's working tree
# check.sh --build                      - only build
# Exit: 0 holds, 1 violated, 2 harness trouble, 3 does not build.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export LISOMC_VERIF="$here"
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR
cd "$here/mc" || exit 3
mkdir -p target "$here/evidence" "$here/replays"

build() { # target dir, extra cargo arguments
    local dir=$1
    shift
    mkdir -p "$dir"
    local now
    now=$( { find /repo/src /repo/Cargo.toml "$here/mc/src" "$here/mc/mcrt" "$here/mc/shims" "$here/mc/Cargo.toml" \
        "$here/mc/Cargo.lock" "$here/mc/.cargo" -path '*/target' -prune -o -type f -print | LC_ALL=C sort \
        | xargs -d '\n' sha256sum; rustc --version; } | sha256sum | cut -d' ' -f1)
    (
        flock 9
        if [ ! -x "$dir/release/lisomc" ] || [ "$(cat "$dir/.stamp" 2>/dev/null)" != "$now" ]; then
            # file times are not to be trusted in copies: rebuild what depends on the sources
            find "$dir" -maxdepth 3 -path '*/.fingerprint/*' \( -name 'liso-*' -o -name 'lisomc-*' -o -name 'mcrt-*' \) \
                -exec rm -rf {} + 2>/dev/null
            if ! cargo build --release --offline --target-dir "$dir" "$@" >"$dir/build.log" 2>&1; then
                grep -E -A12 '^error' "$dir/build.log" | head -60 >&2
                exit 3
            fi
            echo "$now" >"$dir/.stamp"
        fi
    ) 9>"$dir/.lock" || { echo "check.sh: the harness does not build" >&2; exit 3; }
}

if [ "${1:-}" = --build ]; then
    build "$here/mc/target"
    build "$here/mc/target/single" --no-default-features
    build "$here/mc/target/capture" --features capture
    exit 0
fi
id=$1
tier=${2:-${VERIF_TIER:-quick}}
dir=$here/mc/target
if [ "$id" = P30 ]; then
    # a build of the library of its own
    dir=$here/mc/target/capture
    build "$dir" --features capture
    exec "$dir/release/lisomc" check "$id" "$tier" ${3:-}
fi
build "$dir"
if [ "$id" = P09 ]; then
    # the same without the global output, as a second build of the library
    build "$here/mc/target/single" --no-default-features
    LISOMC_EVIDENCE=$here/mc/target/P09-single.json "$here/mc/target/single/release/lisomc" check "$id" "$tier" ${3:-} || exit
    export LISOMC_MERGE=$here/mc/target/P09-single.json
fi
exec "$dir/release/lisomc" check "$id" "$tier" ${3:-}
