#!/bin/bash
# check.sh ID [quick|thorough]: builds the monitors against /repo's working tree
# and runs the check of one property. check.sh build only builds.
export HOME=/root PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
here=$(cd "$(dirname "$0")" && pwd)
export VMON_DIR=$here
target=$here/harness/target
log=$(mktemp)
trap 'rm -f "$log"' EXIT

# cargo goes by modification times, which copies of a tree may not have right:
# what is built is remembered by its contents.
build() {
    mkdir -p "$target" || return 1
    (
        flock 9
        now=$(cd /repo && find Cargo.toml src -type f -print0 | sort -z | xargs -0 sha256sum; cd "$here/harness" && find Cargo.toml Cargo.lock src stub miri -type f -print0 | sort -z | xargs -0 sha256sum)
        if [ "$now" != "$(cat "$target/sources" 2>/dev/null)" ]; then
            rm -rf "$target/sources" "$target/miri"
            (cd "$here/harness" && cargo clean --release --offline -p bae_rs -p vmon; exit 0)
        fi
        (cd "$here/harness" && cargo build --release --offline --locked) || exit 1
        printf '%s\n' "$now" >"$target/sources"
    ) 9>"$target/lock"
}

# The tool is built in a copy, so that nothing is left in /repo.
build_tool() {
    (
        flock 9
        d=$target/bin2str
        now=$(cd /repo/utility/bin2str && find . -path ./target -prune -o -name input.wav -prune -o -name Cargo.lock -prune -o -type f -print0 | sort -z | xargs -0 sha256sum)
        [ "$now" = "$(cat "$d/sources" 2>/dev/null)" ] && [ -x "$d/out/debug/bin2str" ] && exit 0
        rm -rf "$d"
        mkdir -p "$d/src" || exit 1
        (cd /repo/utility/bin2str && tar cf - --exclude=./target --exclude=./input.wav --exclude=./Cargo.lock .) | tar xf - -C "$d/src" || exit 1
        grep -q '^\[workspace\]' "$d/src/Cargo.toml" || printf '\n[workspace]\n' >>"$d/src/Cargo.toml"
        cargo build --offline --manifest-path "$d/src/Cargo.toml" --target-dir "$d/out" || exit 1
        printf '%s\n' "$now" >"$d/sources"
    ) 9>"$target/lock"
}

if ! build >"$log" 2>&1; then
    cat "$log"
    echo "ERROR: the monitors do not build against /repo"
    exit 2
fi
# The sysroot of Miri, which the check of C32 needs.
if [ "$1" = build ]; then
    (
        cd "$here/harness/miri" && env -u RUSTUP_TOOLCHAIN XDG_CACHE_HOME="$target/cache" cargo +nightly miri setup && \
        env -u RUSTUP_TOOLCHAIN XDG_CACHE_HOME="$target/cache" cargo +nightly miri run -q --offline --locked --target-dir "$target/miri" -- none
    ) >"$log" 2>&1 || cat "$log"
fi
if [ "$1" = C31 ] || [ "$1" = build ]; then
    if ! build_tool >"$log" 2>&1; then
        cat "$log"
        echo "ERROR: the tool does not build"
        exit 2
    fi
fi
[ "$1" = build ] && exit 0
"$target/release/vmon" check "$1" "${2:-${VERIF_TIER:-quick}}"
