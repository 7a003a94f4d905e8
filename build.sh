#!/bin/bash
# Builds what the checks run, from /repo's current working tree, into /verif/build:
# the gc-* binaries, the monitor (linked with /repo's libraries) and the preloaded shim.
# Exit 0, or 3 when something does not build (a check then gives no verdict).
V=$(cd "$(dirname "$0")" && pwd)
B=$V/build
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET
mkdir -p "$B" || exit 3
exec 9>"$B/.lock"
flock 9
# cargo goes by modification time; a restored file may carry an old one, so go by content
stamp=$( (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | sort -z | xargs -0 sha256sum
          cd "$V/harness" && find . -type f -not -path './target/*' -print0 | sort -z | xargs -0 sha256sum
          sha256sum "$V/shim/shim.c") | sha256sum)
if [ -f "$B/stamp" ] && [ "$(cat "$B/stamp")" = "$stamp" ] && [ -x "$B/harness/debug/monitor" ] && [ -f "$B/shim.so" ]; then
    exit 0
fi
rm -f "$B/stamp"
log=$B/build.log
(
    set -e
    cc -O1 -shared -fPIC -o "$B/shim.so" "$V/shim/shim.c" -ldl
    if [ -d "$B/repo/debug" ]; then
        cargo clean --offline --manifest-path /repo/Cargo.toml --target-dir "$B/repo" -p gc-core -p gc-command
    fi
    if [ -d "$B/harness/debug" ]; then
        cargo clean --offline --manifest-path "$V/harness/Cargo.toml" --target-dir "$B/harness" -p gc-core -p gc-command -p monitor
    fi
    CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only \
        cargo build --offline --locked --manifest-path /repo/Cargo.toml --workspace --bins --target-dir "$B/repo"
    cargo build --offline --locked --manifest-path "$V/harness/Cargo.toml" --target-dir "$B/harness"
) >"$log" 2>&1
rc=$?
if [ $rc -ne 0 ]; then
    grep -E "^error" -A8 "$log" | head -60 >&2
    tail -5 "$log" >&2
    echo "BUILD FAILED (see $log)" >&2
    exit 3
fi
echo "$stamp" >"$B/stamp"
