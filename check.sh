#!/bin/bash
# Usage: check.sh <property> | build
# Builds the monitors together with the working tree of /repo and runs the workloads of one property.
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
# seeded scheduling of the simulations
export RUSTFLAGS="--cfg tokio_unstable"
root=$(cd "$(dirname "$0")" && pwd)
export CARGO_TARGET_DIR="$root/harness/target"
export KNXMON_ROOT="$root"
cd "$root/harness" || exit 2

build() {
    local log
    log=$(mktemp) || exit 2
    if ! cargo build --profile "$1" --offline --locked >"$log" 2>&1; then
        cat "$log" >&2
        rm -f "$log"
        echo "the monitors cannot be built with /repo" >&2
        exit 2
    fi
    rm -f "$log"
}

build release
[ "$1" = build ] && exit 0
"$CARGO_TARGET_DIR/release/knxmon" "$1"
rc=$?
if [ $rc -eq 0 ] && [ "$VERIF_TIER" = thorough ]; then
    # once more as users build it, without overflow checks; the evidence file is that of the first run
    build plain
    mkdir -p "$CARGO_TARGET_DIR/plain-run"
    KNXMON_ROOT="$CARGO_TARGET_DIR/plain-run" KNXMON_SCALE=0.3 "$CARGO_TARGET_DIR/plain/knxmon" "$1"
    rc=$?
fi
exit $rc
