#!/bin/bash
# Build the simulator against the current working tree of /repo and decide one
# property: check.sh <property> (or: check.sh --build)
set -u
cd "$(dirname "$0")" || exit 2
root="$(pwd)"
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$root/sim/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p "$root/sim/target" "$root/evidence" "$root/replays"

# Cargo trusts time stamps. Rebuild whenever the content differs from what was
# built last, regardless of time stamps.
stamp="$root/sim/target/.content"
now="$( { find /repo/lib "$root/sim/src" -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | sort -z | xargs -0 sha256sum; sha256sum /repo/Cargo.toml "$root/sim/Cargo.toml" /repo/.cargo/config.toml 2>/dev/null; } | sha256sum )"
(
    flock 9
    if [ ! -f "$stamp" ] || [ "$(cat "$stamp")" != "$now" ]; then
        (cd "$root/sim" && cargo clean -q --offline --release -p sim -p osi -p tmp -p sys 2>/dev/null)
        rm -f "$stamp"
    fi
    log="$root/sim/target/build.log"
    if ! (cd "$root/sim" && cargo build -q --offline --release) > "$log" 2>&1; then
        cat "$log"
        echo "error: the simulator does not build" >&2
        exit 2
    fi
    echo "$now" > "$stamp"
) 9> "$root/sim/target/.lock" || exit 2
[ "${1:-}" = "--build" ] && exit 0
export SIM_ROOT="$root"
exec "$root/sim/target/release/sim" check "$1"
