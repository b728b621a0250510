#!/bin/bash
# Build the instrument set from /repo's current working tree.
#   build.sh eu    -> /verif/work/bin/eu (release-like, with prelude blob)
#   build.sh probe -> also /verif/work/bin/probe (parser and formatter line server)
#   build.sh asan  -> also the AddressSanitizer build
# Freshness is decided by content hash, never by file times.
set -e
HERE=$(cd "$(dirname "$0")/.." && pwd)
WORK="$HERE/work"
mkdir -p "$WORK"
exec 9> "$WORK/.build.lock"
flock 9
export PATH="/root/.cargo/bin:/usr/local/bin:$PATH"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=1
unset CARGO_ENCODED_RUSTFLAGS
export RUSTFLAGS="--cfg euv"
H=$(python3 "$HERE/build/overlay.py" "$WORK/over")
HH=$(cat "$HERE/harness/Cargo.toml" "$HERE/harness/src/probe.rs" $(find "$HERE/shims" "$HERE/build" -type f -not -path '*/target/*' | sort) | sha256sum | cut -c1-64)
KEY="$H-$HH"

forget() { # drop eucalypt's cargo fingerprints so that it is rebuilt whatever the mtimes say
    find "$1" -maxdepth 4 -type d \( -name 'eucalypt-*' -o -name 'eu-verif-*' -o -name 'yaml-rust-*' \) -path '*/.fingerprint/*' -exec rm -rf {} + 2>/dev/null || true
}

want() { [ -x "$2" ] && [ "$(cat "$WORK/$1.key" 2>/dev/null)" = "$KEY" ]; }

build_eu() {
    mkdir -p "$WORK/bin"
    want eu "$WORK/bin/eu" && return 0
    rm -f "$WORK/eu.key"
    export CARGO_TARGET_DIR="$WORK/target"
    export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
    forget "$WORK/target"
    cd "$HERE/harness"
    cargo build --release --offline --bin eu --bin xtask
    (cd "$WORK/over" && "$WORK/target/release/xtask" prelude-compile > "$WORK/blob.log" 2>&1) || { cat "$WORK/blob.log"; return 1; }
    B=$(sha256sum < "$WORK/over/lib/prelude.blob")
    if [ "$B" != "$(cat "$WORK/blob.sha" 2>/dev/null)" ] || ! grep -q . "$WORK/blob.sha"; then
        find "$WORK/target" -maxdepth 4 -type d -name 'eucalypt-*' -path '*/.fingerprint/*' -exec rm -rf {} + 2>/dev/null || true
        cargo build --release --offline --bin eu --bin xtask
        echo "$B" > "$WORK/blob.sha"
    fi
    cp -f "$WORK/target/release/eu" "$WORK/bin/eu.new"
    mv -f "$WORK/bin/eu.new" "$WORK/bin/eu"
    echo "$KEY" > "$WORK/eu.key"
}

build_probe() {
    want probe "$WORK/bin/probe" && return 0
    build_eu
    rm -f "$WORK/probe.key"
    export CARGO_TARGET_DIR="$WORK/target"
    export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
    cd "$HERE/harness"
    touch "$HERE/harness/src/probe.rs"
    cargo build --release --offline --bin probe
    cp -f "$WORK/target/release/probe" "$WORK/bin/probe.new"
    mv -f "$WORK/bin/probe.new" "$WORK/bin/probe"
    echo "$KEY" > "$WORK/probe.key"
}

for what in "$@"; do
    case "$what" in
        eu) build_eu ;;
        probe) build_probe ;;
        *) echo "unknown target $what" >&2; exit 2 ;;
    esac
done
