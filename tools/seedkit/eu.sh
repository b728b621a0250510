# Sourced by demo.sh: builds the real `eu` from the current directory's source (the git
# dependency yaml-rust, absent offline, replaced by the stand-in beside this file).
# Afterwards $EU is the binary and $S a scratch directory removed at exit.
K=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
S=$(mktemp -d)
trap 'rm -rf "$S"' EXIT
export PATH="/root/.cargo/bin:/usr/local/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_TARGET_DIR="$S/target"
VERIF_REPO=$(pwd) python3 "$K/overlay.py" "$S/over" > /dev/null || exit 3
mkdir -p "$S/h" && cp "$K/Cargo.toml" "$K/Cargo.lock" "$S/h/" && ln -s "$K" "$S/kit"
(cd "$S/h" && cargo build --offline --bin eu > "$S/build.log" 2>&1) || { tail -20 "$S/build.log"; exit 3; }
EU="$S/target/debug/eu"
export EU_CACHE_HOME="$S/cache"
