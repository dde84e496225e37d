#!/bin/bash
# Builds the harness against /repo's current working tree (offline). Prints nothing on success.
cd "$(dirname "$0")/.." || exit 2
V=$(pwd)
export CARGO_TARGET_DIR="$V/target" CARGO_NET_OFFLINE=true
mkdir -p "$V/target"
exec 9>"$V/target/.mc-lock"; flock 9
# cargo decides by modification times; decide by content instead
H=$( (cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
if [ "$(cat "$V/target/.repo-hash" 2>/dev/null)" != "$H" ]; then
  rm -f "$V/target/.repo-hash"
  cargo clean --release --offline --manifest-path mc/Cargo.toml -p cmaes >/dev/null 2>&1
fi
cargo build --release --offline --locked --manifest-path mc/Cargo.toml >"$V/target/.build-log" 2>&1 || { tail -60 "$V/target/.build-log" >&2; exit 2; }
echo "$H" > "$V/target/.repo-hash"
