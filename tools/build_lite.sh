#!/bin/bash
# Builds the second copy of the P36 driver, without the crate's default features. The binary is absent if that fails.
cd "$(dirname "$0")/.." || exit 2
V=$(pwd)
export CARGO_TARGET_DIR="$V/target/lite" CARGO_NET_OFFLINE=true
mkdir -p "$V/target/lite"
exec 9>"$V/target/.lite-lock"; flock 9
H=$( (cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
if [ "$(cat "$V/target/.lite-hash" 2>/dev/null)" != "$H" ]; then
  rm -f "$V/target/.lite-hash"
  cargo clean --release --offline --manifest-path mc/lite/Cargo.toml -p cmaes >/dev/null 2>&1
fi
if cargo build --release --offline --locked --manifest-path mc/lite/Cargo.toml >"$V/target/.lite-log" 2>&1; then
  echo "$H" > "$V/target/.lite-hash"
else
  rm -f "$V/target/lite/release/mc-lite"
fi
exit 0
