#!/bin/bash
# Builds the simulator against /repo's current working tree. Exit status 3 when that fails.
cd "$(dirname "$0")/sim" || exit 3
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg iota_mam_sim" CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="${MAMSIM_TARGET:-$PWD/target}"
# cargo decides by modification time whether the library is stale; the content decides here.
sum=$(cd ../../repo 2>/dev/null && find src Cargo.toml build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum | sha256sum)
if [ "$(cat "$CARGO_TARGET_DIR/repo.sum" 2>/dev/null)" != "$sum" ]; then
  rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/iota-mam-* "$CARGO_TARGET_DIR"/release/.fingerprint/iota_mam-*
fi
out=$(cargo build --release --offline 2>&1) || { echo "$out" | tail -40; echo "mamsim: build failed"; exit 3; }
echo "$sum" > "$CARGO_TARGET_DIR/repo.sum"
