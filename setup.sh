#!/bin/bash
# Builds every checker offline from the committed files (checks rebuild what changed in /repo).
HERE=$(cd "$(dirname "$0")" && pwd)
export CARGO_TARGET_DIR="$HERE/mc/target" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET
cd "$HERE/mc" || exit 1
NOW=$("$HERE/tools/repo_hash")
if [ "$(cat "$CARGO_TARGET_DIR/.repo-stamp" 2>/dev/null)" != "$NOW" ]; then
  cargo clean --offline --release -p narrow -p narrow-ffi -p mc >/dev/null 2>&1
  cargo clean --offline --profile unchecked -p narrow -p narrow-ffi -p mc >/dev/null 2>&1
fi
cargo build --offline --locked --release --bins || exit 1
cargo build --offline --locked --profile unchecked --bin c11 || exit 1
echo "$NOW" > "$CARGO_TARGET_DIR/.repo-stamp"
