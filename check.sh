#!/bin/bash
# check.sh <property> | check.sh replay <property> <file> | check.sh build
# Builds the harness against /repo's working tree, offline, and runs one check.
# VERIF_SEED and VERIF_TIER select the seed and the amount of work.
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here" CARGO_TARGET_DIR="$here/harness/target"
cd "$here/harness" || exit 3
# cargo compares mtimes only: drop this crate's fingerprints so that no stale build can be judged
for f in "$CARGO_TARGET_DIR"/release/.fingerprint/unixfs-v1-*; do
  [ -e "$f" ] && rm -rf "$f"
done
if ! out="$(cargo build --release --offline --locked --quiet 2>&1)"; then
  printf '%s\n' "$out" >&2
  echo "check.sh: build failed" >&2
  exit 3
fi
[ "$1" = build ] && exit 0
exec "$CARGO_TARGET_DIR/release/verif-harness" "$@"
