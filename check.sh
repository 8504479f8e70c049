#!/bin/bash
# usage: check.sh <PROPERTY>   (VERIF_SEED, VERIF_TIER from the environment)
# Builds the monitor of one property against /repo's current working tree and runs it.
ID="$1"
ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export HV_ROOT="$ROOT" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
mkdir -p "$ROOT/evidence"
rm -f "$ROOT/evidence/$ID.json" "$ROOT/evidence/replay-$ID.txt"
bin="$(echo "$ID" | tr 'A-Z' 'a-z')"
cd "$ROOT/harness" || exit 2
if ! cargo build --release --offline --locked -q --bin "$bin" >"$ROOT/evidence/build-$ID.log" 2>&1; then
  echo "build of the $ID monitor failed:" >&2
  tail -40 "$ROOT/evidence/build-$ID.log" >&2
  exit 2
fi
exec timeout -k 10 860 "$ROOT/target/release/$bin"
