#!/bin/bash
# Build checksim (the model-check command under simulated processes) from
# /repo's current working tree. See build.sh for why content is hashed.
set -u
ROOT=$(cd "$(dirname "$0")/.." && pwd)
REPO=${REPO:-/repo}
cd "$ROOT/simx" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
exec 9>"$ROOT/simx/.build.lock"
flock 9
T=$ROOT/simx/target
H=$(find "$REPO/xtask" "$REPO/crates/model-checks/common" "$REPO/crates/model-checks/common.py" "$REPO/Cargo.toml" "$ROOT/simx/src" "$ROOT/simx/Cargo.toml" "$ROOT/sim/src/util.rs" -type f -not -path '*/target/*' -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-32)
if [ ! -f "$T/built.hash" ] || [ "$(cat "$T/built.hash")" != "$H" ]; then
  for d in "$T"/debug/.fingerprint/checksim*; do
    [ -d "$d" ] && rm -r -- "$d"
  done
fi
mkdir -p "$T" && rm -f -- "$T/built.hash"
if ! cargo build --offline --locked --target-dir "$T" >"$T/build.log" 2>&1; then
  tail -60 "$T/build.log" >&2
  echo "harness error: checksim does not build against $REPO" >&2
  exit 3
fi
echo "$H" >"$T/built.hash"
