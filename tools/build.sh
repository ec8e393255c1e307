#!/bin/bash
# Build the simulator from /repo's current working tree.
#   build.sh [full|nommap|all]
# Cargo decides by time stamps, which copies of a tree do not keep; so the
# content of everything the simulator is built from is hashed, and a change
# drops the affected fingerprints.
set -u
ROOT=$(cd "$(dirname "$0")/.." && pwd)
REPO=${REPO:-/repo}
WHAT=${1:-full}
cd "$ROOT/sim" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
hash_of() { find "$@" -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' -o -name '*.proto' \) -not -path '*/target/*' -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-32; }
one() { # configuration, target dir, extra flags
  local t="$ROOT/sim/$2"; shift 2
  local h; h="$(hash_of "$REPO/crates" "$REPO/xtask" "$REPO/Cargo.toml") $(hash_of "$ROOT/sim/stubs" "$ROOT/sim/src")"
  if [ ! -f "$t/built.hash" ] || [ "$(cat "$t/built.hash")" != "$h" ]; then
    for d in "$t"/debug/.fingerprint/{onnx-ir,burn,onnxsim}*; do
      [ -d "$d" ] && rm -r -- "$d"
    done
  fi
  mkdir -p "$t" && rm -f -- "$t/built.hash"
  if ! cargo build --offline --locked --target-dir "$t" "$@" >"$t/build.log" 2>&1; then
    tail -60 "$t/build.log" >&2
    echo "harness error: the simulator does not build against $REPO" >&2
    return 3
  fi
  echo "$h" >"$t/built.hash"
}
exec 9>"$ROOT/sim/.build.lock"
flock 9
case $WHAT in
  full) one full target || exit 3 ;;
  nommap) one nommap target-nommap --no-default-features || exit 3 ;;
  all) one full target || exit 3; one nommap target-nommap --no-default-features || exit 3 ;;
esac
