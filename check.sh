#!/bin/bash
# check.sh <property id> : build from /repo's working tree, then explore.
ROOT=$(cd "$(dirname "$0")" && pwd)
ID=$1; shift
TIER=${VERIF_TIER:-quick}
case $ID in
  C12|C20|C21) bash "$ROOT/tools/buildx.sh" || exit 3
       exec "$ROOT/simx/target/debug/checksim" check "$ID" --tier "$TIER" --root "$ROOT" --repo "${REPO:-/repo}" "$@" ;;
  C17) bash "$ROOT/tools/build.sh" all || exit 3 ;;
  *) bash "$ROOT/tools/build.sh" full || exit 3 ;;
esac
exec "$ROOT/sim/target/debug/onnxsim" check "$ID" --tier "$TIER" --root "$ROOT" --repo "${REPO:-/repo}" "$@"
