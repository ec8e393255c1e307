#!/bin/bash
# replay.sh <replay file> : build from /repo's working tree and repeat the run.
ROOT=$(cd "$(dirname "$0")" && pwd)
ID=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$1") || exit 3
case $ID in
  C12|C20|C21) bash "$ROOT/tools/buildx.sh" || exit 3
       exec "$ROOT/simx/target/debug/checksim" replay "$1" ;;
  C17) bash "$ROOT/tools/build.sh" all || exit 3 ;;
  *) bash "$ROOT/tools/build.sh" full || exit 3 ;;
esac
exec "$ROOT/sim/target/debug/onnxsim" replay "$1"
