#!/bin/bash
# Build everything once from the committed files.
ROOT=$(cd "$(dirname "$0")" && pwd)
bash "$ROOT/tools/build.sh" all || exit 1
if [ -f "$ROOT/tools/buildx.sh" ]; then bash "$ROOT/tools/buildx.sh" || exit 1; fi
