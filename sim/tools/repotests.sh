#!/bin/bash
# Maintenance only: the repository's own onnx-ir / burn-onnx test suites, in a
# scratch copy, against the stand-ins.  repotests.sh [DIR]
set -e
T=${1:-/tmp/rt}; mkdir -p "$T"
rsync -a --delete --exclude target --exclude Cargo.lock --exclude .git /repo/crates /repo/xtask /repo/examples /repo/README.md /repo/SUPPORTED-ONNX-OPS.md "$T/" 2>/dev/null || { cp -r /repo/crates /repo/xtask /repo/examples /repo/README.md "$T/"; }
cp /repo/Cargo.toml "$T/Cargo.toml"
rm -rf "$T/stubs"; cp -r /verif/sim/stubs "$T/stubs"
cd "$T"
for b in burn burn-ndarray burn-store burn-tensor; do sed -i "s#^$b = { git.*#$b = { path = \"stubs/$b\", default-features = false }#" Cargo.toml; done
python3 - <<'P'
import re
s=open('Cargo.toml').read()
s=re.sub(r'(?ms)^members = \[.*?^\]','members = ["crates/burn-onnx","crates/onnx-ir","crates/onnx-ir-derive"]',s,1)
s=re.sub(r'(?ms)^default-members = \[.*?^\]\n','',s,1)
open('Cargo.toml','w').write(s)
P
cargo test --offline -p onnx-ir -p burn-onnx --no-fail-fast 2>&1 | grep -E "^error|test result|FAILED|failed|panicked" | tail -40
