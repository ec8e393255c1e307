#!/bin/bash
# Maintenance only: regenerate Cargo.lock of a harness crate without network.
# cargo refuses a replaced git source without a lock file, so the lock is made
# from a scratch copy where the burn crates are path dependencies, then the git
# source lines are put back.  Usage: mklock.sh sim|simx
set -e
c=$1; T=$(mktemp -d)
mkdir -p $T/$c; cp -r /repo/Cargo.toml /repo/crates /repo/xtask /repo/examples $T/
cp -r /verif/$c/Cargo.toml /verif/$c/src $T/$c/; cp -r /verif/sim/stubs $T/$c/stubs
cd $T
for b in burn burn-ndarray burn-store burn-tensor; do sed -i "s#^$b = { git.*#$b = { path = \"$c/stubs/$b\", default-features = false }#" Cargo.toml; done
sed -i "s#/repo/#$T/#" $c/Cargo.toml
cd $c; cargo generate-lockfile --offline
python3 - "$T/$c/Cargo.lock" "/verif/$c/Cargo.lock" <<'P'
import sys
s=open(sys.argv[1]).read()
src='source = "git+https://github.com/tracel-ai/burn?rev=5923b1e7587e4c76a5d35035147e775ec4002919#5923b1e7587e4c76a5d35035147e775ec4002919"\n'
for c in ['burn','burn-ndarray','burn-store','burn-tensor']:
    s=s.replace(f'name = "{c}"\nversion = "0.21.0-pre.1"\n',f'name = "{c}"\nversion = "0.21.0-pre.1"\n'+src)
open(sys.argv[2],'w').write(s)
P
cd /; rm -r "$T"
