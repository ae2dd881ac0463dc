#!/bin/bash
# Instruments the working tree of the repository and builds the simulator.
#   build.sh OUTDIR [REPO]
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$1
repo=${2:-/repo}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
mkdir -p "$out"
( cd "$here/sim/instr" && go build -buildvcs=false -o "$out/instr" . )
"$out/instr" -repo "$repo" -out "$out" -zz "$here/sim/zz" -harness "$here/sim/harness"
go build -C "$repo" -overlay "$out/overlay.json" -modfile "$out/go.mod" -buildvcs=false -o "$out/harness" ./zzharness
