#!/bin/bash
# Builds the engine (offline, from the module cache) and prints the path of the binary.
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${VERIF_BUILD:-/tmp/verif-build}
mkdir -p "$out"
go=go
for d in /opt/veriftools/go1.26.10 /opt/veriftools/go1.27.3; do [ -x $d/bin/go ] && go=$d/bin/go && break; done
cd "$here/engine"
env -u GOROOT GOFLAGS=-mod=readonly GOWORK=off GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local HOME=${HOME:-/root} "$go" build -o "$out/engine" .
echo "$out/engine"
