#!/bin/bash
# run_check.sh PROPERTY TIER: decides one property on /repo's current working tree.
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here
export VERIF_BUILD=$(mktemp -d /tmp/verif-engine-XXXXXX)
trap 'rm -rf "$VERIF_BUILD"' EXIT
bin=$("$here/build_engine.sh") || { echo "ERROR: cannot build the engine"; exit 2; }
"$bin" check -property "$1" -tier "${2:-quick}"
