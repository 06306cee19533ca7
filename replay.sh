#!/bin/bash
# replay.sh FILE: runs the counterexample in FILE against /repo's current tree, natively compiled.
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here
export VERIF_BUILD=$(mktemp -d /tmp/verif-engine-XXXXXX)
trap 'rm -rf "$VERIF_BUILD"' EXIT
bin=$("$here/build_engine.sh") || exit 2
"$bin" replay -file "$1"
