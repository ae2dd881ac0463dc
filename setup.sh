#!/bin/bash
# Warms the build cache. Every check builds the simulator again from the
# current sources.
cd "$(dirname "$0")" || exit 1
mkdir -p .build evidence
build=$(mktemp -d .build/setup.XXXXXX) || exit 1
./build.sh "$PWD/$build" /repo
rc=$?
rm -rf "$PWD/$build"
exit $rc
