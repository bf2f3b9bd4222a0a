#!/bin/bash
# Builds the framework once, so that a broken toolchain shows early.
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/build" "$here/evidence" "$here/out"
"$here/sim/build.sh" "$here/build" release driver
