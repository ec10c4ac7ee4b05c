#!/bin/bash
# Build everything the checks use, so that a check only rebuilds what changed in /repo.
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/build.sh"
mkdir -p "$here/work"
build_plain
# (a stage that does not build here is left out by C25, which says so)
for s in asan msan tsan miri; do
    ("build_$s" 2>"$here/work/build-$s.err" || echo "the $s stage does not build: $(tail -3 "$here/work/build-$s.err")") &
done
wait
