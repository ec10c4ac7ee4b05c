#!/bin/bash
# c25.sh TIER: memory, under the sanitizers and the interpreter.  A build that fails leaves its stage out.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/build.sh"
pids=()
for s in asan msan tsan miri; do
    "build_$s" 2>"$here/work/build-$s.err" &
    pids+=($!)
done
for p in "${pids[@]}"; do wait "$p"; done
exec "$here/harness/target/debug/mon" stages "$1"
