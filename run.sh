#!/bin/bash
# run.sh PROP [quick|thorough]: rebuild the monitors from /repo's working tree and run one check.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"
tier="${2:-${VERIF_TIER:-quick}}"
export MON_ROOT="$here" VERIF_TIER="$tier"
export VERIF_SEED="${VERIF_SEED:-1}"
mkdir -p "$here/work" "$here/evidence"
. "$here/build.sh"

build_plain || { echo "NO ANSWER property=$prop: the monitors do not build against /repo"; exit 2; }
if [ "$prop" = C25 ]; then
    exec "$here/c25.sh" "$tier"
fi
exec "$here/harness/target/debug/mon" run "$prop" "$tier"
