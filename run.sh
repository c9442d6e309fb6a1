#!/bin/bash
# run.sh <property> [quick|thorough]: rebuilds from /repo's working tree and runs the check,
# first with overflow checks and debug assertions, then without.
cd "$(dirname "$0")" || exit 3
id=$1
tier=${2:-quick}
export NOM_ROOT=$PWD VERIF_SEED=${VERIF_SEED:-1} CARGO_NET_OFFLINE=true
mkdir -p out/bin evidence
if [ "$id" = C23 ]; then
    exec python3 tools/port.py "$tier"
fi
if [ "$id" = C02 ]; then
    exec python3 tools/miri.py "$tier"
fi
bin=$(tools/build.sh "$id" release) || { echo "error: the build of $id failed" >&2; exit 3; }
"$bin" check "$id" "$tier" || exit $?
bin=$(tools/build.sh "$id" plain) || { echo "error: the plain build of $id failed" >&2; exit 3; }
left=$((6 * 3600 - SECONDS))
[ "$tier" = thorough ] || left=$((830 - SECONDS))
if [ $left -gt 20 ]; then
    NOM_LIMIT=$left "$bin" check "$id" "$tier"
    rc=$?
    # Out of time is no failure: the first build has finished.
    [ $rc = 0 ] || [ $rc = 5 ] || exit $rc
fi
exec python3 tools/merge.py "$id"
