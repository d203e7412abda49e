#!/bin/bash
# check.sh PROPERTY [CASE]: builds the monitors against /repo's current tree and runs those of PROPERTY.
# Exit status: 0 held, 1 violated (with a VIOLATION line), 3 no answer.
# VERIF_TIER (quick, thorough), VERIF_SEED and VERIF_SCALE (factor on the number of executions) are optional.
set -u
prop=${1:?property}
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
export VERIF_DIR=$here VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
rm -f "$here/evidence/$prop.json"
mkdir -p "$here/.build" "$here/.replay" "$here/evidence"
bin=$here/.build/$prop.$$
log=$here/.replay/$prop-output.log
trap 'rm -f "$bin"' EXIT
race=
case $prop in C18) race=-race ;; esac
if ! (cd "$here/harness" && timeout 600 go build $race -o "$bin" .) >"$log" 2>&1; then
    echo "$prop: the monitors don't build against the current tree"
    head -c 4000 "$log"
    exit 3
fi
limit=800
[ "$VERIF_TIER" = thorough ] && limit=${VERIF_LIMIT:-860}
export GORACE="halt_on_error=1 exitcode=66" GOMEMLIMIT=20GiB
timeout -k 5 $limit "$bin" "$@" >"$log" 2>&1
rc=$?
head -c 20000 "$log"
case $rc in
0) exit 0 ;;
1) grep -q "^VIOLATION property=$prop " "$log" && exit 1
   exit 3 ;;
2|66)
   # Neither a verdict nor a controlled end: the code under test brought down the process (fatal error,
   # deadlock, data race found by the race detector)
   [ $rc = 66 ] && echo "$prop: data race" || echo "$prop: fatal error in the code under test"
   cp "$log" "$here/.replay/$prop-crash.log"
   echo "VIOLATION property=$prop replay=$here/.replay/$prop-crash.log"
   exit 1 ;;
124|137)
   echo "$prop: no result within $limit s"
   exit 3 ;;
*) exit 3 ;;
esac
