#!/bin/bash
# selftest.sh [RUNS] [ID...]: determinism of the simulator: each run twice from its seed and once from its recorded choices.
V=$(cd "$(dirname "$0")/.." && pwd); N=${1:-300}; shift
rc=0
for s in ${@:-$(ls "$V"/scen | sed -n 's/^\(S..\)\.cpp$/\1/p')}; do
    mkdir -p "$V/build/$s"
    "$V/tools/build.sh" "$V/build/$s" "$s" >"$V/build/$s/log" 2>&1 && "$V/build/$s/simrun" --certs "$V/certs" --scenario "$s" --runs "$N" --selftest || rc=1
done
exit $rc
