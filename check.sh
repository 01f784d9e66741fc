#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the simulator against /repo's working tree and runs one property's check
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-quick}
. /opt/vp/etc/env.sh
export RUSTC_BOOTSTRAP=1
log=$(mktemp)
if ! (cd "$here/sim" && cargo build --offline) >"$log" 2>&1; then
    echo "build of the simulator against /repo failed:"
    grep -E "^error" -A8 "$log" | head -60
    rm -f "$log"
    exit 3
fi
rm -f "$log"
exec "$here/sim/target/debug/coerce-sim" check --property "$prop" --tier "$tier" --seed "${VERIF_SEED:-1}" \
    --evidence "$here/evidence/$prop.json" --replays "$here/replays" --known "$here/known-findings.txt"
