#!/bin/bash
# builds the simulator against /repo's working tree
set -eu
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/etc/env.sh
export RUSTC_BOOTSTRAP=1
cd "$here/sim" && cargo build --offline
