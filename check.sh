#!/bin/bash
# check.sh PROPERTY quick|thorough: rebuilds from /repo's working tree, then explores.
. /verif/env.sh
export VERIF_TIER="$2"
cd /verif/sim || exit 2
cargo build --offline >/tmp/dst-build.$$ 2>&1 || { tail -40 /tmp/dst-build.$$; rm -f /tmp/dst-build.$$; echo "the simulator does not build"; exit 2; }
rm -f /tmp/dst-build.$$
exec /verif/target/debug/dst check "$1"
