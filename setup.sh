#!/bin/bash
# Builds the simulator (and all dependencies of the crate under test) from the committed files.
. /verif/env.sh
cd /verif/sim || exit 2
cargo build --offline 2>&1 | tail -5
exit "${PIPESTATUS[0]}"
