#!/bin/sh
# Developer's build of the simulator.
cd /verif/sim && CARGO_TARGET_DIR=/verif/build/target cargo build --offline 2>&1 | grep -E "^error" -A 9 | head -60
