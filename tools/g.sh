#!/bin/sh
# Developer's build of the generator, the seam and their driver.
cd /verif/seam && CARGO_TARGET_DIR=/verif/build/target-gen cargo build --offline 2>&1 | grep -E "^(error|warning: unused)" -A 9 | head -60
cd /verif/gen && CARGO_TARGET_DIR=/verif/build/target-gen cargo build --offline 2>&1 | grep -E "^(error|warning: unused)" -A 9 | head -60
