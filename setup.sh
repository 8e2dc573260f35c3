#!/bin/bash
# Builds every harness from the committed files, offline.
set -eu
cd "$(dirname "${BASH_SOURCE[0]}")"
. sim/env.sh
mkdir -p evidence replays "$CARGO_TARGET_DIR"
cd sim && cargo build --offline --locked -q --workspace
