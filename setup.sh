#!/bin/bash
# Builds the simulator from the committed files and /repo's working tree.
cd "$(dirname "$0")/sim" || exit 1
CARGO_TERM_COLOR=never cargo build --offline 2>&1 | tail -5
exit "${PIPESTATUS[0]}"
