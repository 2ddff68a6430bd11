#!/bin/bash
# Builds the sanitized library and every harness. Checks rebuild incrementally from /repo's working tree.
set -e
cd "$(dirname "$0")/.."
python3 tools/gen_manifest.py
python3 tools/gen_build.py
ninja -f build/build.ninja -j8 all 2>&1 | tail -5
test "${PIPESTATUS[0]}" = 0
