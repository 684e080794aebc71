#!/bin/bash
# Everything is built by the checks themselves from /repo's current tree; this only verifies that the tools are there.
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence
cargo --version >/dev/null; verus --version >/dev/null; cargo kani --version >/dev/null
python3 -c 'import json;json.load(open("MANIFEST.json"))'
