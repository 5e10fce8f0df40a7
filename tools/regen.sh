#!/bin/bash
# after a change to /repo or to the annotations: the texts that renamed locals are inferred from, and the manifest
cd "$(dirname "$0")/.." && bash tools/setup.sh >/dev/null 2>&1
o=$(mktemp -d) && .build/vx/release/vx /repo spec "$o" --write-baseline; rm -r "$o"
python3 tools/mkmanifest.py
