#!/bin/bash
# Builds every check once, from the committed files and /repo.
cd "$(dirname "$0")" || exit 3
mkdir -p out/bin evidence
for i in 01 03 04 05 06 07 08 09 10 11 12 13 14 15 16 17 18 19 20 21 22 24 25; do
    tools/build.sh C$i release >/dev/null || exit 1
    tools/build.sh C$i plain >/dev/null || exit 1
done
python3 tools/miri.py build || exit 1
python3 tools/port.py build
