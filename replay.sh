#!/bin/bash
# replay.sh <file>: runs the one case a VIOLATION line named, on /repo's working tree.
cd "$(dirname "$0")" || exit 3
f=$1
export NOM_ROOT=$PWD
id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$f") || exit 3
if [ "$id" = C02 ]; then
    exec python3 tools/miri.py replay "$f"
fi
if [ "$id" = C23 ]; then
    exec python3 tools/port.py replay "$f"
fi
profile=$(python3 -c 'import json,sys; print("plain" if "plain" in json.load(open(sys.argv[1]))["variant"] else "release")' "$f")
bin=$(tools/build.sh "$id" "$profile") || exit 3
exec "$bin" replay "$f"
