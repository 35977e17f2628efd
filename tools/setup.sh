#!/bin/bash
# Everything is built by the checks themselves from /repo's working tree; this only checks that the tools are there.
set -e
cd "$(dirname "$0")/.."
command -v java g++ python3 >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
d=$(mktemp -d)
bash sim/build.sh "$d"
rm -rf "$d"
python3 -c "import json;json.load(open('MANIFEST.json'))"
