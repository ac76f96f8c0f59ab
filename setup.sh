#!/bin/sh
# Everything is interpreted: only check that the tools are there and that the
# specifications parse.
cd "$(dirname "$0")/spec" || exit 1
d=$(mktemp -d) || exit 1
for f in *.tla; do
  java -Djava.io.tmpdir="$d" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" > "$d/out" 2>&1 || { cat "$d/out"; rm -rf "$d"; exit 1; }
done
rm -rf "$d"
/opt/venv/bin/python -c 'import numpy' || exit 1
echo setup ok
