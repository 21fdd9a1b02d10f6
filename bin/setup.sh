#!/bin/sh
# Nothing to build: the checks run TLC on spec/ and python on harness/.
# This only makes sure that the specification is well formed.
set -e
cd "$(dirname "$0")/../spec"
d=$(mktemp -d)
for m in *.tla; do
    java -Djava.io.tmpdir="$d" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > "$d/log" 2>&1 ||
        { cat "$d/log"; exit 1; }
done
find "$d" -delete
