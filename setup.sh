#!/bin/bash
# Checks that the specifications parse and that the tools the checks need are there.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.inc
mkdir -p evidence build
rc=0
java -version >/dev/null 2>&1 || { echo "no java"; rc=1; }
cd spec || exit 2
for f in *.tla; do
    out=$(tla-sany "$f" 2>&1) || { echo "$out"; echo "does not parse: $f"; rc=1; }
done
exit $rc
